"""Drivers for files (no oracle here)."""
import struct
from lib import gen

def coord(rng, k):
    if k == 0: return float(rng.randint(-3, 3))
    if k == 1: return rng.uniform(-1, 1)
    if k == 2: return rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.choice([rng.randint(-30, 30), rng.randint(-44, 37), rng.randint(-44, -30), rng.randint(30, 37)])
    if k == 3: return rng.choice([0.0, -0.0, 1 / 3, -2 / 3, 123456.5, 1234567.0, -9999995.0, 0.000123456789, 1e-7, 1e6, 999999.5, 1e5, -1e21, 65504, 16777217.0])
    if k == 4: return rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.randint(-7, 8)
    return rng.gauss(0, 1)
def point(rng, k=None):
    k = rng.randrange(6) if k is None else k
    return [coord(rng, k) for _ in range(3)]

def mesh(rng, name, nv=None, nt=None, color=None):
    k = rng.choice([None, 0, 1, 2, 3, 4, 5])
    nv = rng.choice([0, 1, 3, 4, 5, 8, 12]) if nv is None else nv
    v = [point(rng, k) for _ in range(nv)]
    t = []
    if nv:
        for _ in range(rng.choice([0, 1, 2, 4, 7]) if nt is None else nt):
            x = [rng.randrange(nv) for _ in range(3)] if nv < 3 or rng.random() < .1 else rng.sample(range(nv), 3)
            t.append(x + [int(rng.random() < .25)])
    c = rng.choice([-1, -1, 0, 0xffffff, 0xff0000, 0x00ff00, 0x0000ff, rng.randrange(1 << 24)]) if color is None else color
    return "m_load %s %d %s %d %s" % (name, c, gen.pts(v), len(t), " ".join(" ".join(map(str, x)) for x in t))
def factory(rng, name):
    k = rng.choice(["tetrahedron", "box", "octahedron", "dodecahedron", "icosahedron", "cylinder", "sphere_uv", "torus"])
    a = {"box": [1, 2.5, 0.3], "cylinder": [2, 1], "torus": [3, 1]}.get(k, [1.7])
    return "m_factory %s %s %s %d" % (name, k, gen.ds(a), 4)
def polyline(rng): return gen.pts([point(rng) for _ in range(rng.choice([2, 2, 3, 5, 1]))])
def b(s): return gen.iv(list(s))
def hexs(s): return s.encode().hex() or "0a"

def f32(rng):
    k = rng.randrange(8)
    if k == 0: return struct.pack("<f", rng.choice([0.0, -0.0, 1.0, -1.5, 3.4e38, 1e-45, -1e-40, 1.17549435e-38]))
    if k == 1: return bytes([0, 0, 0x80, rng.choice([0x7f, 0xff])])      # infinite
    if k == 2: return bytes(rng.randrange(256) for _ in range(4))
    return struct.pack("<f", rng.uniform(-10, 10))
def stl(rng, n, header=None, finite=True):
    h = header if header is not None else rng.choice([b"\0" * 80, b"solid made elsewhere".ljust(80, b" "), bytes(rng.randrange(256) for _ in range(80))])
    s = h + struct.pack("<i", n)
    for _ in range(n):
        s += struct.pack("<3f", 0, 0, 1)
        for _ in range(9): s += struct.pack("<f", rng.uniform(-10, 10)) if finite else f32(rng)
        s += struct.pack("<H", rng.choice([0, 0, 0x8000, 77]))
    return s

def bmp(rng, w, h, bpp, topdown=False, extra=None, comp=None, hdr=40, size=None, clr=0, palette=True):
    """a bitmap file as another program writes it"""
    n = bpp // 8
    row = (w * n + 3) // 4 * 4
    pal = (b"".join(bytes([i, i, i, 0]) for i in range(clr or 256)) if bpp == 8 and palette else b"")
    mask = b""
    if comp == 3 and hdr == 40: mask = struct.pack("<4I", 0xff0000, 0xff00, 0xff, 0xff000000)
    gap = bytes(rng.randrange(256) for _ in range(extra or 0))
    off = 14 + hdr + len(mask) + len(pal) + len(gap)
    data = b"".join(bytes(rng.randrange(256) for _ in range(w * n)) + bytes(rng.randrange(256) for _ in range(row - w * n)) for _ in range(h))
    total = off + len(data)
    s = b"BM" + struct.pack("<IHHI", total if size is None else size, 0, 0, off)
    s += struct.pack("<IiiHHIIiiII", hdr, w, -h if topdown else h, 1, bpp, comp or 0, rng.choice([0, len(data)]), 2835, 2835, clr, 0)
    if hdr > 40:
        body = struct.pack("<4I", 0xff0000, 0xff00, 0xff, 0xff000000) + b"sRGB"
        s += (body + b"\0" * 200)[:hdr - 40]
    return s + mask + pal + gap + data

def image(rng, name, w=None, h=None, p=None):
    w = rng.choice([1, 2, 3, 4, 5, 7, 8]) if w is None else w
    h = rng.choice([1, 2, 3, 5, 6]) if h is None else h
    p = rng.choice([1, 3, 4]) if p is None else p
    return "i_load %s %d %d %d %s" % (name, w, h, p, gen.iv([rng.randrange(256) for _ in range(min(w * h * p, 400))]))
