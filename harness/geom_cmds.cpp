#include "harness.h"
#include "GeometryUtil.h"

static void bits(Ev& e, bool hit, const Point3& p) { e.b("ret", hit); e.p("r", hit ? p : Point3()); }
static Triangle3 tri(In& in, const char* k) {
    auto v = in.ps(k);
    if (v.size() != 3) _Exit(70);
    return Triangle3(v[0], v[1], v[2]);
}
static Segment3 seg(In& in, const char* k) {
    auto v = in.ps(k);
    if (v.size() != 2) _Exit(70);
    return Segment3(v[0], v[1]);
}

CMD("g_point") {
    Point3 p = in.p("p"), q = in.p("q");
    double k = in.d("k");
    e.p("add", p + q); e.p("sub", p - q); e.p("mul", p * k); e.p("div", p / k);
    Point3 a = p; e.b("r1", &(a += q) == &a); e.p("iadd", a);
    a = p; e.b("r2", &(a -= q) == &a); e.p("isub", a);
    a = p; e.b("r3", &(a *= k) == &a); e.p("imul", a);
    a = p; e.b("r4", &(a /= k) == &a); e.p("idiv", a);
    e.d("dot", p.dot_product(q)); e.p("cross", p.cross_product(q));
    e.d("dist2", p.distance_square(q)); e.d("norm", p.norm()); e.d("norm2", p.norm_square());
    e.p("unit", p.normalized()); a = p; a.normalize(); e.p("iunit", a);
    const Point3& c = p;
    e.raw("xyz", Ev::ds({c.x(), c.y(), c.z()}));
    a = Point3(); e.p("origin", a);
    a.x() = q.z(); a.y() = q.x(); a.z() = q.y(); e.p("set", a);
    e.p("p2", p); e.p("q2", q);
}
CMD("g_segment") {
    Segment3 s = seg(in, "s");
    e.d("norm", s.norm()); e.d("norm2", s.norm_square());
    e.raw("get", Ev::pts({s.p1(), s.p2()}));
    Segment3 z; e.raw("zero", Ev::pts({z.p1(), z.p2()}));
    z.set_p2(s.p1()); z.set_p1(s.p2()); e.raw("swapped", Ev::pts({z.p1(), z.p2()}));
    Line3 l(s.p1(), s.p2()), m; e.raw("line", Ev::pts({l.p1(), l.p2()}));
    m.set_p1(s.p2()); m.set_p2(s.p1()); e.raw("lswapped", Ev::pts({m.p1(), m.p2()}));
}
CMD("g_seg_seg") { Segment3 s = seg(in, "s"), t = seg(in, "t"); Point3 p(7, 7, 7); bool b = s.intersect(t, p); bits(e, b, p); }
CMD("g_tri") {
    Triangle3 t = tri(in, "t");
    e.d("surface", t.surface()); e.p("normal", t.normal()); e.p("orth", t.orthogonal());
    e.raw("get", Ev::pts({t.p1(), t.p2(), t.p3()}));
    Triangle3 u; e.raw("zero", Ev::pts({u.p1(), u.p2(), u.p3()}));
    u.set_p3(t.p1()); u.set_p1(t.p2()); u.set_p2(t.p3()); e.raw("turned", Ev::pts({u.p1(), u.p2(), u.p3()}));
}
CMD("g_tri_contains") { Triangle3 t = tri(in, "t"); Point3 p = in.p("p"); e.b("ret", t.contains(p)); }
CMD("g_tri_cut") { Triangle3 t = tri(in, "t"); Triangle3 q = tri(in, "q"); Plane3 p(q); e.b("ret", t.cutted_by(p)); }
CMD("g_tri_seg") { Triangle3 t = tri(in, "t"); Segment3 s = seg(in, "s"); Point3 p(7, 7, 7); bool b = t.intersect_with(s, p); bits(e, b, p); }
CMD("g_tri_tri") { Triangle3 t = tri(in, "t"), u = tri(in, "u"); e.b("ret", t.intersect_with(u)); }
CMD("g_plane") {
    Triangle3 t = tri(in, "t");
    Point3 p = in.p("p");
    int how = in.i("how");
    Plane3 pl;
    if (how == 0) pl = Plane3(t.p1(), t.p2(), t.p3());
    else if (how == 1) pl = Plane3(t);
    else if (how == 2) pl.compute_using(t.p1(), t.p2(), t.p3());
    else { pl = Plane3(Point3(5, 5, 5), Point3(6, 5, 5), Point3(5, 6, 7)); pl.compute_using(t); }
    double a, b, c, d;
    pl.get(a, b, c, d);
    e.raw("abcd", Ev::ds({a, b, c, d}));
    e.d("dist", pl.distance_to(p));
    Point3 pr(9, 9, 9); pl.project_point(p, pr); e.p("proj", pr);
    Point3 self = p; pl.project_point(self, self); e.p("iproj", self);
    e.p("normal", pl.normal());
}
CMD("g_plane_seg") { Triangle3 t = tri(in, "t"); Segment3 s = seg(in, "s"); Plane3 pl(t); Point3 p(7, 7, 7); bool b = pl.intersect_with(s, p); bits(e, b, p); }
CMD("g_plane_plane") {
    Triangle3 t = tri(in, "t"), u = tri(in, "u");
    Plane3 a(t), b(u);
    Line3 l;
    e.b("ret", a.intersect_with(b, l));
    e.raw("line", Ev::pts({l.p1(), l.p2()}));
}
CMD("g_bbox") {
    auto a = in.ps("a"), b = in.ps("b");
    auto mk = [](const std::vector<Point3>& v) {
        if (v.size() == 3) return BoundingBox3(Triangle3(v[0], v[1], v[2]));
        BoundingBox3 x;
        for (auto& p : v) x.add(p);
        return x;
    };
    BoundingBox3 x = mk(a), y = mk(b);
    e.b("ret", x.intersect_with(y)); e.b("rev", y.intersect_with(x));
}
CMD("g_axis") { int s = in.i("seed"); Point3 p(1, 2, 3), q; GeometryUtil::compute_random_axis(p, s); GeometryUtil::compute_random_axis(q, s); e.p("r", p); e.p("again", q); }
