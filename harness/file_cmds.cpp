// files: saving, loading, writers, damage and write faults
#include "harness.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include "NurbsSolid.h"
#include "NurbsSurface.h"
#include "OBJFile.h"
#include "STLFile.h"
#include "StepFile.h"
#include <algorithm>
#include <cctype>
#include <fstream>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <cerrno>
#include <unistd.h>

Image& IM(const std::string& n);
NurbsSurface& SF(const std::string& n);
NurbsSolid& SO(const std::string& n);
void post_images(Ev& e);
void post_nurbs(Ev& e);

static std::map<std::string, std::unique_ptr<OBJWriter>> ows;
static std::map<std::string, std::unique_ptr<StepWriter>> sws;
static std::map<std::string, std::string> open_path;   // writer -> file
static std::set<std::string> files;
static long long g_cap = -1;
// a fault that passes: after g_gl_after transfers to a file, g_gl_count of them fail
static long long g_gl_after = -1, g_gl_count = 0;
static int g_gl_err = EIO, g_in_save = 0;
static long long g_gl_seen = 0;
static bool glitch(int fd) {
    if (!g_in_save || g_gl_after < 0 || fd < 3) return false;
    long long k = g_gl_seen++;
    if (k < g_gl_after || k >= g_gl_after + g_gl_count) return false;
    errno = g_gl_err;
    return true;
}
extern "C" ssize_t write(int fd, const void* b, size_t n) { return glitch(fd) ? -1 : syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { return glitch(fd) ? -1 : syscall(SYS_writev, fd, v, n); }
static std::set<std::string> g_touched;

// S<x>: STL, O<x>: OBJ, B<x>: BMP, P<x>: STEP, @...: places that cannot be written
static std::string real(const std::string& n) {
    if (n == "@full") return "/dev/full";
    if (n == "@none") return g_dir + "/none/x";
    if (n == "@dir") { mkdir((g_dir + "/adir").c_str(), 0755); return g_dir + "/adir"; }
    return g_dir + "/" + n + (n[0] == 'S' ? ".stl" : n[0] == 'O' ? ".obj" : n[0] == 'B' ? ".bmp" : ".stp");
}
struct Cap { // a file may grow to g_cap bytes while this lives
    struct rlimit old;
    Cap() { getrlimit(RLIMIT_FSIZE, &old); if (g_cap >= 0) { struct rlimit r = old; r.rlim_cur = (rlim_t)g_cap; setrlimit(RLIMIT_FSIZE, &r); } g_in_save++; }
    ~Cap() { g_in_save--; setrlimit(RLIMIT_FSIZE, &old); }
};
static void touch(const std::string& n) { if (n[0] != '@') { files.insert(n); g_touched.insert(n); } }
static bool slurp(const std::string& n, std::string& s) {
    struct stat st;
    if (stat(real(n).c_str(), &st) || !S_ISREG(st.st_mode)) return false;
    std::ifstream f(real(n), std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    s = ss.str();
    return true;
}
static std::string bytes_json(const std::string& s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
    return r + "]";
}

// ---- OBJ: lines of a keyword and numbers
static bool clean_number(const std::string& t) {
    size_t i = 0;
    if (t[i] == '-') i++;
    size_t d = i;
    while (i < t.size() && isdigit((unsigned char)t[i])) i++;
    if (i == d) return false;
    if (i < t.size() && t[i] == '.') { size_t f = ++i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if (i == f) return false; }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        i++;
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++;
        size_t f = i;
        while (i < t.size() && isdigit((unsigned char)t[i])) i++;
        if (i == f || i - f > 3) return false;
    }
    if (i != t.size() || t.size() > 40) return false;
    double v = fabs(strtod(t.c_str(), nullptr));
    return v == 0 || (v > 1e-300 && v < 1e300);
}
static std::string obj_json(const std::string& s) {
    std::string r = "[";
    std::istringstream f(s);
    std::string line;
    bool first = true;
    while (std::getline(f, line)) {
        std::istringstream l(line);
        std::string k, t;
        if (!(l >> k) || k[0] == '#') continue;
        bool clean = true;
        std::string n;
        bool whole = k == "f" || k == "l";   // indices
        while (l >> t) {
            if (!clean_number(t) || (whole && t.find_first_of(".eE") != std::string::npos)) { clean = false; continue; }
            if (!n.empty()) n += ",";
            n += "\"#" + t + "\"";
        }
        if (!first) r += ",";
        first = false;
        r += "{\"k\":" + Ev::str(k) + ",\"c\":" + (clean ? "true" : "false") + ",\"n\":[" + n + "]}";
    }
    return r + "]";
}

// ---- STEP: the exchange structure of ISO 10303-21, nothing of the schema
struct Step {
    const std::string& s;
    size_t i = 0;
    bool ok = true;
    explicit Step(const std::string& t) : s(t) {}
    void ws() {
        for (;;) {
            while (i < s.size() && isspace((unsigned char)s[i])) i++;
            if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); if (e == std::string::npos) { ok = false; return; } i = e + 2; }
            else return;
        }
    }
    bool lit(const char* t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
    void need(const char* t) { if (!lit(t)) ok = false; }
    std::string keyword() { ws(); size_t b = i; while (i < s.size() && (isupper((unsigned char)s[i]) || isdigit((unsigned char)s[i]) || s[i] == '_')) i++; if (b == i || isdigit((unsigned char)s[b])) ok = false; return s.substr(b, i - b); }
    int id() { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (b == i || i - b > 9) { ok = false; return -1; } return atoi(s.substr(b, i - b).c_str()); }
    std::string value() {
        ws();
        if (!ok || i >= s.size()) { ok = false; return "0"; }
        char c = s[i];
        if (c == '(') return list();
        if (c == '#') { i++; return "{\"t\":\"r\",\"v\":" + std::to_string(id()) + "}"; }
        if (c == '$' || c == '*') { i++; return "{\"t\":\"u\",\"v\":0}"; }
        if (c == '.') { size_t e = s.find('.', i + 1); if (e == std::string::npos) { ok = false; return "0"; } std::string v = s.substr(i + 1, e - i - 1); i = e + 1; return "{\"t\":\"e\",\"v\":" + Ev::str(v) + "}"; }
        if (c == '\'') {
            std::string v;
            i++;
            for (;;) {
                if (i >= s.size()) { ok = false; return "0"; }
                if (s[i] == '\'') { if (i + 1 < s.size() && s[i + 1] == '\'') { v += '\''; i += 2; continue; } i++; break; }
                v += s[i++];
            }
            return "{\"t\":\"s\",\"v\":" + Ev::str("'" + v) + "}";
        }
        size_t b = i;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '-' || s[i] == '+' || s[i] == '.')) i++;
        std::string t = s.substr(b, i - b);
        if (!clean_number(t)) { ok = false; return "0"; }
        bool integer = t.find_first_of(".eE") == std::string::npos && t.size() < 10;
        return integer ? "{\"t\":\"i\",\"v\":" + std::to_string(atoi(t.c_str())) + "}" : "{\"t\":\"n\",\"v\":\"#" + t + "\"}";
    }
    std::string seq() { // ( a, b, ... )
        need("(");
        std::string r = "[";
        if (lit(")")) return r + "]";
        for (bool first = true; ok; first = false) {
            if (!first) r += ",";
            r += value();
            if (lit(")")) break;
            need(",");
        }
        return r + "]";
    }
    std::string list() { return "{\"t\":\"l\",\"v\":" + seq() + "}"; }
    std::string part() { std::string k = keyword(); return "{\"k\":" + Ev::str(k) + ",\"a\":" + seq() + "}"; }
    std::string parse() {
        need("ISO-10303-21;");
        need("HEADER;");
        std::string h = "[", d = "[";
        bool first = true;
        while (ok && !lit("ENDSEC;")) { if (!first) h += ","; first = false; h += part(); need(";"); }
        need("DATA;");
        first = true;
        while (ok && !lit("ENDSEC;")) {
            if (!first) d += ",";
            first = false;
            need("#");
            d += "{\"id\":" + std::to_string(id()) + ",\"p\":[";
            need("=");
            ws();
            if (i < s.size() && s[i] == '(') {
                i++;
                bool f2 = true;
                while (ok && !lit(")")) { if (!f2) d += ","; f2 = false; d += part(); }
            }
            else d += part();
            d += "]}";
            need(";");
        }
        need("END-ISO-10303-21;");
        ws();
        if (i != s.size()) ok = false;
        return ok ? "{\"ok\":true,\"h\":" + h + "],\"d\":" + d + "]}" : std::string("{\"ok\":false,\"h\":[],\"d\":[]}");
    }
};

static std::string content(const std::string& n) {
    std::string s;
    if (!slurp(n, s)) return "{\"k\":\"none\",\"b\":[],\"size\":0}";
    std::string z = ",\"size\":" + std::to_string(s.size()) + "}";
    if (n[0] == 'O') return "{\"k\":\"lines\",\"b\":" + obj_json(s) + z;
    if (n[0] == 'P') return "{\"k\":\"step\",\"b\":" + Step(s).parse() + z;
    return "{\"k\":\"bytes\",\"b\":" + bytes_json(s) + z;
}
static void post_files(Ev& e) {
    std::string r = "{", c = "{";
    std::set<std::string> busy;
    for (auto& k : open_path) busy.insert(k.second);
    bool f1 = true, f2 = true;
    for (auto& n : files) {
        if (busy.count(n)) continue;
        std::string s;
        unsigned long long h = 1469598103934665603ull;
        bool reg = slurp(n, s);
        for (unsigned char x : s) { h ^= x; h *= 1099511628211ull; }
        char b[64];
        snprintf(b, sizeof b, "%zu:%llx", s.size(), h);
        if (!f1) r += ",";
        f1 = false;
        r += Ev::str(n) + ":" + Ev::str(reg ? b : "none");
        if (!g_touched.count(n)) continue;
        if (!f2) c += ",";
        f2 = false;
        c += Ev::str(n) + ":" + content(n);
    }
    e.raw("fs", r + "}");
    e.raw("fc", c + "}");
    e.i("cap", g_cap);
    e.b("gl", g_gl_after >= 0);
    e.raw("ms", all_meshes());
    post_images(e);
    g_touched.clear();
}
#define post post_files

CMD("f_cap") { g_cap = in.i("n"); post(e); }
CMD("f_glitch") { g_gl_after = in.i("n"); g_gl_count = in.i("k"); g_gl_err = in.i("disk") ? ENOSPC : EIO; g_gl_seen = 0; post(e); }
CMD("f_save") {
    std::string k = in.t("k"), p = in.t("p"), m = in.t("m"), path = real(p);
    bool ok;
    if (k == "B") { Image& x = IM(m); Cap c; ok = ImageIoBmp::write(path, &x); }
    else if (k == "S") { Mesh& x = M(m); Cap c; ok = STLFile::save(path, x); }
    else { Mesh& x = M(m); Cap c; ok = OBJFile::save(path, x); }
    e.b("ok", ok);
    touch(p);
    post(e);
}
CMD("f_load") {
    std::string k = in.t("k"), p = in.t("p"), m = in.t("m"), path = real(p);
    bool ok = k == "B" ? ImageIoBmp::read(path, &IM(m)) : k == "S" ? STLFile::load(path, M(m)) : OBJFile::load(path, M(m));
    e.b("ok", ok);
    post(e);
}
// the environment: files written by others, and damage
static void put(const std::string& p, const std::string& s) { std::ofstream f(real(p), std::ios::binary); f << s; f.close(); touch(p); }
CMD("f_put") { std::string p = in.t("p"), s; for (int v : in.ris()) s += (char)v; put(p, s); post(e); }
CMD("f_hex") { std::string p = in.t("p"), h = in.tok(), s; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); put(p, s); post(e); }
CMD("f_cut") { std::string p = in.t("p"), s; int n = in.i("n"); slurp(p, s); if (n < 0) n = std::max(0, (int)s.size() + n); if ((size_t)n < s.size()) s.resize(n); put(p, s); post(e); }
CMD("f_poke") { std::string p = in.t("p"), s; slurp(p, s); int n = in.i("n"); for (int v : in.iv("v")) { if ((size_t)n < s.size()) s[n] = (char)v; n++; } put(p, s); post(e); }
CMD("f_add") { std::string p = in.t("p"), s; slurp(p, s); for (int v : in.iv("v")) s += (char)v; put(p, s); post(e); }
CMD("f_dup") { std::string p = in.t("p"), q = in.t("q"), s; slurp(q, s); put(p, s); post(e); }
CMD("f_del") { std::string p = in.t("p"); unlink(real(p).c_str()); touch(p); post(e); }
CMD("f_mkdir") { std::string p = in.t("p"); unlink(real(p).c_str()); mkdir(real(p).c_str(), 0755); touch(p); post(e); }

// ---- OBJ writers
static OBJWriter& OW(const std::string& n) { auto& p = ows[n]; if (!p) p.reset(new OBJWriter); return *p; }
static void closed(const std::string& w, Ev& e) {
    auto it = open_path.find(w);
    e.t("was", it == open_path.end() ? "" : it->second);
    if (it != open_path.end()) { touch(it->second); open_path.erase(it); }
}
static void opened(const std::string& w, const std::string& p) { if (p[0] != '@') { files.insert(p); open_path[w] = p; } }
CMD("ow_open") {
    std::string w = in.t("w"), p = in.t("p");
    { Cap c; OW(w).open(real(p)); }
    closed(w, e); opened(w, p);
    e.b("open", OW(w).is_open());
    post(e);
}
CMD("ow_mesh") { std::string w = in.t("w"), m = in.t("m"); { Cap c; OW(w).write(M(m)); } e.b("open", OW(w).is_open()); post(e); }
CMD("ow_poly") { std::string w = in.t("w"); auto v = in.ps("v"); { Cap c; OW(w).write(v); } e.b("open", OW(w).is_open()); post(e); }
CMD("ow_close") { std::string w = in.t("w"); { Cap c; OW(w).close(); } closed(w, e); e.b("open", OW(w).is_open()); e.b("failed", OW(w).has_failed()); post(e); }
CMD("ow_del") { std::string w = in.t("w"); { Cap c; ows.erase(w); } closed(w, e); post(e); }

// ---- STEP writers
static StepWriter& SW(const std::string& n) { auto& p = sws[n]; if (!p) p.reset(new StepWriter); return *p; }
CMD("sw_open") {
    std::string w = in.t("w"), p = in.t("p");
    { Cap c; SW(w).open(real(p)); }
    closed(w, e); opened(w, p);
    e.b("open", SW(w).is_open());
    post(e);
}
CMD("sw_surf") { std::string w = in.t("w"), m = in.t("m"); { Cap c; SW(w).write(SF(m)); } e.b("open", SW(w).is_open()); post(e); post_nurbs(e); }
CMD("sw_solid") { std::string w = in.t("w"), m = in.t("m"); { Cap c; SW(w).write(SO(m)); } e.b("open", SW(w).is_open()); post(e); post_nurbs(e); }
CMD("sw_close") { std::string w = in.t("w"); { Cap c; SW(w).close(); } closed(w, e); e.b("open", SW(w).is_open()); post(e); }
CMD("sw_del") { std::string w = in.t("w"); { Cap c; sws.erase(w); } closed(w, e); post(e); }
