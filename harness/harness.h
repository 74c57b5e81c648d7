// Replay harness: executes scripts of API calls on the real library and writes one
// JSON event per call (arguments, result, projected object state).
#ifndef HARNESS_H
#define HARNESS_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "Geometry.h"
#include "Mesh.h"

// one recorded event, built field by field
struct Ev {
    std::string s;
    explicit Ev(const std::string& op) { s = "{\"op\":\"" + op + "\""; }
    void key(const char* k) { s += ",\""; s += k; s += "\":"; }
    static std::string num(double d) {
        char b[64];
        if (d != d) return "\"#nan\"";
        if (std::isinf(d)) return "\"#inf\"";
        snprintf(b, sizeof b, "\"#%a\"", d);
        return b;
    }
    static std::string integer(long long v) {
        if (v > 2147483647LL || v < -2147483647LL) return "\"#" + std::to_string(v) + "\"";
        return std::to_string(v);
    }
    static std::string pt(const Point3& p) { return "[" + num(p._x) + "," + num(p._y) + "," + num(p._z) + "]"; }
    static std::string str(const std::string& t) {
        std::string r = "\"";
        for (unsigned char c : t) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c == '\n') r += "\\n";
            else if (c == '\t') r += "\\t";
            else if (c == '\r') r += "\\r";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    void raw(const char* k, const std::string& v) { key(k); s += v; }
    void i(const char* k, long long v) { raw(k, integer(v)); }
    void d(const char* k, double v) { raw(k, num(v)); }
    void b(const char* k, bool v) { raw(k, v ? "true" : "false"); }
    void t(const char* k, const std::string& v) { raw(k, str(v)); }
    void p(const char* k, const Point3& v) { raw(k, pt(v)); }
    static std::string pts(const std::vector<Point3>& v) {
        std::string r = "[";
        for (size_t n = 0; n < v.size(); n++) { if (n) r += ","; r += pt(v[n]); }
        return r + "]";
    }
    static std::string ds(const std::vector<double>& v) {
        std::string r = "[";
        for (size_t n = 0; n < v.size(); n++) { if (n) r += ","; r += num(v[n]); }
        return r + "]";
    }
    static std::string is(const std::vector<int>& v) {
        std::string r = "[";
        for (size_t n = 0; n < v.size(); n++) { if (n) r += ","; r += integer(v[n]); }
        return r + "]";
    }
};

// thrown by a command that has nothing to act on: no call, no event
struct Skip {};

// argument reader: every argument read is also recorded in the event
struct In {
    std::istringstream is;
    Ev& e;
    In(const std::string& line, Ev& ev) : is(line), e(ev) {}
    std::string tok() {
        std::string t;
        if (!(is >> t)) { fprintf(stderr, "harness: missing argument\n"); _Exit(70); }
        return t;
    }
    bool more() { is >> std::ws; return is.peek() != EOF; }
    double rd() { return strtod(tok().c_str(), nullptr); }
    int ri() { return (int)strtol(tok().c_str(), nullptr, 10); }
    Point3 rp() { double x = rd(), y = rd(), z = rd(); return Point3(x, y, z); }
    std::vector<Point3> rps() { int n = ri(); std::vector<Point3> v; for (int k = 0; k < n; k++) v.push_back(rp()); return v; }
    std::vector<double> rds() { int n = ri(); std::vector<double> v; for (int k = 0; k < n; k++) v.push_back(rd()); return v; }
    std::vector<int> ris() { int n = ri(); std::vector<int> v; for (int k = 0; k < n; k++) v.push_back(ri()); return v; }
    int i(const char* k) { int v = ri(); e.i(k, v); return v; }
    double d(const char* k) { double v = rd(); e.d(k, v); return v; }
    std::string t(const char* k) { std::string v = tok(); e.t(k, v); return v; }
    Point3 p(const char* k) { Point3 v = rp(); e.p(k, v); return v; }
    std::vector<Point3> ps(const char* k) { auto v = rps(); e.raw(k, Ev::pts(v)); return v; }
    std::vector<double> ds(const char* k) { auto v = rds(); e.raw(k, Ev::ds(v)); return v; }
    std::vector<int> iv(const char* k) { auto v = ris(); e.raw(k, Ev::is(v)); return v; }
};

typedef std::function<void(In&, Ev&)> Cmd;
std::map<std::string, Cmd>& commands();
struct Reg { Reg(const char* n, Cmd c) { commands()[n] = c; } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define CMD(name) static void CAT(cmd_, __LINE__)(In& in, Ev& e); \
    static Reg CAT(reg_, __LINE__)(name, CAT(cmd_, __LINE__)); \
    static void CAT(cmd_, __LINE__)(In& in, Ev& e)

// object tables (one process per script: they start empty)
extern std::map<std::string, std::unique_ptr<Mesh>> meshes;
Mesh& M(const std::string& n);
std::string mesh_state(const Mesh& m);
std::string all_meshes();
extern std::string g_dir; // scratch directory of this run
#endif
