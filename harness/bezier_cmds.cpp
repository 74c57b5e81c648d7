#include "harness.h"
#include "BezierUtil.h"
#include "CubicBezierTriangles.h"
#include "QuadBezierTriangle.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include "Transform.h"

std::map<std::string, std::unique_ptr<QuadBezierTriangle>> patches;
std::map<std::string, std::unique_ptr<SmoothMesh>> smooths;
std::shared_ptr<Transform> read_transform(In& in, Ev& e);
static QuadBezierTriangle& B(const std::string& n) { auto& p = patches[n]; if (!p) p.reset(new QuadBezierTriangle); return *p; }
SmoothMesh& SM(const std::string& n) { auto& p = smooths[n]; if (!p) p.reset(new SmoothMesh); return *p; }

static std::string probes(const QuadBezierTriangle& b) {
    return Ev::pts({b.eval(1, 0), b.eval(0, 1), b.eval(0, 0), b.eval(.5, .5), b.eval(.5, 0), b.eval(0, .5), b.eval(.25, .25), b.eval(.5, .25)});
}
std::string smooth_state(const SmoothMesh& s) {
    std::string r = std::string("{\"e\":") + (s.empty() ? "true" : "false") + ",\"n\":" + Ev::integer(s.nb_triangles()) + ",\"q\":[";
    for (int i = 0; i < s.nb_triangles(); i++) { if (i) r += ","; r += probes(s.triangle(i)); }
    return r + "]}";
}
static void post(Ev& e, bool mesh = false) {
    std::string r = "{";
    bool first = true;
    for (auto& k : patches) { if (!first) r += ","; first = false; r += Ev::str(k.first) + ":" + probes(*k.second); }
    e.raw("bz", r + "}");
    r = "{"; first = true;
    for (auto& k : smooths) { if (!first) r += ","; first = false; r += Ev::str(k.first) + ":" + smooth_state(*k.second); }
    e.raw("sm", r + "}");
    if (mesh) e.raw("ms", all_meshes());
}

CMD("b_new") { patches[in.t("m")].reset(new QuadBezierTriangle); post(e); }
CMD("b_points") { auto& b = B(in.t("m")); auto v = in.ps("ps"); b.set_points(v[0], v[1], v[2]); post(e); }
CMD("b_control") { auto& b = B(in.t("m")); auto v = in.ps("ps"); b.set_control_points(v[0], v[1], v[2]); post(e); }
CMD("b_weights") { auto& b = B(in.t("m")); auto v = in.ds("ws"); b.set_weights(v[0], v[1], v[2], v[3], v[4], v[5]); post(e); }
CMD("b_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<QuadBezierTriangle> q(new QuadBezierTriangle(B(f))); patches[n] = std::move(q); post(e); }
CMD("b_assign") { std::string n = in.t("m"), f = in.t("f"); B(f); B(n) = B(f); post(e); }
CMD("b_from_smooth") { std::string n = in.t("m"), f = in.t("f"); B(n) = SM(f).triangle(in.i("i")); post(e); }
CMD("b_transform") { auto& b = B(in.t("m")); auto t = read_transform(in, e); b.apply_transform(*t); post(e); }
CMD("b_eval") {
    auto& b = B(in.t("m"));
    auto s = in.ds("s"), u = in.ds("u");
    std::vector<Point3> r, r3;
    for (size_t i = 0; i < s.size(); i++) { r.push_back(b.eval(s[i], u[i])); r3.push_back(b.eval(s[i], u[i], 1. - s[i] - u[i])); }
    e.raw("r", Ev::pts(r)); e.raw("r3", Ev::pts(r3));
    post(e);
}
CMD("b_mesh") { Mesh& m = M(in.t("m")); auto& b = B(in.t("f")); e.i("v0", m.nb_vertices()); b.add_to_mesh(m, in.i("n")); post(e, true); }

CMD("sm_new") { smooths[in.t("m")].reset(new SmoothMesh); post(e); }
CMD("sm_clear") { SM(in.t("m")).clear(); post(e); }
CMD("sm_add") { auto& s = SM(in.t("m")); s.add_triangle(B(in.t("f"))); post(e); }
CMD("sm_flat_triangle") { auto& s = SM(in.t("m")); auto v = in.ps("ps"); s.add_flat_triangle(v[0], v[1], v[2]); post(e); }
CMD("sm_flat_quad") { auto& s = SM(in.t("m")); auto v = in.ps("ps"); s.add_flat_quad(v[0], v[1], v[2], v[3]); post(e); }
CMD("sm_flat_pentagon") { auto& s = SM(in.t("m")); auto v = in.ps("ps"); s.add_flat_pentagon(v[0], v[1], v[2], v[3], v[4]); post(e); }
CMD("sm_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<SmoothMesh> q(new SmoothMesh(SM(f))); smooths[n] = std::move(q); post(e); }
CMD("sm_assign") { std::string n = in.t("m"), f = in.t("f"); SM(f); SM(n) = SM(f); post(e); }
CMD("sm_append") { std::string n = in.t("m"), f = in.t("f"); SM(f); SM(n).add_mesh(SM(f)); post(e); }
CMD("sm_transform") { auto& s = SM(in.t("m")); auto t = read_transform(in, e); s.apply_transform(*t); post(e); }
CMD("sm_mesh") { Mesh& m = M(in.t("m")); auto& s = SM(in.t("f")); e.i("v0", m.nb_vertices()); s.add_to_mesh(m, in.i("n")); post(e, true); }
CMD("sm_twin") { std::string a = in.t("m"), b = in.t("f"); SM(a); SM(b); post(e); }
CMD("sm_factory") {
    auto& m = SM(in.t("m"));
    std::string k = in.t("k");
    auto a = in.ds("a");
    if (k == "tetrahedron") SmoothMeshFactory::create_tetrahedron(a[0], m);
    else if (k == "box") SmoothMeshFactory::create_box(a[0], a[1], a[2], m);
    else if (k == "octahedron") SmoothMeshFactory::create_octahedron(a[0], m);
    else if (k == "dodecahedron") SmoothMeshFactory::create_dodecahedron(a[0], m);
    else if (k == "icosahedron") SmoothMeshFactory::create_icosahedron(a[0], m);
    else if (k == "sphere") SmoothMeshFactory::create_sphere(a[0], m);
    else _Exit(70);
    post(e);
}
CMD("g_bernstein") {
    double u = in.d("u");
    using namespace BezierUtil;
    e.d("sq", square(u)); e.d("cu", cubic(u));
    e.raw("b1", Ev::ds({Bernstein01(u), Bernstein11(u)}));
    e.raw("b2", Ev::ds({Bernstein02(u), Bernstein12(u), Bernstein22(u)}));
    e.raw("b3", Ev::ds({Bernstein03(u), Bernstein13(u), Bernstein23(u), Bernstein33(u)}));
}

// ---- cubic patches: the control points are protected members
struct Cubic : CubicBezierTriangles {
    std::string state() const {
        return "{\"p\":" + Ev::pts({_P1, _P2, _P3}) + ",\"c\":" + Ev::pts({_controlP1P2, _controlP2P1, _controlP1P3, _controlP3P1, _controlP2P3, _controlP3P2}) + ",\"m\":" + Ev::pt(_controlCenter) + "}";
    }
};
static std::map<std::string, std::unique_ptr<Cubic>> cubics;
static Cubic& Q(const std::string& n) { auto& p = cubics[n]; if (!p) p.reset(new Cubic); return *p; }
static void qpost(Ev& e, Cubic& q) { e.raw("st", q.state()); post(e); }
CMD("q_new") { auto& q = cubics[in.t("m")]; q.reset(new Cubic); qpost(e, *q); }
CMD("q_points") { auto& q = Q(in.t("m")); auto v = in.ps("ps"); q.set_points(v[0], v[1], v[2]); qpost(e, q); }
CMD("q_control") { auto& q = Q(in.t("m")); auto v = in.ps("ps"); q.set_control_points(v[0], v[1], v[2], v[3], v[4], v[5]); qpost(e, q); }
CMD("q_center") { auto& q = Q(in.t("m")); q.set_control_center(in.p("p")); qpost(e, q); }
CMD("q_normals") { auto& q = Q(in.t("m")); auto v = in.ps("ps"); q.set_normals(v[0], v[1], v[2]); qpost(e, q); }
