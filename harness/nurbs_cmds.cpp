#include "harness.h"
#include "Image.h"
#include "NurbsCurve.h"
#include "NurbsExtrude.h"
#include "NurbsFactory.h"
#include "NurbsRevolve.h"
#include "NurbsRuled.h"
#include "NurbsSolid.h"
#include "NurbsSurface.h"
#include "NurbsUtil.h"
#include "Transform.h"

std::map<std::string, std::unique_ptr<NurbsCurve>> curves;
std::map<std::string, std::unique_ptr<NurbsSurface>> surfaces;
std::map<std::string, std::unique_ptr<NurbsSolid>> nsolids;
std::shared_ptr<Transform> read_transform(In& in, Ev& e);

template <class T> static T& obj(std::map<std::string, std::unique_ptr<T>>& t, const std::string& n) {
    auto& p = t[n];
    if (!p) p.reset(new T);
    return *p;
}
NurbsCurve& CV(const std::string& n) { return obj(curves, n); }
NurbsSurface& SF(const std::string& n) { return obj(surfaces, n); }
NurbsSolid& SO(const std::string& n) { return obj(nsolids, n); }

static std::string curve_state(const NurbsCurve& c) {
    return "{\"d\":" + Ev::integer(c.degree()) + ",\"n\":" + Ev::integer(c.nb_points()) + ",\"k\":" + Ev::ds(c.knots()) + ",\"w\":" + Ev::ds(c.weights()) + ",\"p\":" + Ev::pts(c.points()) + "}";
}
static std::string surface_state(const NurbsSurface& s) {
    return "{\"du\":" + Ev::integer(s.degree_u()) + ",\"dv\":" + Ev::integer(s.degree_v()) + ",\"nu\":" + Ev::integer(s.nb_points_u()) + ",\"nv\":" + Ev::integer(s.nb_points_v()) +
           ",\"cu\":" + (s.is_closed_u() ? "true" : "false") + ",\"cv\":" + (s.is_closed_v() ? "true" : "false") +
           ",\"ku\":" + Ev::ds(s.knots_u()) + ",\"kv\":" + Ev::ds(s.knots_v()) + ",\"w\":" + Ev::ds(s.weights()) + ",\"p\":" + Ev::pts(s.points()) + "}";
}
static std::string solid_state(const NurbsSolid& s) {
    std::string r = "[";
    for (size_t i = 0; i < s.surfaces().size(); i++) { if (i) r += ","; r += surface_state(s.surfaces()[i]); }
    return r + "]";
}
template <class T, class F> static std::string table(const T& t, F f) {
    std::string r = "{";
    bool first = true;
    for (auto& k : t) { if (!first) r += ","; first = false; r += Ev::str(k.first) + ":" + f(*k.second); }
    return r + "}";
}
void post_nurbs(Ev& e) {
    e.raw("cs", table(curves, curve_state));
    e.raw("ns", table(surfaces, surface_state));
    e.raw("os", table(nsolids, solid_state));
}
#define post post_nurbs

// ---- curves
CMD("c_new") { curves[in.t("m")].reset(new NurbsCurve); post(e); }
CMD("c_clear") { CV(in.t("m")).clear(); post(e); }
CMD("c_degree") { NurbsCurve& c = CV(in.t("m")); c.set_degree(in.i("d")); post(e); }
CMD("c_knots") { NurbsCurve& c = CV(in.t("m")); c.set_knots(in.ds("a")); post(e); }
CMD("c_uniform") { CV(in.t("m")).set_uniform(); post(e); }
CMD("c_weights") { NurbsCurve& c = CV(in.t("m")); c.set_weights(in.ds("a")); post(e); }
CMD("c_equal") { CV(in.t("m")).set_equals_weights(); post(e); }
CMD("c_points") { NurbsCurve& c = CV(in.t("m")); c.set_points(in.ps("a")); post(e); }
CMD("c_move") { NurbsCurve& c = CV(in.t("m")); int i = in.i("i"); Point3 p = in.p("p"); c.points().at(i) = p; post(e); }
CMD("c_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<NurbsCurve> q(new NurbsCurve(CV(f))); curves[n] = std::move(q); post(e); }
CMD("c_assign") { std::string n = in.t("m"), f = in.t("f"); CV(f); CV(n) = CV(f); post(e); }
CMD("c_insert") { NurbsCurve& c = CV(in.t("m")); c.insert_knot(in.d("u")); post(e); }
CMD("c_elevate") { NurbsCurve& c = CV(in.t("m")); e.b("ret", c.degree_elevation()); post(e); }
CMD("c_eval") {
    NurbsCurve& c = CV(in.t("m"));
    auto u = in.ds("u");
    std::vector<Point3> r;
    for (double x : u) { Point3 p(7, 7, 7); c.evaluate(x, p); r.push_back(p); }
    e.raw("r", Ev::pts(r));
    post(e);
}
CMD("c_poly") {
    NurbsCurve& c = CV(in.t("m"));
    std::vector<Point3> v(in.i("junk"), Point3(5, 5, 5));
    c.to_polyline(v);
    e.raw("r", Ev::pts(v));
    post(e);
}
CMD("c_closed") { NurbsCurve& c = CV(in.t("m")); double t = in.d("tol"); e.b("ret", c.is_closed(t)); post(e); }
CMD("c_closed_default") { NurbsCurve& c = CV(in.t("m")); e.d("tol", 1.e-6); e.b("ret", c.is_closed()); post(e); }
CMD("g_span") {
    auto k = in.ds("k"), t = in.ds("t");
    std::vector<int> r;
    for (double x : t) r.push_back(NurbsCurve::find_knot_span(k, x));
    e.raw("r", Ev::is(r));
}
CMD("c_circle") { NurbsCurve& c = CV(in.t("m")); NurbsFactory::create_circle(in.d("r"), c); post(e); }
CMD("c_from_points") { NurbsCurve& c = CV(in.t("m")); auto p = in.ps("a"); int d = in.i("d"); NurbsFactory::create_curve_from_points(p, d, c); post(e); }

// ---- surfaces
CMD("n_new") { surfaces[in.t("m")].reset(new NurbsSurface); post(e); }
CMD("n_clear") { SF(in.t("m")).clear(); post(e); }
CMD("n_degree") { NurbsSurface& s = SF(in.t("m")); int a = in.i("du"), b = in.i("dv"); s.set_degree(a, b); post(e); }
CMD("n_knots_u") { NurbsSurface& s = SF(in.t("m")); s.set_knots_u(in.ds("a")); post(e); }
CMD("n_knots_v") { NurbsSurface& s = SF(in.t("m")); s.set_knots_v(in.ds("a")); post(e); }
CMD("n_uniform_u") { SF(in.t("m")).set_uniform_u(); post(e); }
CMD("n_uniform_v") { SF(in.t("m")).set_uniform_v(); post(e); }
CMD("n_weights") { NurbsSurface& s = SF(in.t("m")); s.set_weights(in.ds("a")); post(e); }
CMD("n_equal") { SF(in.t("m")).set_equals_weights(); post(e); }
CMD("n_points") { NurbsSurface& s = SF(in.t("m")); auto p = in.ps("a"); int a = in.i("nu"), b = in.i("nv"); s.set_points(p, a, b); post(e); }
CMD("n_move") { NurbsSurface& s = SF(in.t("m")); int i = in.i("i"); Point3 p = in.p("p"); s.points().at(i) = p; post(e); }
CMD("n_weight") { NurbsSurface& s = SF(in.t("m")); int i = in.i("i"); double w = in.d("w"); s.weights().at(i) = w; post(e); }
CMD("n_closed_u") { NurbsSurface& s = SF(in.t("m")); s.set_closed_u(in.i("b") != 0); post(e); }
CMD("n_closed_v") { NurbsSurface& s = SF(in.t("m")); s.set_closed_v(in.i("b") != 0); post(e); }
CMD("n_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<NurbsSurface> q(new NurbsSurface(SF(f))); surfaces[n] = std::move(q); post(e); }
CMD("n_assign") { std::string n = in.t("m"), f = in.t("f"); SF(f); SF(n) = SF(f); post(e); }
CMD("n_insert_u") { NurbsSurface& s = SF(in.t("m")); s.insert_knot_u(in.d("u")); post(e); }
CMD("n_insert_v") { NurbsSurface& s = SF(in.t("m")); s.insert_knot_v(in.d("u")); post(e); }
CMD("n_elevate_u") { NurbsSurface& s = SF(in.t("m")); e.b("ret", s.degree_elevation_u()); post(e); }
CMD("n_elevate_v") { NurbsSurface& s = SF(in.t("m")); e.b("ret", s.degree_elevation_v()); post(e); }
CMD("n_transform") { NurbsSurface& s = SF(in.t("m")); auto t = read_transform(in, e); s.apply_transform(*t); post(e); }
CMD("n_eval") {
    NurbsSurface& s = SF(in.t("m"));
    auto u = in.ds("u"), v = in.ds("v");
    std::vector<Point3> r;
    for (size_t i = 0; i < u.size(); i++) { Point3 p(7, 7, 7); s.evaluate(u[i], v[i], p); r.push_back(p); }
    e.raw("r", Ev::pts(r));
    post(e);
}
CMD("n_extrude") { NurbsSurface& s = SF(in.t("m")); NurbsCurve& c = CV(in.t("f")); Point3 d = in.p("dir"); NurbsExtrude x; e.b("ret", x.extrude(c, d, s)); post(e); }
CMD("n_ruled") { NurbsSurface& s = SF(in.t("m")); std::string a = in.t("f"), b = in.t("g"); CV(a); CV(b); NurbsRuled x; e.b("ret", x.create_ruled(CV(a), CV(b), s)); post(e); }
CMD("n_revolve") { NurbsSurface& s = SF(in.t("m")); NurbsCurve& c = CV(in.t("f")); NurbsRevolve x; e.b("ret", x.revolve(c, s)); post(e); }
CMD("n_factory") {
    NurbsSurface& s = SF(in.t("m"));
    std::string k = in.t("k");
    auto a = in.ds("a");
    auto P = [&](int i) { return Point3(a[3 * i], a[3 * i + 1], a[3 * i + 2]); };
    if (k == "triangle") NurbsFactory::create_triangle(P(0), P(1), P(2), s);
    else if (k == "quad") NurbsFactory::create_quad(P(0), P(1), P(2), P(3), s);
    else if (k == "disk") NurbsFactory::create_disk(a[0], s);
    else if (k == "sphere") NurbsFactory::create_sphere(a[0], s);
    else if (k == "torus") NurbsFactory::create_torus(a[0], a[1], s);
    else _Exit(70);
    post(e);
}
CMD("n_from_z") { NurbsSurface& s = SF(in.t("m")); int w = in.i("w"), h = in.i("h"), d = in.i("d"); NurbsUtil::create_from_z(in.ds("z"), w, h, d, s); post(e); }

// ---- surface solids
CMD("o_new") { nsolids[in.t("m")].reset(new NurbsSolid); post(e); }
CMD("o_clear") { SO(in.t("m")).clear(); post(e); }
CMD("o_add") { NurbsSolid& o = SO(in.t("m")); o.add_surface(SF(in.t("f"))); post(e); }
CMD("o_move") { NurbsSolid& o = SO(in.t("m")); int s = in.i("s"), i = in.i("i"); Point3 p = in.p("p"); o.surfaces().at(s).points().at(i) = p; post(e); }
CMD("o_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<NurbsSolid> q(new NurbsSolid(SO(f))); nsolids[n] = std::move(q); post(e); }
CMD("o_assign") { std::string n = in.t("m"), f = in.t("f"); SO(f); SO(n) = SO(f); post(e); }
CMD("o_transform") { NurbsSolid& o = SO(in.t("m")); auto t = read_transform(in, e); o.apply_transform(*t); post(e); }
static void make_solid(const std::string& k, const std::vector<double>& a, NurbsSolid& o) {
    if (k == "box") NurbsFactory::create_box(a[0], a[1], a[2], o);
    else if (k == "cylinder") NurbsFactory::create_cylinder(a[0], a[1], o);
    else if (k == "sphere") NurbsFactory::create_sphere(a[0], o);
    else if (k == "torus") NurbsFactory::create_torus(a[0], a[1], o);
    else _Exit(70);
}
CMD("o_factory") {
    NurbsSolid& o = SO(in.t("m"));
    std::string k = in.t("k");
    auto a = in.ds("a");
    make_solid(k, a, o);
    post(e);
}
// two objects that were filled by the same operation
CMD("c_twin") { std::string a = in.t("m"), b = in.t("f"); CV(a); CV(b); post(e); }
CMD("n_twin") { std::string a = in.t("m"), b = in.t("f"); SF(a); SF(b); post(e); }
CMD("o_twin") { std::string a = in.t("m"), b = in.t("f"); SO(a); SO(b); post(e); }
// ---- between meshes and surfaces: both tables are logged
static void post_both(Ev& e) { post_nurbs(e); e.raw("ms", all_meshes()); }
CMD("o_from_mesh") { NurbsSolid& o = SO(in.t("m")); Mesh& m = M(in.t("f")); NurbsUtil::create_from_mesh(m, o); post_both(e); }
CMD("n_mesh") {
    Mesh& m = M(in.t("m"));
    NurbsSurface& s = SF(in.t("f"));
    int n = in.i("n"), c = in.i("clear");
    if (c == 3) NurbsUtil::to_mesh(s, m);              // all defaults: n must be given as 5
    else if (c == 2) NurbsUtil::to_mesh(s, m, n);
    else NurbsUtil::to_mesh(s, m, n, c != 0);
    post_both(e);
}
CMD("o_mesh") {
    Mesh& m = M(in.t("m"));
    NurbsSolid& s = SO(in.t("f"));
    int n = in.i("n"), c = in.i("clear");
    if (c == 3) NurbsUtil::to_mesh(s, m);
    else NurbsUtil::to_mesh(s, m, n);
    post_both(e);
}
CMD("o_shape") {                 // a factory solid and its mesh
    std::string n = in.t("m"), f = in.t("f"), k = in.t("k");
    NurbsSolid& o = SO(f);
    auto a = in.ds("a");
    int g = in.i("n");
    make_solid(k, a, o);
    NurbsUtil::to_mesh(o, M(n), g);
    post_both(e);
}
CMD("n_ctrl") { Mesh& m = M(in.t("m")); NurbsSurface& s = SF(in.t("f")); NurbsUtil::to_controlpoints_mesh(s, m); post_both(e); }
