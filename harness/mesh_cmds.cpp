#include "harness.h"
#include "Face.h"
#include "MeshBoolean.h"
#include "MeshFactory.h"
#include "MeshKernelLinkedTriangles.h"
#include "MeshKernelTIN.h"
#include "MeshMeasurements.h"
#include "MeshTessellate.h"
#include "MeshUtil.h"
#include "Solid.h"
#include "Transform.h"

std::map<std::string, std::unique_ptr<Mesh>> meshes;
static std::map<std::string, std::unique_ptr<MeshKernel>> kernels;
static std::map<std::string, std::unique_ptr<Face>> faces;
static std::map<std::string, std::unique_ptr<Solid>> solids;

Mesh& M(const std::string& n) {
    auto& p = meshes[n];
    if (!p) p.reset(new Mesh);
    return *p;
}

// projected state of a mesh: colour, emptiness flag, vertices, triangles (removed: [])
std::string mesh_state(const Mesh& m) {
    std::string r = "{\"c\":" + Ev::integer(m.get_color()) + ",\"e\":" + (m.empty() ? "true" : "false") + ",\"v\":[";
    for (int i = 0; i < m.nb_vertices(); i++) {
        Point3 p;
        m.get_vertex(i, p);
        if (i) r += ",";
        r += Ev::pt(p);
    }
    r += "],\"t\":[";
    for (int i = 0; i < m.nb_triangles(); i++) {
        if (i) r += ",";
        if (m.is_triangle_unlinked(i)) { r += "[]"; continue; }
        int a, b, c;
        m.get_triangle_vertices(i, a, b, c);
        r += Ev::is({a, b, c});
    }
    return r + "]}";
}

static std::string kernel_state(MeshKernel& m) {
    std::string r = "{\"v\":[";
    for (int i = 0; i < m.nb_vertices(); i++) {
        Point3 p;
        m.get_vertex(i, p);
        if (i) r += ",";
        r += Ev::pt(p);
    }
    r += "],\"t\":[";
    for (int i = 0; i < m.nb_triangles(); i++) {
        if (i) r += ",";
        if (m.is_triangle_unlinked(i)) { r += "[]"; continue; }
        int a, b, c;
        m.get_triangle_vertices(i, a, b, c);
        r += Ev::is({a, b, c});
    }
    return r + "]}";
}

// every container of meshes of the script, by name
std::string all_meshes() {
    std::string r = "{";
    bool first = true;
    auto add = [&](const std::string& n, const std::string& v) {
        if (!first) r += ",";
        first = false;
        r += Ev::str(n) + ":" + v;
    };
    for (auto& k : meshes) add(k.first, mesh_state(*k.second));
    for (auto& k : faces) add(k.first, mesh_state(k.second->mesh()));
    for (auto& k : solids) add(k.first, mesh_state(k.second->mesh()));
    return r + "}";
}
// The triangle a script names: i (a slot), i=a.b.c (slot i if that triangle lives there, otherwise the live slot that
// has it) or !i (slot i if removed, otherwise some removed slot): slots are not numbered by the scripts but by the
// library, which may add the triangles of one call in any order.  live: a slot that is not removed.
static int tri(In& in, Ev& e, const char* k, const Mesh& m, bool live) {
    std::string w = in.tok();
    const bool dead = w[0] == '!';
    const size_t q = w.find('=');
    const int n = m.nb_triangles();
    if (n == 0) throw Skip();
    int i = atoi(w.c_str() + dead), a = 0, b = 0, c = 0;
    if (q != std::string::npos && sscanf(w.c_str() + q + 1, "%d.%d.%d", &a, &b, &c) != 3) _Exit(70);
    i = (i % n + n) % n;
    for (int j = 0; j <= n; j++) {
        if (j) i = q == std::string::npos ? (i + 1) % n : j - 1;
        bool d = m.is_triangle_unlinked(i);
        if (dead ? !d : live || q != std::string::npos ? d : false) continue;
        if (q != std::string::npos) {
            int x, y, z;
            m.get_triangle_vertices(i, x, y, z);
            if (!((x == a && y == b && z == c) || (y == a && z == b && x == c) || (z == a && x == b && y == c))) continue;
        }
        e.i(k, i);
        return i;
    }
    throw Skip();
}
// a live triangle with the directed edge from a to b, not x; i if it is one
static int edge_tri(const Mesh& m, int i, int a, int b, int x) {
    auto has = [&](int j) {
        if (j < 0 || j >= m.nb_triangles() || j == x || m.is_triangle_unlinked(j)) return false;
        int p, q, r;
        m.get_triangle_vertices(j, p, q, r);
        return (p == a && q == b) || (q == a && r == b) || (r == a && p == b);
    };
    if (has(i)) return i;
    for (int j = 0; j < m.nb_triangles(); j++) if (has(j)) return j;
    throw Skip();
}
static void post(Ev& e) { e.raw("ms", all_meshes()); }

CMD("m_add_vertex") { Mesh& m = M(in.t("m")); Point3 p = in.p("p"); e.i("ret", m.add_vertex(p)); post(e); }
CMD("m_add_vertex3") { Mesh& m = M(in.t("m")); Point3 p = in.p("p"); e.i("ret", m.add_vertex(p._x, p._y, p._z)); post(e); }
CMD("m_set_vertex") { Mesh& m = M(in.t("m")); int i = in.i("i"); Point3 p = in.p("p"); m.set_vertex(i, p); post(e); }
CMD("m_add_triangle") { Mesh& m = M(in.t("m")); int a = in.i("a"), b = in.i("b"), c = in.i("c"); e.i("ret", m.add_triangle(a, b, c)); post(e); }
CMD("m_add_triangle_p") { Mesh& m = M(in.t("m")); Point3 a = in.p("a"), b = in.p("b"), c = in.p("c"); e.i("ret", m.add_triangle(a, b, c)); post(e); }
CMD("m_unlink") { Mesh& m = M(in.t("m")); int t = tri(in, e, "t", m, false); m.unlink_triangle(t); post(e); }
CMD("m_split_v") { Mesh& m = M(in.t("m")); int t = tri(in, e, "t", m, true), v = in.i("v"); m.split_triangle_with_vertex(t, v); post(e); }
CMD("m_split_p") { Mesh& m = M(in.t("m")); int t = tri(in, e, "t", m, true); Point3 p = in.p("p"); m.split_triangle_with_vertex(t, p); post(e); }
CMD("m_split_edge") {
    Mesh& m = M(in.t("m"));
    int t = in.ri(), u = in.ri(), a = in.i("v1"), b = in.i("v2"), v = in.i("vs");
    t = edge_tri(m, t, a, b, -1); u = edge_tri(m, u, b, a, t);
    e.i("t1", t); e.i("t2", u);
    m.split_edge_with_vertex(t, u, a, b, v); post(e); }
CMD("m_split_tri") { Mesh& m = M(in.t("m")); int t = tri(in, e, "t", m, false); Point3 a = in.p("a"), b = in.p("b"), c = in.p("c"); m.split_triangle(t, Triangle3(a, b, c)); post(e); }
CMD("m_flip") { Mesh& m = M(in.t("m")); int t = tri(in, e, "t", m, true); m.flip_triangle(t); post(e); }
CMD("m_add_quad") { Mesh& m = M(in.t("m")); auto v = in.iv("q"); m.add_quad(v[0], v[1], v[2], v[3]); post(e); }
CMD("m_add_quad_p") { Mesh& m = M(in.t("m")); auto v = in.ps("q"); int opt = in.i("opt"); if (opt == 2) m.add_quad(v[0], v[1], v[2], v[3]); else m.add_quad(v[0], v[1], v[2], v[3], opt != 0); post(e); }
CMD("m_add_pentagon") { Mesh& m = M(in.t("m")); auto v = in.iv("q"); m.add_pentagon(v[0], v[1], v[2], v[3], v[4]); post(e); }
CMD("m_clear") { Mesh& m = M(in.t("m")); m.clear(); post(e); }
CMD("m_color") { Mesh& m = M(in.t("m")); m.set_color(in.i("c")); post(e); }
CMD("m_new") { std::string n = in.t("m"); meshes[n].reset(new Mesh); post(e); }
CMD("m_del") { std::string n = in.t("m"); meshes.erase(n); post(e); }
CMD("m_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<Mesh> q(new Mesh(M(f))); meshes[n] = std::move(q); post(e); }
CMD("m_assign") { std::string n = in.t("m"), f = in.t("f"); M(f); Mesh& r = (M(n) = M(f)); e.b("self", &r == &M(n)); post(e); }
CMD("m_append") { std::string n = in.t("m"), f = in.t("f"); M(f); M(n).add_mesh(M(f)); post(e); }
// a mesh built directly (not an edit under test)
static void load_mesh(Mesh& m, In& in) {
    m.clear();
    m.set_color(in.ri());
    auto v = in.rps();
    for (auto& p : v) m.add_vertex(p);
    int n = in.ri();
    for (int i = 0; i < n; i++) {
        int a = in.ri(), b = in.ri(), c = in.ri(), dead = in.ri();
        int t = m.add_triangle(a, b, c);
        if (dead) m.unlink_triangle(t);
    }
}
CMD("m_load") { std::string n = in.t("m"); meshes[n].reset(new Mesh); load_mesh(M(n), in); post(e); }
// the same mesh, but one that never had the removed triangles (fixture: the specification checks what it is)
CMD("m_strip") {
    std::string n = in.t("m"), f = in.t("f");
    std::unique_ptr<Mesh> q(new Mesh);
    const Mesh& s = M(f);
    q->set_color(s.get_color());
    for (int i = 0; i < s.nb_vertices(); i++) { Point3 p; s.get_vertex(i, p); q->add_vertex(p); }
    for (int i = 0; i < s.nb_triangles(); i++)
        if (!s.is_triangle_unlinked(i)) { int a, b, c; s.get_triangle_vertices(i, a, b, c); q->add_triangle(a, b, c); }
    meshes[n] = std::move(q);
    post(e);
}
// all the read accessors of one triangle and of the mesh
CMD("m_get") {
    Mesh& m = M(in.t("m"));
    e.i("nv", m.nb_vertices()); e.i("nt", m.nb_triangles()); e.b("e", m.empty()); e.i("c", m.get_color());
    int t = in.ri();
    if (t >= m.nb_triangles()) t = m.nb_triangles() - 1;
    e.i("t", t);
    if (t >= 0) {
        int a, b, c; Point3 p, q, r; Triangle3 tr;
        bool dead = m.is_triangle_unlinked(t);
        e.b("dead", dead);
        if (!dead) {
            m.get_triangle_vertices(t, a, b, c); e.raw("vi", Ev::is({a, b, c}));
            m.get_triangle_vertices(t, p, q, r); e.raw("vp", Ev::pts({p, q, r}));
            m.get_triangle(t, tr); e.raw("tp", Ev::pts({tr.p1(), tr.p2(), tr.p3()}));
        }
    }
    post(e);
}

// ---- kernels
static MeshKernel& K(const std::string& n) {
    auto& p = kernels[n];
    if (!p) {
        if (n[0] == 'T') p.reset(new MeshKernelTIN);
        else p.reset(new MeshKernelLinkedTriangles);
    }
    return *p;
}
static void kpost(Ev& e, MeshKernel& k) { e.raw("ks", kernel_state(k)); }
CMD("k_add_vertex") { MeshKernel& k = K(in.t("k")); e.i("ret", k.add_vertex(in.p("p"))); kpost(e, k); }
CMD("k_set_vertex") { MeshKernel& k = K(in.t("k")); int i = in.i("i"); k.set_vertex(i, in.p("p")); kpost(e, k); }
CMD("k_add_triangle") { MeshKernel& k = K(in.t("k")); int a = in.i("a"), b = in.i("b"), c = in.i("c"); e.i("ret", k.add_triangle(a, b, c)); kpost(e, k); }
CMD("k_unlink") { MeshKernel& k = K(in.t("k")); k.unlink_triangle(in.i("t")); kpost(e, k); }
CMD("k_clear") { MeshKernel& k = K(in.t("k")); k.clear(); kpost(e, k); }

// ---- faces and solids (named f*/s*), both hold a mesh
CMD("f_new") { faces[in.t("m")].reset(new Face()); post(e); }
CMD("f_from_mesh") { std::string n = in.t("m"); faces[n].reset(new Face(M(in.t("f")))); post(e); }
CMD("f_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<Face> q(new Face(*faces.at(f))); faces[n] = std::move(q); post(e); }
CMD("f_assign") { std::string n = in.t("m"), f = in.t("f"); Face& r = (*faces.at(n) = *faces.at(f)); e.b("self", &r == faces.at(n).get()); post(e); }
CMD("f_add_vertex") { Mesh& m = faces.at(in.t("m"))->mesh(); e.i("ret", m.add_vertex(in.p("p"))); post(e); }
CMD("f_add_triangle_p") { Mesh& m = faces.at(in.t("m"))->mesh(); Point3 a = in.p("a"), b = in.p("b"), c = in.p("c"); e.i("ret", m.add_triangle(a, b, c)); post(e); }
CMD("f_unlink") { Mesh& m = faces.at(in.t("m"))->mesh(); m.unlink_triangle(tri(in, e, "t", m, false)); post(e); }
CMD("f_color") { faces.at(in.t("m"))->mesh().set_color(in.i("c")); post(e); }
CMD("s_new") { solids[in.t("m")].reset(new Solid()); post(e); }
CMD("s_from_mesh") { std::string n = in.t("m"); solids[n].reset(new Solid(M(in.t("f")))); post(e); }
CMD("s_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<Solid> q(new Solid(*solids.at(f))); solids[n] = std::move(q); post(e); }
CMD("s_assign") { std::string n = in.t("m"), f = in.t("f"); Solid& r = (*solids.at(n) = *solids.at(f)); e.b("self", &r == solids.at(n).get()); post(e); }
CMD("s_add_face") { std::string n = in.t("m"); solids.at(n)->add_face(*faces.at(in.t("f"))); post(e); }
CMD("s_add_vertex") { Mesh& m = solids.at(in.t("m"))->mesh(); e.i("ret", m.add_vertex(in.p("p"))); post(e); }
CMD("s_add_triangle_p") { Mesh& m = solids.at(in.t("m"))->mesh(); Point3 a = in.p("a"), b = in.p("b"), c = in.p("c"); e.i("ret", m.add_triangle(a, b, c)); post(e); }
CMD("s_unlink") { Mesh& m = solids.at(in.t("m"))->mesh(); m.unlink_triangle(tri(in, e, "t", m, false)); post(e); }
CMD("s_color") { solids.at(in.t("m"))->mesh().set_color(in.i("c")); post(e); }

// ---- mesh operations
CMD("m_merge") { Mesh& m = M(in.t("m")); double tol = in.d("tol"); MeshUtil::merge_vertices(m, tol); post(e); }
CMD("m_merge_default") { Mesh& m = M(in.t("m")); e.d("tol", 1e-6); MeshUtil::merge_vertices(m); post(e); }
CMD("m_remove_empty") { Mesh& m = M(in.t("m")); double tol = in.d("tol"); MeshUtil::remove_empty_triangles(m, tol); post(e); }
CMD("m_remove_empty_default") { Mesh& m = M(in.t("m")); e.d("tol", 1e-6); MeshUtil::remove_empty_triangles(m); post(e); }
CMD("m_tessellate") { std::string n = in.t("m"), f = in.t("f"); int k = in.i("n"); M(f); M(n); MeshTessellate mt; mt.compute(M(f), k, M(n)); post(e); }
CMD("m_from_z") { Mesh& m = M(in.t("m")); int w = in.i("w"), h = in.i("h"); auto z = in.ds("z"); MeshUtil::create_from_z(z, w, h, m); post(e); }
CMD("m_from_grid") { Mesh& m = M(in.t("m")); int w = in.i("w"), h = in.i("h"); auto z = in.ps("g"); MeshUtil::create_from_grid(z, w, h, m); post(e); }
CMD("m_measure") {
    Mesh& m = M(in.t("m"));
    e.d("vol", MeshMeasurements::volume(m));
    e.d("surf", MeshMeasurements::surface(m));
    e.b("nodeg", MeshMeasurements::has_no_degenerated_triangles(m));
    e.b("closed", MeshMeasurements::is_closed(m));
    e.b("out", MeshMeasurements::is_oriented_outside(m));
    e.b("clean", MeshMeasurements::is_clean(m));
    post(e);
}
// two meshes that must not be distinguishable (one of them once had more triangles)
CMD("m_twin") {
    std::string n[2]; n[0] = in.t("m"); n[1] = in.t("f");
    for (int k = 0; k < 2; k++) {
        Mesh& m = M(n[k]);
        std::string x = std::to_string(k);
        e.d(("vol" + x).c_str(), MeshMeasurements::volume(m));
        e.d(("surf" + x).c_str(), MeshMeasurements::surface(m));
        e.b(("nodeg" + x).c_str(), MeshMeasurements::has_no_degenerated_triangles(m));
        e.b(("closed" + x).c_str(), MeshMeasurements::is_closed(m));
    }
    post(e);
}
CMD("m_factory") {
    Mesh& m = M(in.t("m"));
    std::string k = in.t("k");
    auto a = in.ds("a");
    int n = in.i("n");
    if (k == "tetrahedron") MeshFactory::create_tetrahedron(a[0], m);
    else if (k == "box") MeshFactory::create_box(a[0], a[1], a[2], m);
    else if (k == "octahedron") MeshFactory::create_octahedron(a[0], m);
    else if (k == "dodecahedron") MeshFactory::create_dodecahedron(a[0], m);
    else if (k == "icosahedron") MeshFactory::create_icosahedron(a[0], m);
    else if (k == "cylinder") MeshFactory::create_cylinder(a[0], a[1], n, m);
    else if (k == "sphere_geodesic") MeshFactory::create_sphere_geodesic(a[0], n, m);
    else if (k == "sphere_uv") MeshFactory::create_sphere_uv(a[0], n, m);
    else if (k == "torus") MeshFactory::create_torus(a[0], a[1], n, m);
    else _Exit(70);
    post(e);
}
CMD("m_boolean") {
    std::string a = in.t("a"), b = in.t("b");
    M(a); M(b); M("Aonly"); M("Bonly"); M("AinB"); M("BinA");
    MeshBoolean mb;
    mb.split_meshes(M(a), M(b), M("Aonly"), M("Bonly"), M("AinB"), M("BinA"));
    post(e);
}

// ---- transforms: kind followed by parameters
std::shared_ptr<Transform> read_transform(In& in, Ev& e) {
    std::string k = in.t("k");
    auto a = in.ds("a");
    if (k == "translation") return std::shared_ptr<Transform>(new Translation(Point3(a[0], a[1], a[2])));
    if (k == "scale") return std::shared_ptr<Transform>(new Scale(a[0], a[1], a[2]));
    if (k == "scale_default") return std::shared_ptr<Transform>(new Scale());
    if (k == "euler") return std::shared_ptr<Transform>(new RotationEulerAngles(a[0], a[1], a[2]));
    if (k == "euler_set") { auto* r = new RotationEulerAngles(31, 47, 11); r->set_angles(a[0], a[1], a[2]); return std::shared_ptr<Transform>(r); }
    if (k == "quat") { double q[4] = {a[0], a[1], a[2], a[3]}; return std::shared_ptr<Transform>(new RotationQuaternion(q)); }
    if (k == "quat_set") { double q[4] = {a[0], a[1], a[2], a[3]}; auto* r = new RotationQuaternion; r->set_quaternion(q); return std::shared_ptr<Transform>(r); }
    if (k == "quat_default") return std::shared_ptr<Transform>(new RotationQuaternion);
    if (k == "quat_aa") { auto* r = new RotationQuaternion; r->from_angle_axis(a[0], Point3(a[1], a[2], a[3])); return std::shared_ptr<Transform>(r); }
    if (k == "mat") { double q[9]; for (int i = 0; i < 9; i++) q[i] = a[i]; return std::shared_ptr<Transform>(new RotationMatrix(q)); }
    if (k == "mat_set") { double q[9]; for (int i = 0; i < 9; i++) q[i] = a[i]; auto* r = new RotationMatrix; r->set_matrix(q); return std::shared_ptr<Transform>(r); }
    if (k == "mat_default") return std::shared_ptr<Transform>(new RotationMatrix);
    if (k == "mat_aa") { auto* r = new RotationMatrix; r->from_angle_axis(a[0], Point3(a[1], a[2], a[3])); return std::shared_ptr<Transform>(r); }
    if (k == "aa") return std::shared_ptr<Transform>(new RotationAngleAxis(a[0], Point3(a[1], a[2], a[3])));
    if (k == "aa_set") { auto* r = new RotationAngleAxis; r->set_angle_axis(a[0], Point3(a[1], a[2], a[3])); return std::shared_ptr<Transform>(r); }
    if (k == "aa_from") { auto* r = new RotationAngleAxis; r->from_angle_axis(a[0], Point3(a[1], a[2], a[3])); return std::shared_ptr<Transform>(r); }
    if (k == "aa_default") return std::shared_ptr<Transform>(new RotationAngleAxis);
    _Exit(70);
}
CMD("m_transform") { Mesh& m = M(in.t("m")); auto t = read_transform(in, e); m.apply_transform(*t); post(e); }
CMD("x_apply") { auto t = read_transform(in, e); Point3 p = in.p("p"); t->apply(p); e.p("r", p); }
CMD("x_apply_all") { auto t = read_transform(in, e); auto v = in.ps("ps"); t->apply_all(v); e.raw("r", Ev::pts(v)); }
CMD("x_matrix") { auto t = read_transform(in, e); RotationMatrix* r = dynamic_cast<RotationMatrix*>(t.get()); double m[9]; r->get_matrix(m); e.raw("r", Ev::ds(std::vector<double>(m, m + 9))); }

// ---- transform objects, set again and again
static std::map<std::string, std::shared_ptr<Transform>> tforms;
CMD("t_new") { std::string n = in.t("m"); tforms[n] = read_transform(in, e); }
CMD("t_set") {
    Transform* t = tforms.at(in.t("m")).get();
    std::string k = in.t("k");
    auto a = in.ds("a");
    if (k == "euler_set") dynamic_cast<RotationEulerAngles*>(t)->set_angles(a[0], a[1], a[2]);
    else if (k == "quat_set") dynamic_cast<RotationQuaternion*>(t)->set_quaternion(a.data());
    else if (k == "quat_aa") dynamic_cast<RotationQuaternion*>(t)->from_angle_axis(a[0], Point3(a[1], a[2], a[3]));
    else if (k == "mat_set") dynamic_cast<RotationMatrix*>(t)->set_matrix(a.data());
    else if (k == "mat_aa") dynamic_cast<RotationMatrix*>(t)->from_angle_axis(a[0], Point3(a[1], a[2], a[3]));
    else if (k == "aa_set") dynamic_cast<RotationAngleAxis*>(t)->set_angle_axis(a[0], Point3(a[1], a[2], a[3]));
    else if (k == "aa_from") dynamic_cast<RotationAngleAxis*>(t)->from_angle_axis(a[0], Point3(a[1], a[2], a[3]));
    else _Exit(70);
}
CMD("t_copy") {
    std::string n = in.t("m"), f = in.t("f");
    Transform* t = tforms.at(f).get();
    std::shared_ptr<Transform> r;
    if (auto* x = dynamic_cast<RotationEulerAngles*>(t)) r.reset(new RotationEulerAngles(*x));
    else if (auto* x = dynamic_cast<RotationQuaternion*>(t)) r.reset(new RotationQuaternion(*x));
    else if (auto* x = dynamic_cast<RotationMatrix*>(t)) r.reset(new RotationMatrix(*x));
    else if (auto* x = dynamic_cast<RotationAngleAxis*>(t)) r.reset(new RotationAngleAxis(*x));
    else if (auto* x = dynamic_cast<Scale*>(t)) r.reset(new Scale(*x));
    else if (auto* x = dynamic_cast<Translation*>(t)) r.reset(new Translation(*x));
    else _Exit(70);
    tforms[n] = r;
}
CMD("t_apply") {
    Transform& t = *tforms.at(in.t("m"));
    auto v = in.ps("ps"), w = v;
    t.apply_all(v);
    for (auto& p : w) t.apply(p);
    e.raw("r", Ev::pts(v)); e.raw("one", Ev::pts(w));
}
