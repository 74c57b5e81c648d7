#include "harness.h"
#include "Renderer.h"

// the image buffer is a heap block of exactly the image's size: any access outside it is reported
struct Screen {
    int w, h;
    std::unique_ptr<int[]> px;
    std::unique_ptr<Renderer> r;
};
std::map<std::string, Screen> screens;
static Screen& S(const std::string& n) {
    auto i = screens.find(n);
    if (i == screens.end()) { fprintf(stderr, "harness: no renderer %s\n", n.c_str()); _Exit(70); }
    return i->second;
}
void post_render(Ev& e) {
    std::string r = "{";
    bool first = true;
    for (auto& k : screens) {
        if (!first) r += ",";
        first = false;
        Screen& s = k.second;
        r += Ev::str(k.first) + ":{\"w\":" + Ev::integer(s.w) + ",\"h\":" + Ev::integer(s.h) + ",\"d\":[";
        for (int i = 0; i < s.w * s.h; i++) { if (i) r += ","; r += Ev::integer(s.px[i]); }
        r += "]}";
    }
    e.raw("rs", r + "}");
}
#define post post_render

CMD("r_new") {
    std::string n = in.t("r");
    int w = in.i("w"), h = in.i("h");
    Screen s;
    s.w = w; s.h = h;
    s.px.reset(new int[w * h]);
    for (int i = 0; i < w * h; i++) s.px[i] = 0x123456 + i;
    s.r.reset(new Renderer(s.px.get(), w, h));
    screens.erase(n);
    screens.emplace(n, std::move(s));
    post(e);
}
CMD("r_clear") { S(in.t("r")).r->clear(); post(e); }
CMD("r_bg") { Screen& s = S(in.t("r")); s.r->set_background(in.i("c")); post(e); }
CMD("r_cam") {
    Screen& s = S(in.t("r"));
    Point3 o = in.p("o");
    double a = in.d("ahead"), y = in.d("yaw"), p = in.d("pitch"), r = in.d("roll"), z = in.d("zoom");
    s.r->set_camera(o.x(), o.y(), o.z(), a, y, p, r, z);
    post(e);
}
CMD("r_amb") { Screen& s = S(in.t("r")); int c = in.i("c"); s.r->add_ambient_light(c, in.d("f")); post(e); }
CMD("r_dif") { Screen& s = S(in.t("r")); int c = in.i("c"); double f = in.d("f"); s.r->add_diffuse_light(c, f, in.p("dir")); post(e); }
CMD("r_twin") { std::string a = in.t("r"), b = in.t("q"); S(a); S(b); post(e); }
CMD("r_mesh") {
    Screen& s = S(in.t("r"));
    std::string m = in.t("m");
    int edges = in.i("edges"), c = in.i("c");
    s.r->draw_mesh(M(m), edges != 0, c);
    e.raw("ms", all_meshes());
    post(e);
}
CMD("r_tri") {
    Screen& s = S(in.t("r"));
    Point3 a = in.p("A"), b = in.p("B"), c = in.p("C");
    int k = in.i("c"), two = in.i("two");
    bool ret = s.r->draw_triangle_1color(a, b, c, k, two != 0);
    e.b("ret", ret);
    post(e);
}
CMD("r_line") { Screen& s = S(in.t("r")); Point3 a = in.p("A"), b = in.p("B"); s.r->draw_line(a, b, in.i("c")); post(e); }
CMD("r_pixel") { Screen& s = S(in.t("r")); Point3 a = in.p("A"); s.r->draw_pixel(a, in.i("c")); post(e); }
CMD("r_poly") { Screen& s = S(in.t("r")); auto v = in.ps("v"); s.r->draw_polyline(v, in.i("c")); post(e); }
