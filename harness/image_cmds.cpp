#include "harness.h"
#include "Image.h"
#include "ImageGenerator.h"
#include "ImageUtil.h"

std::map<std::string, std::unique_ptr<Image>> images;
Image& IM(const std::string& n) {
    auto& p = images[n];
    if (!p) p.reset(new Image);
    return *p;
}
std::string image_state(const Image& m) {
    std::string r = "{\"w\":" + Ev::integer(m.width()) + ",\"h\":" + Ev::integer(m.height()) + ",\"p\":" + Ev::integer(m.planes()) + ",\"d\":[";
    bool first = true;
    for (int y = 0; y < m.height(); y++)
        for (int x = 0; x < m.width(); x++)
            for (int k = 0; k < m.planes(); k++) {
                if (!first) r += ",";
                first = false;
                r += std::to_string((int)m(x, y, k));
            }
    return r + "]}";
}
void post_images(Ev& e) {
    std::string r = "{";
    bool first = true;
    for (auto& k : images) { if (!first) r += ","; first = false; r += Ev::str(k.first) + ":" + image_state(*k.second); }
    e.raw("im", r + "}");
}
#define post post_images

CMD("i_new") { std::string n = in.t("m"); int w = in.i("w"), h = in.i("h"), p = in.i("p"); images[n].reset(new Image(w, h, p)); post(e); }
CMD("i_default") { images[in.t("m")].reset(new Image); post(e); }
// a fixture: shape and bytes (repeated as needed)
CMD("i_load") {
    std::string n = in.t("m");
    int w = in.ri(), h = in.ri(), p = in.ri();
    auto v = in.ris();
    images[n].reset(new Image(w, h, p));
    size_t i = 0;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) IM(n)(x, y, k) = (unsigned char)v[i++ % v.size()];
    post(e);
}
CMD("i_resize") { Image& m = IM(in.t("m")); int w = in.i("w"), h = in.i("h"), p = in.i("p"); m.resize(w, h, p); post(e); }
CMD("i_set") { Image& m = IM(in.t("m")); int x = in.i("x"), y = in.i("y"), k = in.i("k"), v = in.i("v"); m(x, y, k) = (unsigned char)v; post(e); }
CMD("i_set_p") { Image& m = IM(in.t("m")); int x = in.i("x"), y = in.i("y"), k = in.i("k"), v = in.i("v"); *m.pixel(x, y, k) = (unsigned char)v; post(e); }
CMD("i_get") {
    Image& m = IM(in.t("m"));
    const Image& c = m;
    int x = in.i("x"), y = in.i("y"), k = in.i("k");
    e.i("ret", m(x, y, k)); e.i("ptr", *m.pixel(x, y, k)); e.i("cret", c(x, y, k)); e.i("cptr", *c.pixel(x, y, k));
    e.i("at", m.pixel(x, y, k) - m.data());
    e.i("w", m.width()); e.i("h", m.height()); e.i("p", m.planes()); e.i("size", m.size());
    post(e);
}
CMD("i_copy") { std::string n = in.t("m"), f = in.t("f"); std::unique_ptr<Image> q(new Image(IM(f))); images[n] = std::move(q); post(e); }
CMD("i_assign") { std::string n = in.t("m"), f = in.t("f"); IM(f); IM(n) = IM(f); post(e); }
CMD("i_bw") { std::string n = in.t("m"), f = in.t("f"); IM(f); ImageUtil::convert_to_bw(IM(f), IM(n)); post(e); }
CMD("i_scale") { Image& m = IM(in.t("m")); ImageUtil::scale(m, in.d("s")); post(e); }
CMD("i_to_double") { Image& m = IM(in.t("m")); auto v = in.ds("z"); m.to_double(v); e.raw("r", Ev::ds(v)); post(e); }
CMD("i_sierpinski") { Image& m = IM(in.t("m")); int w = in.i("w"), h = in.i("h"); ImageGenerator::Shierpinsky(m, w, h); post(e); }
CMD("i_mandelbrot") { Image& m = IM(in.t("m")); int w = in.i("w"), h = in.i("h"), n = in.i("n"); ImageGenerator::Mandelbrot(m, w, h, n); post(e); }
CMD("i_twin") { std::string a = in.t("m"), b = in.t("f"); IM(a); IM(b); post(e); }
