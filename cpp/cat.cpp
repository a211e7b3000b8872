#include "cat.h"
using namespace mc;
namespace cat {
const std::vector<File> &files() {
    static std::vector<File> v;
    if (v.empty()) {
        auto add = [&](const char *key, const char *name, Win disp, Win data, int nch, int dt, const char *cs) {
            ImgFile f{g_suite->dir + "/" + name, disp, data, nch, dt, pattern(data, nch, int(v.size()) + 1)};
            v.push_back({f, cs, key});
        };
        add("exr f32 rgba 4x4", "f0.exr", {0, 0, 4, 4}, {0, 0, 4, 4}, 4, 0, "Linear");
        add("exr f32 rgb, data inside display", "f1.exr", {0, 0, 6, 5}, {1, 1, 4, 3}, 3, 0, "Linear");
        add("exr half rgba, overscan", "f2.exr", {0, 0, 4, 3}, {-1, -2, 6, 4}, 4, 1, "Linear");
        add("png u8 rgb 5x3", "f3.png", {0, 0, 5, 3}, {0, 0, 5, 3}, 3, 2, "sRGB");
        add("tif u16 rgba 3x4", "f4.tif", {0, 0, 3, 4}, {0, 0, 3, 4}, 4, 3, "");
        add("exr f32 rgba, display not at the origin", "f5.exr", {10, 20, 14, 23}, {9, 21, 16, 22}, 4, 0, "Linear");
        add("exr f32 rgba, data outside display", "f6.exr", {0, 0, 3, 3}, {5, -4, 7, -1}, 4, 0, "Linear");
        add("exr f32 rgb 1x1", "f7.exr", {0, 0, 1, 1}, {0, 0, 1, 1}, 3, 0, "Linear");
        add("png u8 rgba 2x6", "f8.png", {0, 0, 2, 6}, {0, 0, 2, 6}, 4, 2, "sRGB");
        add("exr half rgb 7x2", "f9.exr", {0, 0, 7, 2}, {0, 0, 7, 2}, 3, 1, "Linear");
        add("png u16 rgb 4x2", "f10.png", {0, 0, 4, 2}, {0, 0, 4, 2}, 3, 3, "sRGB");
        add("exr half rgba 300x260, overscan", "f11.exr", {0, 0, 280, 250}, {-7, -3, 293, 257}, 4, 1, "Linear");
    }
    return v;
}
void write_files() { for (auto &f : files()) write_file(f.f); }
const std::vector<File> &values() {
    static std::vector<File> v;
    if (v.empty()) {
        static const float V[7] = {-2, -0.5f, 0, 0.25f, 1, 1.5f, 1000};
        auto add = [&](const char *key, int w, int h, int nch, int dt, std::function<float(int, int, int)> f) {
            ImgFile m{g_suite->dir + sfmt("/values%zu.exr", v.size()), {0, 0, w, h}, {0, 0, w, h}, nch, dt, {}};
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < nch; c++) m.px.push_back(f(x, y, c));
            v.push_back({m, "Linear", key});
        };
        auto val = [](int k, int c) { return c == 3 ? V[k / 7] : V[(k % 7 + c * c) % 7]; };
        add("values along x", 49, 49, 4, 0, [=](int x, int, int c) { return val(x, c); });
        add("values along y", 49, 49, 4, 0, [=](int, int y, int c) { return val(y, c); });
        const float inf = INFINITY;
        static const std::vector<float> S = {inf, -inf, NAN, 1e30f, -1e30f, 1e-40f, 1e-30f, -0.0f, 65504, 1e5f, 0, 1};
        static const std::vector<float> H = {inf, -inf, NAN, 65504, -65504, 6.0e-8f, 6.2e-5f, -0.0f, 0, 1, -1, 2048};
        auto sp = [](const std::vector<float> &t, int x, int y, int c) { return y == c ? t[x] : y == 4 && c < 3 ? t[(x + c) % t.size()] : pat(x, y, c, 40); };
        add("unusual rgba floats", int(S.size()), 5, 4, 0, [=](int x, int y, int c) { return sp(S, x, y, c); });
        add("unusual rgb floats", int(S.size()), 5, 3, 0, [=](int x, int y, int c) { return sp(S, x, y, c); });
        add("unusual rgba half floats", int(H.size()), 5, 4, 1, [=](int x, int y, int c) { return sp(H, x, y, c); });
        add("rgb values along x", 49, 49, 3, 0, [=](int x, int, int c) { return val(x, c); });
        add("rgb values along y", 49, 49, 3, 0, [=](int, int y, int c) { return val(y, c); });
    }
    return v;
}
void write_values() { for (auto &f : values()) write_file(f.f); }
ref::Stream value_stream(int i) { return ref::from_file(values()[i].f, values()[i].cs); }
ref::Stream stream(int i) {
    if (i == 8) {      // the format stores unassociated alpha: take the values it holds
        static ref::Stream s;
        if (s.px.empty()) { ImgFile f = files()[i].f; if (!load_file(f)) fail("cannot load %s", f.path.c_str()); s = ref::from_file(f, files()[i].cs); }
        return s;
    }
    return ref::from_file(files()[i].f, files()[i].cs); }
Node reader(G &g, int i, bool c) { return g.read(files()[i].f.path, c); }

const std::vector<PendOp> &pend_ops() {
    static std::vector<PendOp> v;
    if (v.empty()) {
        auto G_ = [&](const char *k, std::function<void(ref::Grade &)> f) { PendOp o{0, {}, {}, k}; f(o.g); v.push_back(o); };
        auto D_ = [&](const char *k, bool lens, std::function<void(ref::Deform &)> f) { PendOp o{1, {}, {}, k}; o.d.lens = lens; f(o.d); v.push_back(o); };
        G_("grade x2 x3 x0.5", [](ref::Grade &g) { g.v[4][0] = 2; g.v[4][1] = 3; g.v[4][2] = 0.5f; });
        G_("grade offset", [](ref::Grade &g) { g.v[5][0] = 0.25f; g.v[5][1] = 0.5f; g.v[5][2] = 0.125f; });
        G_("grade gamma mix", [](ref::Grade &g) { g.v[6][0] = 2; g.v[6][1] = 0.5f; g.v[0][2] = 0.125f; g.v[1][2] = 0.75f; g.v[2][0] = 0.0625f; g.mix = 0.5f; g.p[3] = 1; g.v[4][3] = 0.5f; });
        D_("transform translate", false, [](ref::Deform &d) { d.tx = 4.4f; d.ty = -3.3f; });
        D_("transform scale rotate", false, [](ref::Deform &d) { d.sx = 1.7f; d.sy = 0.6f; d.rot = 30; d.px = 1.5f; d.py = 1.2f; });
        D_("transform invert", false, [](ref::Deform &d) { d.dir = 1; d.tx = 5.2f; d.sx = 0.8f; d.sy = 0.7f; d.rot = -20; d.rcx = 0.3f; });
        D_("lens distort", true, [](ref::Deform &d) { d.dir = 1; d.lp[0] = 0.11f; d.lp[2] = 0.23f; d.lp[3] = 1.13f; });
        D_("lens undistort", true, [](ref::Deform &d) { d.dir = 0; d.lp[1] = 0.17f; d.lp[2] = -0.27f; d.lp[4] = 0.31f; d.lp[6] = 0.77f; });
    }
    return v;
}
Node chain_node(G &g, Node n, const Chain &c) {
    for (int k : c) {
        auto &o = pend_ops()[k];
        Node m = o.kind == 0 ? ref::make_grade(g, o.g) : o.d.lens ? ref::make_lens(g, o.d) : ref::make_transform(g, o.d);
        g.con(n, m); n = m;
    }
    return n;
}
void chain_ref(ref::Stream &s, const Chain &c) {
    for (int k : c) { auto &o = pend_ops()[k]; if (o.kind == 0) s.ops.push_back(o.g); else s.defs.push_back(o.d); s.placeholder = false; }
}
std::string chain_str(const Chain &c) {
    std::string r;
    for (int k : c) r += std::string(", ") + pend_ops()[k].key;
    return r;
}
}
