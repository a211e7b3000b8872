// C16 resample.
#include "cat.h"
#include <array>
using namespace mc;
namespace {
struct Kind { const char *ext; int nch, dt; const char *cs; const char *name; };
const std::vector<Kind> KINDS = {{"exr", 4, 0, "Linear", "f32 rgba"}, {"exr", 3, 0, "Linear", "f32 rgb"}, {"exr", 4, 1, "Linear", "half rgba"}, {"exr", 3, 1, "Linear", "half rgb"}, {"png", 3, 2, "sRGB", "u8 rgb"}, {"png", 3, 3, "sRGB", "u16 rgb"}};
ImgFile image(int w, int h, int kind, int placement, bool constant) {
    const Kind &k = KINDS[kind];
    Win data = placement == 1 ? Win{2, -1, 2 + w, -1 + h} : placement == 2 ? Win{-3, 5, -3 + w, 5 + h} : Win{0, 0, w, h}, disp = placement == 1 ? Win{0, 0, w + 4, h + 3} : placement == 2 ? Win{-1, 6, 2, 8} : data;
    ImgFile f{g_suite->dir + sfmt("/r%dx%d_%d_%d_%d.%s", w, h, kind, placement, int(constant), k.ext), disp, data, k.nch, k.dt, {}};
    f.px = pattern(data, k.nch, 3 + kind);
    if (constant) for (size_t i = 0; i < f.px.size(); i++) f.px[i] = pat(0, 0, int(i % k.nch), 9);
    return f;
}
int placements(int kind) { return KINDS[kind].ext[0] == 'e' ? 3 : 1; }
std::vector<std::pair<int, int>> sizes(bool th) {
    std::vector<std::pair<int, int>> v; int m = th ? 8 : 5;
    for (int w = 1; w <= m; w++) for (int h = 1; h <= m; h++) v.push_back({w, h});
    for (auto p : {std::make_pair(17, 3), std::make_pair(2, 33), std::make_pair(64, 48), std::make_pair(31, 30)}) v.push_back(p);
    return v;
}
int scaled(int v, int f) { double r = v * std::pow(2.0, f); r = std::floor(std::min(16384.0, std::max(1.0, r))); return int(r); }
// Expected value interval of one output pixel.
void want_px(const ref::Stream &s, int W, int H, int x, int y, int c, bool interp, std::vector<double> &cand) {
    int w = s.data.w(), h = s.data.h(); double sx = (x + 0.5) * w / W, sy = (y + 0.5) * h / H;
    auto at = [&](int X, int Y) { X = std::min(std::max(X, 0), w - 1); Y = std::min(std::max(Y, 0), h - 1); return s.at(s.data.x0 + X, s.data.y0 + Y, c); };
    cand.clear();
    if (!interp) { double ex = 1e-4 + 3e-7 * w, ey = 1e-4 + 3e-7 * h; for (double e : {-ex, ex}) for (double g : {-ey, ey}) cand.push_back(at(int(std::floor(sx + e)), int(std::floor(sy + g)))); return; }
    double u = sx - 0.5, v = sy - 0.5; int i = int(std::floor(u)), j = int(std::floor(v)); u -= i; v -= j;
    cand.push_back((1 - v) * ((1 - u) * at(i, j) + u * at(i + 1, j)) + v * ((1 - u) * at(i, j + 1) + u * at(i + 1, j + 1)));
}
void check(const Snap &g, const ref::Stream &s, int factor, bool interp, ocg::StreamData &live) {
    int W = scaled(s.data.w(), factor), H = scaled(s.data.h(), factor);
    ref::Stream w = s; w.disp = w.data = {0, 0, W, H}; w.px.assign(size_t(W) * H * s.nch, 0); w.amb.assign(size_t(W) * H, 1);   // pixels compared below
    std::string e = ref::compare(g, w, ref::Tol(), &live);
    REQUIRE(e.empty(), "%s", e.c_str());
    auto p = g.px(); std::vector<double> cand;
    double tol = interp ? (g.dt == 0 ? 1e-5 : g.dt == 1 ? 1.0 / 1024 : g.dt == 2 ? 1.01 / 255 : 1.5 / 65535) : 1e-7;
    if (interp) tol += 3e-7 * (s.data.w() + s.data.h());       // single-precision source locations
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int c = 0; c < s.nch; c++) {
        want_px(s, W, H, x, y, c, interp, cand); double v = p[(size_t(y) * W + x) * s.nch + c]; bool ok = false;
        for (double q : cand) ok |= std::fabs(q - v) <= tol;
        REQUIRE(ok, "pixel (%d,%d) channel %d is %.9g, the source has %.9g there", x, y, c, v, cand[0]);
    }
}
void run(const ImgFile &f, int kind, int factor, bool interp, int how, const cat::Chain &ch) {
    G g; ref::Stream s = ref::from_file(f, KINDS[kind].cs); cat::chain_ref(s, ch);
    Node n = cat::chain_node(g, g.read(f.path), ch), r = g.make(NodeType::kResampleImage);
    g.i(r, "factor", factor); if (interp) g.i(r, "interpolate", 1); if (how == 2) g.i(r, "use_cache", 0); g.con(n, r);
    auto cache = make_cache(how ? 1 << 22 : 0);
    for (int rep = 0; rep < (how ? 2 : 1); rep++) {
        REQUIRE(g.exec(r, cache) == ExecuteStatus::kSuccess, "execution did not succeed");
        REQUIRE(g.g.node_status(r) == NodeStatus::kValid, "status %s", status_name(g.g.node_status(r)));
        auto out = g.out(); Snap got = snap(out, false);
        if (factor == 0) { std::string e = ref::compare(got, s, ref::Tol(), &out); REQUIRE(e.empty(), "factor zero changed the image: %s", e.c_str()); }
        else check(got, s, factor, interp, out);
        state(fp(got));
    }
}
void build(Suite &s) {
    bool th = s.thorough;
    static std::vector<std::pair<int, int>> SZ; SZ = sizes(th);
    static const std::vector<std::pair<int, int>> wide = {{4100, 1}, {1, 8193}, {16385, 1}, {3, 5000}};
    s.fixture = [] {
        for (auto &z : SZ) for (int k = 0; k < int(KINDS.size()); k++) for (int p = 0; p < placements(k); p++) for (int c = 0; c < 2; c++) write_file(image(z.first, z.second, k, p, c));
        for (auto &z : wide) for (int k : {0, 4}) write_file(image(z.first, z.second, k, 0, false));
        cat::write_files();
    };
    s.assumptions = {"sources with at least one pixel", "a source location exactly between two pixels may be either", "interpolated values within one code value"};
    static std::vector<cat::Chain> chains; chains = {{}, {0}, {3}, {6, 1}, {2, 4}};
    const int F = th ? 11 : 9;
    struct C { ImgFile f; int kind, factor; bool interp; int how; cat::Chain ch; };
    static std::vector<std::array<int, 2>> kp; kp.clear();
    for (int k = 0; k < int(KINDS.size()); k++) for (int p = 0; p < placements(k); p++) kp.push_back({k, p});
    auto dec = [=](uint64_t i) { Digits d(i); C c; auto z = d.pick(SZ); auto q = d.pick(kp); c.kind = q[0]; c.factor = int(d(F)) - F / 2; c.interp = d(2); c.how = int(i % 3); c.ch = chains[d.i % chains.size()]; bool con = d.i / chains.size(); c.f = image(z.first, z.second, q[0], q[1], con);
        if (z.first * z.second > 200 && c.factor > 2) c.factor = 2; return c; };
    auto txt = [=](const C &c) { return sfmt("%s %dx%d %s placed %s in %s%s, factor %d%s, %s", KINDS[c.kind].name, c.f.data.w(), c.f.data.h(), KINDS[c.kind].ext, c.f.data.str().c_str(), c.f.disp.str().c_str(), cat::chain_str(c.ch).c_str(), c.factor, c.interp ? " interpolated" : "", c.how == 0 ? "no cache" : c.how == 1 ? "twice with a cache" : "twice, cache not used"); };
    uint64_t per = SZ.size() * kp.size() * F * 2;
    s.add("every-size", per * chains.size(), [=](uint64_t i) { C c = dec(i); run(c.f, c.kind, c.factor, c.interp, c.how, c.ch); }, [=](uint64_t i) { return txt(dec(i)); });
    // constant images stay constant
    s.add("constant", per, [=](uint64_t i) {
        C c = dec(i + per * chains.size());
        G g; Node r = g.make(NodeType::kResampleImage), n = g.read(c.f.path); g.i(r, "factor", c.factor); if (c.interp) g.i(r, "interpolate", 1); g.con(n, r);
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "reading"); Snap a = snap(g.out(), false); auto pa = a.px();
        REQUIRE(g.exec(r) == ExecuteStatus::kSuccess, "execution did not succeed"); Snap b = snap(g.out(), false); auto pb = b.px();
        REQUIRE(a.nch == b.nch && a.dt == b.dt, "channels or data type changed");
        for (size_t k = 0; k < pb.size(); k++) REQUIRE(std::fabs(pb[k] - pa[k % a.nch]) <= 1e-6, "constant image: value %zu is %.9g, the constant is %.9g", k, pb[k], pa[k % a.nch]);
        state(fp(b));
    }, [=](uint64_t i) { return "constant " + txt(dec(i + per * chains.size())); });
    // limits
    static const std::vector<int> extreme = {-5, -14, -31, -1000, -2147483647 - 1};
    s.add("tiny", kp.size() * extreme.size() * 2 * 9, [=](uint64_t i) { Digits d(i); auto q = d.pick(kp); int f = d.pick(extreme); bool in = d(2); int z = int(d(9)); run(image(1 + z % 3, 1 + z / 3, q[0], q[1], false), q[0], f, in, int(i % 3), {}); },
        [=](uint64_t i) { Digits d(i); auto q = d.pick(kp); int f = d.pick(extreme); bool in = d(2); int z = int(d(9)); return sfmt("%s %dx%d factor %d%s", KINDS[q[0]].name, 1 + z % 3, 1 + z / 3, f, in ? " interpolated" : ""); });
    s.add("widest", wide.size() * 2 * 3 * 2, [=](uint64_t i) { Digits d(i); auto z = d.pick(wide); int k = d(2) ? 4 : 0, f = int(d(3)); bool in = d(2); run(image(z.first, z.second, k, 0, false), k, f == 0 ? 1 : f == 1 ? 2 : -2, in, 0, {}); },
        [=](uint64_t i) { Digits d(i); auto z = d.pick(wide); int k = d(2) ? 4 : 0, f = int(d(3)); return sfmt("%s %dx%d factor %d", KINDS[k].name, z.first, z.second, f == 0 ? 1 : f == 1 ? 2 : -2); });
    // what other nodes give, in every pixel type and channel count
    static const std::vector<const char *> UPS = {"viewer f32", "viewer f16", "viewer u8", "viewer u16", "viewer cropped f16", "viewer cropped u8", "crop", "crop beyond the image", "merge"};
    s.add("resample-of-others", (cat::SMALL + 1) * UPS.size() * 7 * 2 * 2, [=](uint64_t i) {
        Digits d(i); int file = int(d(cat::SMALL + 1)), u = int(d(UPS.size())), f = int(d(7)) - 3; bool in = d(2), cached = d(2);
        G g; Node n = file ? cat::reader(g, file - 1) : g.make(NodeType::kNull), a, b = g.make(NodeType::kResampleImage);
        if (u < 6) { static const int DT[6] = {0, 1, 2, 3, 1, 2}; a = g.make(NodeType::kViewer); g.i(a, "bake_option", 1); g.i(a, "bake_pixel_data_type", DT[u]); g.i(a, "crop_to_format", u >= 4); }
        else if (u < 8) { a = g.make(NodeType::kCropImage); g.i(a, "window_min_x", u == 6 ? 1 : -2); g.i(a, "window_min_y", u == 6 ? 0 : -1); g.i(a, "window_max_x", u == 6 ? 3 : 6); g.i(a, "window_max_y", u == 6 ? 2 : 5); g.i(a, "reformat", 1); }
        else { a = g.make(NodeType::kMergeImage); g.con(n, a, 1); }
        g.con(n, a); g.con(a, b); g.i(b, "factor", f); if (in) g.i(b, "interpolate", 1);
        auto cache = make_cache(cached ? 1 << 22 : 0);
        for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
            REQUIRE(g.exec(a, cache) == ExecuteStatus::kSuccess, "first"); Snap sa = snap(g.out(), false);
            REQUIRE(g.exec(b, cache) == ExecuteStatus::kSuccess, "second"); auto out = g.out(); Snap sb = snap(out, false);
            REQUIRE(g.g.node_status(b) == NodeStatus::kValid, "status %s", status_name(g.g.node_status(b)));
            if (f) { ref::Stream m = ref::placeholder(); m.disp = sa.disp; m.data = sa.data; m.nch = sa.nch; m.dt = sa.dt; m.cs = sa.cs; m.gamma = sa.gamma; m.aspect = sa.aspect; m.unassoc = sa.unassoc; m.placeholder = false; m.px.clear(); for (float v : sa.px()) m.px.push_back(v); m.amb.assign(size_t(sa.w) * sa.h, 0); check(sb, m, f, in, out); }
            else { std::string e = diff(sb, sa); REQUIRE(e.empty(), "factor zero: %s", e.c_str()); }
            state(fp(sb));
        }
    }, [=](uint64_t i) { Digits d(i); int file = int(d(cat::SMALL + 1)), u = int(d(UPS.size())), f = int(d(7)) - 3; bool in = d(2), cached = d(2); return sfmt("%s, %s, factor %d%s%s", file ? cat::files()[file - 1].key : "placeholder", UPS[u], f, in ? " interpolated" : "", cached ? ", twice with a cache" : ""); });
    // factors beyond every limit: both sides become 16384
    static const std::vector<int> vast = {15, 31, 32, 64, 1000, 2147483647};
    s.add("vast", th ? vast.size() : 2, [=](uint64_t i) {
        G g; Node n = g.read(image(1, 1, 4, 0, false).path), r = g.make(NodeType::kResampleImage); int f = th ? vast[i] : vast[i * 3 + 2]; g.i(r, "factor", f); g.con(n, r);
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "reading"); Snap a = snap(g.out(), false);
        REQUIRE(g.exec(r) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out();
        auto w = out.data_window(), x = out.display_window();
        REQUIRE(out.pixel_width() == 16384 && out.pixel_height() == 16384 && w.min_x == 0 && w.min_y == 0 && w.max_x == 16384 && w.max_y == 16384 && x.min_x == 0 && x.min_y == 0 && x.max_x == 16384 && x.max_y == 16384, "image is %dx%d, expected 16384x16384", int(out.pixel_width()), int(out.pixel_height()));
        auto b = out.pixel_buffer(); REQUIRE(b.size() == size_t(16384) * 16384 * a.nch, "%zu bytes", b.size());
        for (size_t k = 0; k < b.size(); k += k < 100000 || k + 100000 > b.size() ? 1 : 65537) REQUIRE(b[k] == a.bytes[k % a.nch], "byte %zu is %d, expected %d", k, int(b[k]), int(a.bytes[k % a.nch]));
        state(f);
    }, [=](uint64_t i) { return sfmt("u8 1x1 factor %d", th ? vast[i] : vast[i * 3 + 2]); });
    // resampling of other nodes' results and of resampled images
    s.add("resample-of-resample", 7 * 7 * 4 * cat::SMALL, [=](uint64_t i) {
        Digits d(i); int f1 = int(d(7)) - 3, f2 = int(d(7)) - 3, in = int(d(4)), file = int(d(cat::SMALL));
        G g; Node n = cat::reader(g, file), a = g.make(NodeType::kResampleImage), b = g.make(NodeType::kResampleImage);
        g.i(a, "factor", f1); g.i(b, "factor", f2); if (in & 1) g.i(a, "interpolate", 1); if (in & 2) g.i(b, "interpolate", 1); g.con(n, a); g.con(a, b);
        auto cache = make_cache(1 << 22);
        REQUIRE(g.exec(a, cache) == ExecuteStatus::kSuccess, "first"); Snap sa = snap(g.out(), false);
        REQUIRE(g.exec(b, cache) == ExecuteStatus::kSuccess, "second"); auto out = g.out(); Snap sb = snap(out, false);
        ref::Stream m = cat::stream(file); m.disp = sa.disp; m.data = sa.data; m.px.clear(); for (float v : sa.px()) m.px.push_back(v); m.amb.assign(size_t(sa.w) * sa.h, 0);
        if (f2) check(sb, m, f2, in & 2, out); else { std::string e = diff(sb, sa); REQUIRE(e.empty(), "factor zero: %s", e.c_str()); }
        state(fp(sb));
    }, [=](uint64_t i) { Digits d(i); int f1 = int(d(7)) - 3, f2 = int(d(7)) - 3, in = int(d(4)), file = int(d(cat::SMALL)); return sfmt("%s factor %d%s then %d%s", cat::files()[file].key, f1, in & 1 ? " interpolated" : "", f2, in & 2 ? " interpolated" : ""); });
}
Register r("C16", build);
}
