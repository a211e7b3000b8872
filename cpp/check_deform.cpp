// C14 transform, C15 lens distortion.
#include "cat.h"
using namespace mc;
namespace {
const std::vector<Win> WINS = {{0, 0, 4, 4}, {0, 0, 7, 3}, {-2, 1, 8, 6}, {5, -9, 8, 11}, {0, 0, 1, 1}, {100, 200, 420, 440}};
std::vector<float> positions(Win w, int dense) {
    std::vector<float> p;
    if (dense) { for (int j = 0; j < dense; j++) for (int i = 0; i < dense; i++) { double u = double(i) / dense * 1.5 - 0.25, v = double(j) / dense * 1.5 - 0.25; p.push_back(float(w.x0 + u * w.w())); p.push_back(float(w.y0 + v * w.h())); p.push_back(float(i + 10 * j)); } return p; }
    for (double u : {-0.5, 0.0, 0.25, 0.5, 0.8, 1.0, 1.7}) for (double v : {-0.3, 0.0, 0.4, 0.5, 1.0, 2.1}) { p.push_back(float(w.x0 + u * w.w())); p.push_back(float(w.y0 + v * w.h())); p.push_back(float(0.5 + u + 10 * v)); }
    return p;
}
double scale_of(Win w) { return 1 + std::max(std::max(std::abs(w.x0), std::abs(w.x1)), std::max(std::abs(w.y0), std::abs(w.y1))) + w.w() + w.h(); }
// the pending deformers of `out` must move positions as the list of reference deformers does
void check_positions(ocg::StreamData &out, const std::vector<ref::Deform> &defs, Win w, Win disp, int dense = 0, double tol = 2e-5) {
    auto p = positions(w, dense), o = deform(out, p, disp, w);
    REQUIRE(o.size() == p.size(), "number of positions changed");
    double gain = 1;
    for (auto &d : defs) if (!d.lens) gain *= d.dir ? std::max(1.0, std::max(1 / std::fabs(double(d.sx)), 1 / std::fabs(double(d.sy)))) : std::max(1.0f, std::max(std::fabs(d.sx), std::fabs(d.sy)));
    for (size_t k = 0; k < p.size(); k += 3) {
        double x = p[k], y = p[k + 1];
        for (auto &d : defs) d.apply(w, false, x, y);
        double t = tol * gain * (scale_of(w) + std::fabs(x) + std::fabs(y));
        REQUIRE(std::fabs(o[k] - x) <= t && std::fabs(o[k + 1] - y) <= t, "window %s: (%g,%g) moves to (%.7g,%.7g), expected (%.7g,%.7g)", w.str().c_str(), p[k], p[k + 1], o[k], o[k + 1], x, y);
        REQUIRE(o[k + 2] == p[k + 2], "window %s: third component of (%g,%g) changed from %g to %g", w.str().c_str(), p[k], p[k + 1], p[k + 2], o[k + 2]);
    }
    state(fnv(o.data(), o.size() * 4));
}
std::string dstr(const ref::Deform &d) {
    return d.lens ? sfmt("lens %s offset (%g,%g) distortion %g squeeze %g curvature (%g,%g) quartic %g", d.dir ? "distort" : "undistort", d.lp[0], d.lp[1], d.lp[2], d.lp[3], d.lp[4], d.lp[5], d.lp[6])
                  : sfmt("transform%s translate (%g,%g) rotate %g about (%g,%g) scale (%g,%g) pivot (%g,%g)", d.dir ? " inverted" : "", d.tx, d.ty, d.rot, d.rcx, d.rcy, d.sx, d.sy, d.px, d.py);
}
Node make(G &g, const ref::Deform &d) { return d.lens ? ref::make_lens(g, d) : ref::make_transform(g, d); }
// Positions in every window, on top of the placeholder or of an image, with undo.
// images whose data window lies far from the display window (source numbers from 100)
const std::vector<ImgFile> &far_files() {
    static std::vector<ImgFile> v;
    if (v.empty()) for (auto &w : std::vector<Win>{{-700, -650, -689, -643}, {900, 1200, 909, 1211}, {-3, -400, 4, -391}, {350, -2, 361, 5}}) { int k = int(v.size()); v.push_back({g_suite->dir + sfmt("/far%d.exr", k), {0, 0, 10, 8}, w, k % 2 ? 3 : 4, 0, pattern(w, k % 2 ? 3 : 4, k + 20)}); }
    return v;
}
void write_all() { cat::write_files(); for (auto &f : far_files()) write_file(f); }
void position_case(const std::vector<ref::Deform> &defs, int src, bool windows_differ) {
    G g; Node n = src < 0 ? g.make(NodeType::kNull) : cat::reader(g, src);
    bool first = src == -2;
    for (auto &d : defs) { Node m = make(g, d); if (!first) g.con(n, m); first = false; n = m; }
    REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed");
    auto out = g.out();
    REQUIRE(out.deformers_len() == defs.size(), "%zu deformers pending, expected %zu", out.deformers_len(), defs.size());
    for (auto &w : WINS) check_positions(out, defs, w, w);
    if (windows_differ) check_positions(out, defs, WINS[2], WINS[1]);
    // the pixels and windows stay untouched while it is pending
    if (src >= -1) { std::string e; ref::Stream s = src < 0 ? ref::placeholder() : cat::stream(src); s.defs = defs; e = ref::compare(snap(out, false), s); REQUIRE(e.empty(), "image with pending deformers: %s", e.c_str()); }
}
void undo_case(ref::Deform d, bool first_inverted) {
    G g; ref::Deform e = d; d.dir = first_inverted; e.dir = !first_inverted;
    Node a = make(g, d), b = make(g, e); g.con(a, b);
    REQUIRE(g.exec(b) == ExecuteStatus::kSuccess, "execution did not succeed");
    auto out = g.out();
    for (auto &w : WINS) {
        auto p = positions(w, 0), o = deform(out, p, w, w);
        double t = 1e-4 * scale_of(w) * (d.lens ? 2 : 1 + 2 * (1 / std::fabs(double(d.sx)) + 1 / std::fabs(double(d.sy)) + std::fabs(d.sx) + std::fabs(d.sy)));
        for (size_t k = 0; k < p.size(); k++) REQUIRE(std::fabs(o[k] - p[k]) <= t, "window %s: component %zu: %g comes back as %.7g", w.str().c_str(), k, p[k], o[k]);
        state(fnv(o.data(), o.size() * 4));
    }
}
void bake_case(const std::vector<ref::Deform> &defs, int src, int how) {
    G g; Node n = src < 0 ? g.make(NodeType::kNull) : src >= 100 ? g.read(far_files()[src - 100].path) : cat::reader(g, src);
    ref::Stream s = src < 0 ? ref::placeholder() : src >= 100 ? ref::from_file(far_files()[src - 100], "Linear") : cat::stream(src);
    for (auto &d : defs) { Node m = make(g, d); g.con(n, m); n = m; s.defs.push_back(d); }
    Node v = g.make(NodeType::kViewer); g.i(v, "bake_option", 3); g.i(v, "bake_pixel_data_type", 0); g.con(n, v);
    const ref::Stream pending = s;
    auto cache = make_cache(how ? 1 << 20 : 0);
    for (int rep = 0; rep <= how; rep++) {
        REQUIRE(g.exec(v, cache) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        s = pending; ref::window_hint = &got.data; ref::bake(s, 3, "Linear", 0); ref::window_hint = nullptr;
        std::string e = ref::compare(got, s, ref::Tol(), &out);
        REQUIRE(e.empty(), "%sbaked: %s", rep ? "cached, " : "", e.c_str());
        state(fp(got));
    }
}
std::string src_str(int s) { return s == -2 ? "no input" : s == -1 ? "placeholder" : s >= 100 ? "data window " + far_files()[s - 100].data.str() + " of a 10x8 image" : cat::files()[s].key; }
std::string list_str(const std::vector<ref::Deform> &v) { std::string r; for (auto &d : v) r += "; " + dstr(d); return r; }

// a deformer that undoes most of the one before it, to keep long chains near the image
ref::Deform undo_of(const ref::Deform &last) { ref::Deform d = last; d.dir = !d.dir; if (d.lens) d.lp[0] += 0.02f; else { d.tx += 0.25f; d.rot += 3; } return d; }
// more positions and pixels than fit in 16 bits
void add_large(Suite &s, const std::vector<ref::Deform> &F) {
    static std::vector<ref::Deform> L; L = F;
    static const std::vector<int> D = {200, 257, 300};
    s.add("many-positions", L.size() * D.size(), [](uint64_t i) {
        Digits q(i); auto d = q.pick(L); int n = q.pick(D); G g; Node m = make(g, d); REQUIRE(g.exec(m) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out();
        check_positions(out, {d}, WINS[2], WINS[2], n); check_positions(out, {d}, WINS[5], WINS[5], n);
    }, [](uint64_t i) { Digits q(i); auto d = q.pick(L); int n = q.pick(D); return sfmt("%d positions; ", n * n) + dstr(d); });
    s.add("baked-large", L.size() * 3, [](uint64_t i) { bake_case(i / L.size() == 2 ? std::vector<ref::Deform>{L[i % L.size()], undo_of(L[i % L.size()])} : std::vector<ref::Deform>{L[i % L.size()]}, cat::SMALL, i / L.size() == 1); }, [](uint64_t i) { return "baked " + src_str(cat::SMALL) + "; " + dstr(L[i % L.size()]) + sfmt(" (%d)", int(i / L.size())); });
}

// the space of single transforms
ref::Deform xform(uint64_t i, bool thorough, uint64_t *count) {
    static const std::vector<float> tx = {0, 1.5f, -3}, ty = {0, 2, -0.75f}, rot = {0, 30, 90, -135}, rotT = {0, 30, 90, -135, 180, 359}, rcx = {0, 0.25f}, rcy = {0, -0.5f}, sx = {1, 2, 0.4f}, sxT = {1, 2, 0.4f, -1}, sy = {1, 0.5f, 3}, px = {0.5f, 0, 1.2f}, py = {0.5f, -0.7f};
    auto &R = thorough ? rotT : rot; auto &SX = thorough ? sxT : sx;
    if (count) *count = 2ull * tx.size() * ty.size() * R.size() * rcx.size() * rcy.size() * SX.size() * sy.size() * px.size() * py.size();
    Digits q(i); ref::Deform d;
    d.dir = int(q(2)); d.tx = q.pick(tx); d.ty = q.pick(ty); d.rot = q.pick(R); d.rcx = q.pick(rcx); d.rcy = q.pick(rcy); d.sx = q.pick(SX); d.sy = q.pick(sy); d.px = q.pick(px); d.py = q.pick(py);
    return d;
}
std::vector<ref::Deform> few_xforms() {
    std::vector<ref::Deform> v;
    auto add = [&](float tx, float ty, float rot, float rcx, float rcy, float sx, float sy, float px, float py, int inv) { ref::Deform d; d.tx = tx; d.ty = ty; d.rot = rot; d.rcx = rcx; d.rcy = rcy; d.sx = sx; d.sy = sy; d.px = px; d.py = py; d.dir = inv; v.push_back(d); };
    add(1.7f, -2.3f, 0, 0, 0, 1, 1, .5f, .5f, 0); add(0, 0, 37, 0, 0, 1, 1, .5f, .5f, 0); add(0, 0, 0, 0, 0, 2.1f, 0.6f, .5f, .5f, 0); add(0, 0, 21, 0.3f, -0.2f, 1, 1, .5f, .5f, 0); add(0, 0, 33, 0, 0, 1.3f, 0.8f, 1.4f, -0.6f, 0);
    add(2.2f, 1.1f, -50, 0.2f, 0.7f, 0.7f, 1.6f, 1.9f, 2.4f, 0); add(0.9f, -1.4f, 65, 0.1f, -0.3f, 1.2f, 0.5f, 0.2f, 1.3f, 1); add(-2.1f, 0, 0, 0, 0, 1, 1, .5f, .5f, 1); add(0, 0, 0, 0, 0, 0.45f, 1.55f, 2.05f, 1.05f, 1);
    return v;
}
ref::Deform lens(int which, float v, int which2, float v2, int dir) { ref::Deform d; d.lens = true; d.dir = dir; if (which >= 0) d.lp[which] = v; if (which2 >= 0) d.lp[which2] = v2; return d; }
ref::Deform undo(const ref::Deform &last) { return undo_of(last); }

void build_transform(Suite &s) {
    s.fixture = write_all;
    s.assumptions = {"windows with a positive size, scales other than zero", "single precision: relative error 2e-5 of the window scale"};
    uint64_t n; bool th = s.thorough; xform(0, th, &n);
    s.add("every-combination", n, [=](uint64_t i) { position_case({xform(i, th, nullptr)}, i % 3 == 0 ? -2 : i % 3 == 1 ? -1 : int(i / 3 % cat::SMALL), true); }, [=](uint64_t i) { return dstr(xform(i, th, nullptr)); });
    s.add("undo", n, [=](uint64_t i) { auto d = xform(i, th, nullptr); undo_case(d, d.dir); }, [=](uint64_t i) { return dstr(xform(i, th, nullptr)) + " and back"; });
    // one parameter at a time far from its usual values, and every pair of scales
    static std::vector<ref::Deform> wide; wide.clear();
    { static float ref::Deform::*const P[] = {&ref::Deform::tx, &ref::Deform::ty, &ref::Deform::rot, &ref::Deform::rcx, &ref::Deform::rcy, &ref::Deform::sx, &ref::Deform::sy, &ref::Deform::px, &ref::Deform::py};
      const std::vector<float> T = {-1000, -30, -1, -1e-3f, 1e-3f, 0.1f, 1, 30, 1000}, R = {-1080, -720, -600, -585, -450, -361, -360, -270, -181, -180, -90, -45, -0.01f, 0.01f, 1, 45, 89.5f, 90.5f, 179, 180, 181, 270, 359, 360, 361, 450, 540, 630, 720, 1085}, C = {-50, -1, 1e-3f, 0.5f, 1, 7, 50}, S = {-100, -2, -1, -0.5f, -0.01f, 0.002f, 0.01f, 0.1f, 1, 1.001f, 10, 300};
      const std::vector<float> *V[] = {&T, &T, &R, &C, &C, &S, &S, &C, &C};
      for (int inv : {0, 1, 2}) for (int base = 0; base < 3; base++) for (int k = 0; k < 9; k++) for (float v : *V[k]) { ref::Deform d = base == 0 ? ref::Deform() : few_xforms()[base == 1 ? 5 : 3]; d.dir = inv; d.*P[k] = v; wide.push_back(d); }
      for (int inv : {0, 1}) for (float a : S) for (float b : S) for (float r : {0.0f, 20.0f}) { ref::Deform d; d.dir = inv; d.sx = a; d.sy = b; d.rot = r; d.tx = 0.5f; wide.push_back(d); } }
    s.add("wide-values", wide.size(), [](uint64_t i) { position_case({wide[i]}, i % 2 ? -1 : -2, true); }, [](uint64_t i) { return dstr(wide[i]); });
    s.add("wide-values-baked", wide.size() * 2, [](uint64_t i) { bake_case({wide[i / 2]}, i % 2 ? 1 : 4, 0); }, [](uint64_t i) { return "baked " + src_str(i % 2 ? 1 : 4) + "; " + dstr(wide[i / 2]); });
    static std::vector<ref::Deform> F; F = few_xforms();
    static std::vector<ref::Deform> near; near.clear();
    for (int inv : {0, 1}) for (float tx : {0.0f, 13.0f, -21.0f}) for (float ty : {0.0f, 17.0f}) for (float r : {0.0f, 0.11f}) for (float sc : {1.0f, 1.002f}) { ref::Deform d; d.dir = inv; d.tx = tx; d.ty = ty; d.rot = r; d.sx = sc; d.sy = 2 - sc; near.push_back(d); }
    s.add("baked-far-away", near.size() * 4 * 2, [](uint64_t i) { Digits q(i); auto d = q.pick(near); int src = 100 + int(q(4)); bake_case(q(2) ? std::vector<ref::Deform>{d, near[(i * 7) % near.size()]} : std::vector<ref::Deform>{d}, src, 0); },
        [](uint64_t i) { Digits q(i); auto d = q.pick(near); return "baked " + src_str(100 + int(q(4))) + "; " + dstr(d) + (q(2) ? "; " + dstr(near[(i * 7) % near.size()]) : ""); });
    for (unsigned depth : {2u, 3u}) s.add(sfmt("chains-of-%u", depth), ipow(F.size(), depth) * 3, [=](uint64_t i) { Digits d(i); int src = int(d(3)) - 2; std::vector<ref::Deform> v; for (int k : seq(d.i, F.size(), depth)) v.push_back(F[k]); position_case(v, src == 0 ? 1 : src, false); },
        [=](uint64_t i) { Digits d(i); int src = int(d(3)) - 2; std::string r = src_str(src == 0 ? 1 : src); for (int k : seq(d.i, F.size(), depth)) r += "; " + dstr(F[k]); return r; });
    if (th) s.add("chains-of-4", ipow(F.size(), 4), [=](uint64_t i) { std::vector<ref::Deform> v; for (int k : seq(i, F.size(), 4)) v.push_back(F[k]); position_case(v, -1, false); }, [=](uint64_t i) { std::string r; for (int k : seq(i, F.size(), 4)) r += "; " + dstr(F[k]); return r; });
    // baked
    const int NS = cat::SMALL + 1;
    for (unsigned depth : {1u, 2u}) s.add(sfmt("baked-%u", depth), ipow(F.size(), depth) * NS * 2, [=](uint64_t i) { Digits d(i); int how = int(d(2)), src = int(d(NS)) - 1; std::vector<ref::Deform> v; for (int k : seq(d.i, F.size(), depth)) v.push_back(F[k]); bake_case(v, src, how); },
        [=](uint64_t i) { Digits d(i); int how = int(d(2)), src = int(d(NS)) - 1; std::string r = "baked " + src_str(src); for (int k : seq(d.i, F.size(), depth)) r += "; " + dstr(F[k]); return r + (how ? ", twice with a cache" : ""); });
    s.add("baked-every-combination", (n + 22) / 23, [=](uint64_t i) { uint64_t k = i * 23 % n; bake_case({xform(k, th, nullptr)}, int(i % NS) - 1, 0); }, [=](uint64_t i) { return "baked " + src_str(int(i % NS) - 1) + "; " + dstr(xform(i * 23 % n, th, nullptr)); });
    // long chains: every length, deformers taken in rotation, one mix of them per starting point
    for (int baked = 0; baked < 2; baked++) {
        auto lc = [](uint64_t i) { Digits d(i); size_t a = d(F.size()), st = 1 + d(4), len = d.i + 4; std::vector<ref::Deform> v; for (size_t k = 0; k < len; k++) { auto x = F[(a + k * st) % F.size()]; if (k % 2) x = undo(v.back()); v.push_back(x); } return v; };
        s.add(baked ? "baked-long-chains" : "long-chains", F.size() * 4 * (th ? 66 : 31), [=](uint64_t i) { auto v = lc(i); if (baked) bake_case(v, int(i % 3), 0); else position_case(v, int(i % 3) - 2, false); }, [=](uint64_t i) { auto v = lc(i); return sfmt("%zu deformers", v.size()) + list_str(v); });
    }
    add_large(s, F);
}
Register r14("C14", build_transform);

void build_lens(Suite &s) {
    s.fixture = write_all;
    s.assumptions = {"the lens library is replaced by a model in closed form; its own mathematics is not checked", "windows with a positive size"};
    // anamorphic squeeze must stay away from zero
    static const std::vector<std::vector<float>> vals = {{0, 0.11f, -0.4f}, {0, 0.17f, -0.3f}, {0, 0.23f, -0.2f}, {1, 1.3f, 0.6f}, {0, 0.31f, -0.2f}, {0, 0.27f, -0.35f}, {0, 0.8f, -0.5f}};
    const uint64_t all = ipow(3, 7) * 2;
    auto dec = [](uint64_t i) { Digits q(i); ref::Deform d; d.lens = true; d.dir = int(q(2)); for (int k = 0; k < 7; k++) d.lp[k] = vals[k][q(3)]; return d; };
    s.add("every-combination", all, [=](uint64_t i) { position_case({dec(i)}, i % 3 == 0 ? -2 : i % 3 == 1 ? -1 : int(i / 3 % cat::SMALL), true); }, [=](uint64_t i) { return dstr(dec(i)); });
    s.add("undo", all, [=](uint64_t i) { auto d = dec(i); undo_case(d, d.dir); }, [=](uint64_t i) { return dstr(dec(i)) + " and back"; });
    const int NS = cat::SMALL + 1;
    s.add("baked", all * (s.thorough ? NS : 4), [=](uint64_t i) { Digits d(i); auto x = dec(d(all)); int src = int((d.i * 3 + i) % NS) - 1; bake_case({x}, src, i % 5 == 0); }, [=](uint64_t i) { Digits d(i); auto x = dec(d(all)); return "baked " + src_str(int((d.i * 3 + i) % NS) - 1) + "; " + dstr(x); });
    // one parameter far from its usual values; the factors of the substitute model stay away from zero
    static std::vector<ref::Deform> wide; wide.clear();
    for (int base = 0; base < 3; base++) for (int dir : {0, 1}) for (int k = 0; k < 7; k++) for (float v : {-1000.0f, -37.0f, -5.5f, -2.5f, -1.3f, -0.75f, -0.001f, 0.001f, 0.6f, 0.95f, 1.1f, 2.2f, 5.5f, 12.0f, 45.0f, 999.0f}) {
        ref::Deform d; d.lens = true; d.dir = dir; if (base) for (int j = 0; j < 7; j++) d.lp[j] = vals[j][base]; d.lp[k] = v;
        double kx = d.lp[3] + d.lp[2] + 0.5 * d.lp[4], ky = 1 + d.lp[2] + 0.25 * d.lp[5]; if (std::fabs(kx) > 0.1 && std::fabs(ky) > 0.1) wide.push_back(d); }
    s.add("wide-values", wide.size(), [](uint64_t i) { position_case({wide[i]}, i % 2 ? -1 : -2, true); }, [](uint64_t i) { return dstr(wide[i]); });
    s.add("baked-far-away", 16 * 4, [](uint64_t i) { Digits q(i); int src = 100 + int(q(4)); ref::Deform d = lens(int(q(4)) < 3 ? 2 : 6, 0.002f, 0, 0.07f * int(q(4)), int(i % 2)); bake_case({d}, src, 0); },
        [](uint64_t i) { Digits q(i); int src = 100 + int(q(4)); ref::Deform d = lens(int(q(4)) < 3 ? 2 : 6, 0.002f, 0, 0.07f * int(q(4)), int(i % 2)); return "baked " + src_str(src) + "; " + dstr(d); });
    // chains with transforms and other lenses
    static std::vector<ref::Deform> F; F.clear();
    { auto t = few_xforms(); F.push_back(t[0]); F.push_back(t[5]); F.push_back(t[6]); F.push_back(lens(2, 0.23f, 0, 0.11f, 0)); F.push_back(lens(2, 0.23f, 0, 0.11f, 1)); F.push_back(lens(3, 1.4f, 1, -0.2f, 0)); F.push_back(lens(6, 0.9f, 4, 0.3f, 1)); F.push_back(lens(5, 0.5f, -1, 0, 0)); }
    for (unsigned depth : {2u, 3u}) {
        s.add(sfmt("chains-of-%u", depth), ipow(F.size(), depth), [=](uint64_t i) { std::vector<ref::Deform> v; for (int k : seq(i, F.size(), depth)) v.push_back(F[k]); position_case(v, int(i % 3) - 2, false); }, [=](uint64_t i) { std::string r = src_str(int(i % 3) - 2); for (int k : seq(i, F.size(), depth)) r += "; " + dstr(F[k]); return r; });
        s.add(sfmt("baked-chains-of-%u", depth), ipow(F.size(), depth) * NS, [=](uint64_t i) { Digits d(i); int src = int(d(NS)) - 1; std::vector<ref::Deform> v; for (int k : seq(d.i, F.size(), depth)) v.push_back(F[k]); bake_case(v, src, i % 2); }, [=](uint64_t i) { Digits d(i); std::string r = "baked " + src_str(int(d(NS)) - 1); for (int k : seq(d.i, F.size(), depth)) r += "; " + dstr(F[k]); return r; });
    }
    add_large(s, {F[3], F[4], F[5], F[6], F[7], F[1]});
    // several executions and edits of one graph: a lens keeps its own parameters
    static const std::vector<std::pair<int, float>> ed = {{0, 0.3f}, {1, -0.2f}, {2, 0.2f}, {3, 1.5f}, {4, 0.4f}, {5, -0.3f}, {6, 0.7f}, {-1, 0}};
    unsigned depth = s.thorough ? 4 : 3;
    s.add("edit-histories", ipow(ed.size() * 2, depth), [=](uint64_t i) {
        G g; ref::Deform m[2]; Node n[2];
        static const char *nm[7] = {"lens_center_offset_x", "lens_center_offset_y", "distortion", "anamorphic_squeeze", "curvature_x", "curvature_y", "quartic_distortion"};
        for (int k = 0; k < 2; k++) { m[k].lens = true; n[k] = ref::make_lens(g, m[k]); }
        g.con(n[0], n[1]);
        for (int o : seq(i, ed.size() * 2, depth)) {
            int w = o % 2; auto e = ed[o / 2];
            if (e.first < 0) { m[w].dir = !m[w].dir; g.i(n[w], "direction", m[w].dir); } else { m[w].lp[e.first] = m[w].lp[e.first] == e.second ? (e.first == 3 ? 1 : 0) : e.second; g.f(n[w], nm[e.first], m[w].lp[e.first]); }
            REQUIRE(g.exec(n[1]) == ExecuteStatus::kSuccess, "execution did not succeed");
            auto out = g.out(); check_positions(out, {m[0], m[1]}, WINS[2], WINS[2]);
        }
    }, [=](uint64_t i) { std::string r = "two lens nodes:"; for (int o : seq(i, ed.size() * 2, depth)) r += sfmt(" n%d %s %g;", o % 2, ed[o / 2].first < 0 ? "direction" : sfmt("parameter %d", ed[o / 2].first).c_str(), ed[o / 2].second); return r; });
    // long chains: every length, deformers taken in rotation, one mix of them per starting point
    for (int baked = 0; baked < 2; baked++) {
        auto lc = [](uint64_t i) { Digits d(i); size_t a = d(F.size()), st = 1 + d(4), len = d.i + 4; std::vector<ref::Deform> v; for (size_t k = 0; k < len; k++) { auto x = F[(a + k * st) % F.size()]; if (k % 2) x = undo(v.back()); v.push_back(x); } return v; };
        s.add(baked ? "baked-long-chains" : "long-chains", F.size() * 4 * (s.thorough ? 66 : 31), [=](uint64_t i) { auto v = lc(i); if (baked) bake_case(v, int(i % 3), 0); else position_case(v, int(i % 3) - 2, false); }, [=](uint64_t i) { auto v = lc(i); return sfmt("%zu deformers", v.size()) + list_str(v); });
    }
}
Register r15("C15", build_lens);
}
