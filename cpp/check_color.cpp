// C13 grade, C20 pixel data types, C21 colour LUTs.
#include "cat.h"
#include <algorithm>
#include <array>
#include <unistd.h>
using namespace mc;
namespace {
const std::vector<float> probe = {-0.5f, -0.0625f, 0.0f, 0.03125f, 0.1f, 0.25f, 0.4f, 0.5f, 0.7f, 0.875f, 1.0f, 1.25f, 2.0f, 8.0f};
std::vector<float> probe_px(int nch) {
    std::vector<float> v;
    for (size_t i = 0; i < probe.size(); i++) for (int c = 0; c < nch; c++) v.push_back(probe[(i + c * 5) % probe.size()]);
    return v;
}
bool close(double got, double want, double slack = 1) {
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want) || std::fabs(want) > 1e30) return std::isinf(got) || std::fabs(got) > 1e29;
    return std::fabs(got - want) <= slack * (4e-6 + 3e-5 * std::fabs(want));
}
std::string grade_str(const ref::Grade &g) {
    std::string s = g.reverse ? "reverse grade" : "grade";
    for (int k = 0; k < 7; k++) { s += std::string(" ") + ref::grade_param[k] + " ("; for (int c = 0; c < 4; c++) s += sfmt(c ? ",%g" : "%g", g.v[k][c]); s += ")"; }
    return s + sfmt(" mix %g process %d%d%d%d", g.mix, g.p[0], g.p[1], g.p[2], g.p[3]);
}
// Reference of a sequence of grades; `bad` marks results that rounding decides (next to a pole or a root).
double chain_one(const std::vector<ref::Grade> &gs, int c, double x, bool &bad, double &cond) {
    for (auto &g : gs) {
        double m = g.p[c] ? g.mix : 0;
        if (m == 0) continue;
        double a = double(g.v[4][c]) * (double(g.v[3][c]) - g.v[2][c]) / (double(g.v[1][c]) - g.v[0][c]), b = double(g.v[5][c]) + g.v[2][c] - a * g.v[0][c];
        double y = g.one(c, x);
        if (!g.reverse && g.v[6][c] != 1 && std::fabs(a * x + b) < 1e-4) bad = true;
        if (!g.reverse && a * x + b < 0) { double e = 1 / double(g.v[6][c]), f = 1 / g.v[6][c]; if ((e == std::floor(e)) != (f == std::floor(f))) bad = true; }
        if (g.reverse && g.v[6][c] != 1 && (std::fabs(x) < 1e-4 || std::fabs(x - 1) < 1e-5)) bad = true;
        double yh = g.one(c, x + 1e-4), d = std::fabs(yh - y) / 1e-4;
        if (d > 1) cond *= d;
        x = y * m + x * (1 - m);
        if (std::fabs(x) > 1e6) bad = true;
    }
    return x;
}
void check_ops(ocg::StreamData &out, const std::vector<ref::Grade> &gs, const char *what) {
    for (int nch : {1, 3, 4}) {
        auto in = probe_px(nch), got = color_ops(out, in, nch);
        for (size_t i = 0; i < in.size(); i++) {
            int c = nch == 1 ? 3 : int(i % nch);
            bool bad = false; double cond = 1;
            double want = chain_one(gs, c, in[i], bad, cond);
            if (bad) continue;
            REQUIRE(close(got[i], want, cond), "%s: %d-channel pixel, channel %d maps %.8g to %.8g, expected %.8g", what, nch, c, in[i], got[i], want);
        }
    }
}
void grade_case(const std::vector<ref::Grade> &gs, bool bake, int file) {
    G g;
    Node n = file < 0 ? g.make(NodeType::kNull) : cat::reader(g, file);
    ref::Stream s = file < 0 ? ref::placeholder() : cat::stream(file);
    for (auto &x : gs) { Node m = ref::make_grade(g, x); g.con(n, m); n = m; s.ops.push_back(x); }
    REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed");
    auto out = g.out();
    size_t active = 0;
    for (auto &x : gs) if (x.p[0] || x.p[1] || x.p[2] || x.p[3]) active++;
    REQUIRE(out.color_ops_len() <= gs.size(), "%zu pending operations for %zu grades", out.color_ops_len(), gs.size());
    check_ops(out, gs, "pending operations");
    Snap sn = snap(out, false);
    REQUIRE(sn.ndef == 0 && sn.data == s.data && sn.disp == s.disp && sn.dt == s.dt && sn.nch == s.nch, "a grade changed more than colours");
    state(mix(fp(sn), out.color_ops_hash()));
    if (bake) {
        Node v = g.make(NodeType::kViewer); g.i(v, "bake_option", 2); g.i(v, "bake_pixel_data_type", 0); g.con(n, v);
        REQUIRE(g.exec(v) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto o = g.out(); Snap b = snap(o, false);
        REQUIRE(b.nops == 0 && b.nch == s.nch, "baking left %zu operations, %d channels", b.nops, b.nch);
        ref::convert_cs(s, "Linear");
        auto px = b.px();
        REQUIRE(px.size() == s.px.size(), "baked size");
        for (size_t i = 0; i < px.size(); i++) {
            bool bad = false; double cond = 4;
            double want = chain_one(gs, int(i % s.nch), s.px[i], bad, cond);
            if (!bad) REQUIRE(close(px[i], want, cond), "baked pixel %zu channel %zu is %.8g, expected %.8g from %.8g", i / s.nch, i % s.nch, px[i], want, s.px[i]);
        }
        state(fp(b));
    }
}
const std::vector<std::vector<float>> vals[2] = {
    {{0, 0.125f}, {1, 0.75f}, {0, 0.0625f}, {1, 1.5f}, {1, 2}, {0, 0.25f}, {1, 2}},
    {{0, 0.125f, -0.25f}, {1, 0.75f, 2}, {0, 0.0625f, -0.125f}, {1, 1.5f, 0.5f}, {1, 2, 0.25f}, {0, 0.25f, -0.125f}, {1, 2, 0.5f, 2.2f}}};
uint64_t combos(int t) { uint64_t n = 1; for (auto &v : vals[t]) n *= v.size(); return n; }
// channel c takes combination i rotated, so that channels differ
ref::Grade combo(int t, uint64_t i) {
    ref::Grade g;
    for (int c = 0; c < 4; c++) { Digits d(i + c * 7919 % combos(t)); for (int k = 0; k < 7; k++) g.v[k][c] = vals[t][k][d(vals[t][k].size())]; }
    return g;
}
const std::vector<float> mixes = {1, 0.5f, 0, 0.25f, 1.5f};
ref::Grade masked(uint64_t i) {
    Digits d(i); ref::Grade g;
    int m = int(d(16)); for (int c = 0; c < 4; c++) g.p[c] = m >> c & 1;
    g.reverse = int(d(2)); g.mix = d.pick(mixes);
    uint64_t k = d(7);
    if (k < 3) { ref::Grade b = combo(1, k * 1237 + 391); memcpy(g.v, b.v, sizeof g.v); return g; }
    // a different number for every parameter of every channel, each channel in each place
    static const float D[7][4] = {{0.0625f, -0.125f, 0.03125f, -0.25f}, {0.875f, 1.25f, 1.5f, 2}, {0.046875f, -0.0625f, 0.109375f, -0.1875f}, {1.125f, 0.75f, 1.375f, 0.625f}, {1.75f, 0.5f, 1.3125f, 2.5f}, {0.1875f, 0.28125f, -0.03125f, 0.375f}, {2.25f, 0.53125f, 1.5625f, 0.8125f}};
    for (int q = 0; q < 7; q++) for (int c = 0; c < 4; c++) g.v[q][c] = D[q][(c + k) % 4];
    return g;
}
std::vector<ref::Grade> shelf() {
    std::vector<ref::Grade> v; v.push_back({});
    for (int k = 0; k < 7; k++) { ref::Grade g; for (int c = 0; c < 3; c++) g.v[k][c] = vals[1][k][1 + (c & 1)]; v.push_back(g); }
    ref::Grade g = combo(1, 2221); g.mix = 0.5f; g.p[1] = 0; g.p[3] = 1; v.push_back(g);
    g = combo(1, 911); g.reverse = 1; v.push_back(g);
    g = {}; g.p[0] = g.p[1] = g.p[2] = 0; g.v[4][0] = 9; v.push_back(g);
    return v;
}
void build_grade(Suite &s) {
    s.fixture = cat::write_files;
    s.assumptions = {"parameters on a grid, white point different from black point, gamma positive; values next to a root or pole of the formula not compared", "clamp and premult attributes, which the library does not implement yet, at any value have no effect and are not covered"};
    int t = 1;
    s.add("parameter-grid", combos(t) * 2 * (s.thorough ? mixes.size() : 2), [=](uint64_t i) { Digits d(i); int rev = int(d(2)); float mx = g_suite->thorough ? d.pick(mixes) : mixes[d(2)]; ref::Grade g = combo(t, d.i); g.reverse = rev; g.mix = mx; g.p[3] = 1; grade_case({g}, i % 16 == 3, int(i / 16 % 5)); },
        [=](uint64_t i) { Digits d(i); int rev = int(d(2)); float mx = g_suite->thorough ? d.pick(mixes) : mixes[d(2)]; ref::Grade g = combo(t, d.i); g.reverse = rev; g.mix = mx; g.p[3] = 1; return grade_str(g); });
    s.add("channel-masks", 16 * 2 * mixes.size() * 7 * cat::SMALL, [=](uint64_t i) { grade_case({masked(i / cat::SMALL)}, true, int(i % cat::SMALL)); },
        [=](uint64_t i) { return std::string(cat::files()[i % cat::SMALL].key) + ", " + grade_str(masked(i / cat::SMALL)); });
    s.add("one-parameter", 28 * 2 * 3, [=](uint64_t i) { Digits d(i); ref::Grade g; int k = int(d(7)), c = int(d(4)); g.reverse = int(d(2)); g.p[3] = 1; g.v[k][c] = vals[1][k][1] + 0.0625f * d(3); grade_case({g}, true, 0); },
        [=](uint64_t i) { Digits d(i); ref::Grade g; int k = int(d(7)), c = int(d(4)); g.reverse = int(d(2)); g.p[3] = 1; g.v[k][c] = vals[1][k][1] + 0.0625f * d(3); return grade_str(g); });
    static std::vector<ref::Grade> sh; sh = shelf();
    int n = int(sh.size());
    s.add("sequences-of-grades", uint64_t(n) * n * n * (s.thorough ? n : 1), [=](uint64_t i) { Digits d(i); std::vector<ref::Grade> v; for (int k = 0; k < (g_suite->thorough ? 4 : 3); k++) v.push_back(sh[d(n)]); grade_case(v, true, int(i % 3)); },
        [=](uint64_t i) { Digits d(i); std::string r; for (int k = 0; k < (g_suite->thorough ? 4 : 3); k++) r += grade_str(sh[d(n)]) + "; "; return r; });
    // reverse undoes
    s.add("reverse-undoes", combos(t) * 2, [=](uint64_t i) {
        Digits d(i); bool rev_first = d(2); ref::Grade g = combo(t, d.i); g.p[3] = 1; ref::Grade r = g; r.reverse = 1;
        G gr; Node a = ref::make_grade(gr, rev_first ? r : g), b = ref::make_grade(gr, rev_first ? g : r); gr.con(a, b);
        REQUIRE(gr.exec(b) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = gr.out();
        auto in = probe_px(4), got = color_ops(out, in, 4);
        uint64_t h = 1;
        for (size_t k = 0; k < in.size(); k++) {
            int c = int(k % 4);
            double x = in[k], A = double(g.v[4][c]) * (double(g.v[3][c]) - g.v[2][c]) / (double(g.v[1][c]) - g.v[0][c]);
            double graded = rev_first ? x : g.one(c, x), lin = rev_first ? std::pow(x, double(g.v[6][c])) : A * x + g.v[5][c] + g.v[2][c] - A * g.v[0][c];
            if (!(graded >= 0.001 && graded <= 1) || !(lin >= 1e-3)) continue;
            double tol = 2e-5 * (1 + std::fabs(x)) * std::max(1.0, 4 / std::fabs(A)) * (g.v[6][c] != 1 ? 8 : 1);
            REQUIRE(std::fabs(got[k] - x) <= tol, "channel %d: %.8g comes back as %.8g (graded value %.8g)", c, x, got[k], graded);
            h = mix(h, k);
        }
        state(mix(h, i));
    }, [=](uint64_t i) { Digits d(i); bool rf = d(2); return grade_str(combo(t, d.i)) + (rf ? " applied after its reverse" : " and its reverse"); });
    // single parameters, and black and white together, over a wide range of values
    static const std::vector<float> wide = {-100, -2, -1, -0.5f, -0.01f, -1e-3f, -1e-4f, 0, 1e-4f, 1e-3f, 0.01f, 0.1f, 0.5f, 0.9995f, 1, 1.0005f, 1.01f, 2, 10, 100, 1e4f};
    static const std::vector<float> wmix = {1, 0.5f, -0.5f, 3, 1e-3f, 0.9995f};
    auto wone = [](uint64_t i) { Digits d(i); ref::Grade g; g.p[3] = 1; g.reverse = int(d(2)); g.mix = d.pick(wmix); int k = int(d(7)), c = int(d(5)); float v = d.pick(wide); for (int q = 0; q < 4; q++) if (c == 4 || c == q) g.v[k][q] = v; return g; };
    auto sane = [](const ref::Grade &g) { for (int c = 0; c < 4; c++) if (!(g.v[6][c] >= 0.01f && g.v[6][c] <= 100) || g.v[0][c] == g.v[1][c] || g.v[2][c] == g.v[3][c] || (g.reverse && g.v[4][c] == 0)) return false; return true; };
    s.add("wide-parameters", 2 * wmix.size() * 7 * 5 * wide.size(), [=](uint64_t i) { ref::Grade g = wone(i); if (sane(g)) grade_case({g}, i % 4 == 0, int(i % 3)); }, [=](uint64_t i) { return grade_str(wone(i)); });
    auto wpair = [](uint64_t i) { Digits d(i); ref::Grade g; g.p[3] = 1; g.reverse = int(d(2)); static const int P[4][2] = {{0, 1}, {2, 3}, {4, 5}, {3, 6}}; auto &p = P[d(4)]; float a = d.pick(wide), b = d.pick(wide); for (int c = 0; c < 4; c++) { g.v[p[0]][c] = a; g.v[p[1]][c] = b; } return g; };
    s.add("wide-parameter-pairs", 2 * 4 * wide.size() * wide.size(), [=](uint64_t i) { ref::Grade g = wpair(i); if (sane(g)) grade_case({g}, i % 4 == 0, int(i % 3)); }, [=](uint64_t i) { return grade_str(wpair(i)); });
    // infinities, NaN, huge and tiny values in one channel: the other channels do not notice
    static const std::vector<float> odd = {INFINITY, -INFINITY, NAN, 3e38f, -3e38f, 65504, 1e-38f, -0.0f};
    auto ovd = [](uint64_t i) { Digits d(i); d(odd.size()); d(4); ref::Grade g; int m = int(d(16)); for (int c = 0; c < 4; c++) g.p[c] = m >> c & 1; g.mix = d.pick(std::vector<float>{1, 0.5f, 0}); int k = int(d(4)); for (int c = 0; c < 4; c++) { if (k == 1) g.v[4][c] = 2; if (k == 2) g.v[5][c] = 0.25f; if (k == 3) g.v[6][c] = 2; } return g; };
    s.add("unusual-values", odd.size() * 4 * 16 * 3 * 4, [=](uint64_t i) {
        Digits d(i); float o = d.pick(odd); int at = int(d(4)); ref::Grade g = ovd(i);
        G gr; Node n = ref::make_grade(gr, g); REQUIRE(gr.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = gr.out();
        for (int nch : {3, 4}) {
            if (at >= nch) continue;
            std::vector<float> in; for (int q = 0; q < 3; q++) for (int c = 0; c < nch; c++) in.push_back(q == 1 && c == at ? o : 0.25f + 0.125f * c + 0.0625f * q);
            auto got = color_ops(out, in, nch);
            for (size_t k = 0; k < in.size(); k++) {
                int c = int(k % nch); bool hit = int(k) == nch + at; double m = g.p[c] ? g.mix : 0, want = g.one(c, in[k]) * m + in[k] * (1 - m); if (m == 0) want = in[k]; if (m == 1) want = g.one(c, in[k]);
                bool ok = !hit ? close(got[k], want) : std::isnan(want) ? std::isnan(got[k]) : std::fabs(want) > 3e38 ? (want > 0 ? got[k] >= 3e38 : got[k] <= -3e38) : std::fabs(got[k] - want) <= 1e-5 * std::fabs(want) + 1e-7;
                REQUIRE(ok, "%d-channel pixel with %g in channel %d: value %zu maps %.8g to %.8g, expected %.8g", nch, o, at, k, in[k], got[k], want);
            }
        }
        state(i);
    }, [=](uint64_t i) { Digits d(i); float o = d.pick(odd); return grade_str(ovd(i)) + sfmt(" on %g in channel %d", o, int(d(4))); });
    // more pixels than fit in 16 bits: pending and baked
    s.add("large", sh.size() * 2, [=](uint64_t i) {
        const ref::Grade &x = sh[i / 2]; if (i % 2) { grade_case({x, sh[1 + i / 2 % 7]}, true, cat::SMALL); return; }
        G g; Node n = ref::make_grade(g, x); REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out();
        for (int nch : {1, 3, 4}) for (size_t cnt : {size_t(65536), size_t(65537), size_t(90001)}) {
            std::vector<float> in(cnt * nch); for (size_t k = 0; k < in.size(); k++) in[k] = float(k * 2654435761u % 4093) / 2048 - 0.25f;
            auto got = color_ops(out, in, nch);
            for (size_t k = 0; k < in.size(); k++) { bool bad = false; double cond = 1, want = chain_one({x}, nch == 1 ? 3 : int(k % nch), in[k], bad, cond); if (!bad) REQUIRE(close(got[k], want, cond), "%zu pixels of %d channels: value %zu maps %.8g to %.8g, expected %.8g", cnt, nch, k, in[k], got[k], want); }
            state(fnv(got.data(), got.size() * 4));
        }
    }, [=](uint64_t i) { return grade_str(sh[i / 2]) + (i % 2 ? ", baked into a large image" : ", many pixels"); });
    // long chains of grades
    s.add("long-chains", 66 * 7, [=](uint64_t i) {
        Digits d(i); size_t len = 4 + d(66), a = d.i; std::vector<ref::Grade> v;
        for (size_t k = 0; k < len; k++) { ref::Grade g; int w = int((a + k) % 7); for (int c = 0; c < 4; c++) { if (w < 2) g.v[5][c] = w ? -0.03125f : 0.03125f; else if (w < 4) g.v[4][c] = w == 2 ? 1.25f : 0.75f; else if (w < 6) g.v[3][c] = w == 4 ? 1.125f : 0.875f; else g.v[2][c] = 0.0625f; } g.p[k % 3] = 0; g.p[3] = k % 2; v.push_back(g); }
        grade_case(v, true, int(i % 3));
    }, [=](uint64_t i) { Digits d(i); size_t len = 4 + d(66); return sfmt("%zu grades in a row, starting with kind %d", len, int(d.i)); });
    // graph shapes: enabling and disabling grades of a chain
    s.add("enabled-subsets", 64 * 6, [=](uint64_t i) {
        Digits d(i); int m = int(d(64)), rot = int(d(6)); G g; Node n = cat::reader(g, 0); std::vector<ref::Grade> act;
        for (int k = 0; k < 6; k++) { const ref::Grade &x = sh[1 + (k + rot) % 7]; Node q = ref::make_grade(g, x); if (!(m >> k & 1)) g.i(q, "enable", 0); else act.push_back(x); g.con(n, q); n = q; }
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); check_ops(out, act, "pending operations"); state(mix(i, out.color_ops_hash()));
    }, [=](uint64_t i) { Digits d(i); int m = int(d(64)); return sfmt("chain of six grades, enabled mask %d, rotation %d", m, int(d(6))); });
}
Register r13("C13", build_grade);

// ---------------------------------------------------------------- C20
// Expected code or float of converting value `v` (in the source type's own code) to `to`.
struct Value { int dt; uint32_t code; double x; };
Value value_of(int dt, uint32_t code) {
    Value v{dt, code, 0};
    if (dt == 0) { float f; memcpy(&f, &code, 4); v.x = f; } else if (dt == 1) v.x = half_to_float(uint16_t(code)); else v.x = code / (dt == 2 ? 255.0 : 65535.0);
    return v;
}
std::string conv_check(const Value &s, const Value &d) {
    double x = s.x;
    if (d.dt >= 2) {
        double m = d.dt == 2 ? 255 : 65535;
        if (std::isnan(x)) return "";
        double w = std::min(std::max(x, 0.0), 1.0) * m;
        if (s.dt == 3 && d.dt == 2) { if (std::fabs(double(d.code) - w) > 0.5 + 1e-3) return sfmt("expected code near %.4f", w); return ""; }
        if (s.dt == 2 && d.dt == 3) { if (d.code != s.code * 257) return sfmt("expected code %u", s.code * 257); return ""; }
        if (s.dt == d.dt) { if (d.code != s.code) return sfmt("expected the same code %u", s.code); return ""; }
        if (std::fabs(double(d.code) - w) > 0.5 + 5e-3) return sfmt("expected code near %.4f", w);
        return "";
    }
    if (std::isnan(x)) return std::isnan(d.x) ? "" : "expected NaN";
    if (d.dt == 0) { if (s.dt <= 1 ? !(d.x == x) : std::fabs(d.x - x) > 6e-8) return sfmt("expected %.9g", x); return ""; }
    double w = half_to_float(float_to_half(float(x)));
    if (s.dt == 1) { if (!(d.x == x)) return sfmt("expected %.9g", x); return ""; }
    if (!(d.x == w)) { // ties may go either way when the source is not exact in float
        if (s.dt == 0 || std::fabs(d.x - x) > std::fabs(w - x) * (1 + 1e-4) + 1e-9) return sfmt("expected %.9g", w);
    }
    return "";
}
Value decode(int dt, const uint8_t *p, size_t i) {
    if (dt == 0) { uint32_t c; memcpy(&c, p + i * 4, 4); return value_of(0, c); }
    if (dt == 2) return value_of(2, p[i]);
    uint16_t c; memcpy(&c, p + i * 2, 2); return value_of(dt, c);
}
const std::vector<uint32_t> &f32_codes() {
    static std::vector<uint32_t> v;
    if (v.empty()) {
        auto put = [&](float f) { uint32_t c; memcpy(&c, &f, 4); v.push_back(c); };
        for (int k = 0; k <= 255; k++) for (float e : {-0.49f, -0.25f, 0.0f, 0.25f, 0.49f}) put((k + e) / 255.0f);
        for (int k = 0; k <= 65535; k += 1) put(k / 65535.0f);
        for (int k = 0; k <= 65535; k += 13) for (float e : {-0.4f, 0.4f}) put((k + e) / 65535.0f);
        for (int k = 0; k < 0x7c00; k++) put(half_to_float(uint16_t(k)));
        for (int k = 0; k < 0x7c00; k += 7) put(-half_to_float(uint16_t(k)));
        for (float f : {1e-30f, -1e-30f, 65504.0f, 65519.0f, 65520.0f, 1e9f, -1e9f, 1e30f, 3.4e38f, 1.0000001f, 0.99999994f, -0.0f, INFINITY, -INFINITY}) put(f);
        while (v.size() % 12) put(0.5f);
    }
    return v;
}
std::vector<uint8_t> all_codes(int dt, size_t &n) {
    std::vector<uint8_t> b;
    if (dt == 0) { auto &c = f32_codes(); n = c.size(); b.resize(n * 4); memcpy(b.data(), c.data(), n * 4); }
    else if (dt == 2) { n = 768; for (size_t i = 0; i < n; i++) b.push_back(uint8_t(i % 256)); }
    else { n = 65536 * 3; for (size_t i = 0; i < n; i++) { uint16_t c = uint16_t(i % 65536); b.push_back(c & 255); b.push_back(c >> 8); } }
    return b;
}
const char *exts[4] = {"exr", "exr", "png", "tif"};
// file with every value of the type; exr holds the bits exactly
std::string vfile(int dt) { return g_suite->dir + sfmt("/all%d.%s", dt, exts[dt]); }
ImgFile vimg(int dt) {
    ImgFile f{vfile(dt), {}, {}, 4, dt, {}};
    int w = dt == 2 ? 16 : 256;
    size_t n; auto b = all_codes(dt, n);
    size_t px = dt == 2 ? 256 : dt == 0 ? n / 4 : 65536;
    int h = int((px + w - 1) / w);
    f.disp = f.data = {0, 0, w, h};
    for (size_t i = 0; i < size_t(w) * h; i++) for (int c = 0; c < 4; c++) {
        double x;
        if (dt == 0) { size_t k = (i * 4 + c) % n; x = decode(0, b.data(), k).x; if (!std::isfinite(x) || std::fabs(x) > 65504) x = 0.25; }
        else { uint32_t code = uint32_t(i * (c == 3 ? 1 : 1) + c * 97) % (dt == 2 ? 256 : 65536); if (c == 3 && dt >= 2) code = dt == 2 ? 255 : 65535; x = value_of(dt, code).x; if (!std::isfinite(x)) x = 0.25; }
        f.px.push_back(float(x));
    }
    return f;
}
void build_types(Suite &s) {
    s.fixture = [] { for (int dt = 0; dt < 4; dt++) write_file(vimg(dt)); cat::write_files(); };
    s.assumptions = {"every 8-bit, 16-bit and half value; float values: every 8-bit, 16-bit and half value, values between them, extremes"};
    if (have_hook() && ocg_mc_convert) {
        static const std::vector<std::array<int, 3>> shapes = {{0, 1, 1}, {0, 1, 3}, {0, 1, 4}, {0, 2, 3}, {0, 2, 1}};
        s.add("direct-all-values", 16 * shapes.size(), [=](uint64_t i) {
            Digits d(i); int from = int(d(4)), to = int(d(4)); auto sh = d.pick(shapes);
            size_t n; auto b = all_codes(from, n);
            int per = sh[1] * sh[2]; int w = int(n / per); n = size_t(w) * per;
            std::vector<uint8_t> out(n * 4 + 64, 0xee);
            transition();
            int64_t r = ocg_mc_convert(b.data(), w, sh[1], sh[2], from, to, out.data(), out.size());
            REQUIRE(r == int64_t(n * dt_bytes(to)), "result has %lld bytes, expected %zu (or the wrong shape)", (long long)r, n * dt_bytes(to));
            for (size_t k = 0; k < n; k++) {
                Value a = decode(from, b.data(), k), c = decode(to, out.data(), k);
                std::string e = conv_check(a, c);
                REQUIRE(e.empty(), "value %zu: %s %.9g (0x%x) becomes %s %.9g (0x%x), %s", k, dt_name(from), a.x, a.code, dt_name(to), c.x, c.code, e.c_str());
                state(mix(mix(from * 4 + to, a.code), c.code));
            }
        }, [=](uint64_t i) { Digits d(i); int from = int(d(4)), to = int(d(4)); auto sh = d.pick(shapes); return sfmt("every %s value to %s, %d rows, %d channels", dt_name(from), dt_name(to), sh[1], sh[2]); });
        // trips through a wider type, and order
        s.add("round-trips", 64, [=](uint64_t i) {
            Digits d(i); int a = int(d(4)), b = int(d(4)), c = int(d(4));
            size_t n; auto in = all_codes(a, n);
            std::vector<uint8_t> m(n * 4), o(n * 4);
            transition(2);
            REQUIRE(ocg_mc_convert(in.data(), int(n / 4), 2, 2, a, b, m.data(), m.size()) == int64_t(n * dt_bytes(b)), "size");
            REQUIRE(ocg_mc_convert(m.data(), int(n / 4), 2, 2, b, c, o.data(), o.size()) == int64_t(n * dt_bytes(c)), "size");
            // a -> b -> a loses nothing if b represents every value of a
            bool wide = a == b || (a == 2 && b != 2) || (a == 1 && b == 0) || (a == 3 && b == 0);
            double pin = -1e300, pout = -1e300; (void)pin; (void)pout;
            for (size_t k = 0; k < n; k++) {
                Value x = decode(a, in.data(), k), y = decode(c, o.data(), k);
                if (std::isnan(x.x)) continue;
                if (wide && c == a) REQUIRE(x.code == y.code || x.x == y.x, "%s 0x%x comes back as 0x%x through %s", dt_name(a), x.code, y.code, dt_name(b));
                if (x.x <= 0 && a >= 2) REQUIRE(y.x == 0, "black becomes %g", y.x);
                if (x.x == 1) REQUIRE(y.x == 1, "white becomes %.9g", y.x);
            }
            // order
            std::vector<std::pair<double, double>> v;
            for (size_t k = 0; k < n; k++) { double x = decode(a, in.data(), k).x; if (!std::isnan(x)) v.push_back({x, decode(c, o.data(), k).x}); }
            std::sort(v.begin(), v.end());
            for (size_t k = 1; k < v.size(); k++) REQUIRE(v[k].second >= v[k - 1].second, "order lost: %.9g -> %.9g but %.9g -> %.9g", v[k - 1].first, v[k - 1].second, v[k].first, v[k].second);
            state(fnv(o.data(), n * dt_bytes(c)));
        }, [](uint64_t i) { Digits d(i); int a = int(d(4)), b = int(d(4)), c = int(d(4)); return sfmt("%s -> %s -> %s", dt_name(a), dt_name(b), dt_name(c)); });
    }
    // through the public interface: read, bake to the type, byte buffer
    s.add("through-viewer", 4 * 4 * 4 * 3, [=](uint64_t i) {
        Digits d(i); int from = int(d(4)), to = int(d(4)), to2 = int(d(4)), opt = 1 + int(d(3));
        G g; Node r = g.read(vfile(from)), v = g.make(NodeType::kViewer), v2 = g.make(NodeType::kViewer);
        REQUIRE(g.exec(r) == ExecuteStatus::kSuccess, "cannot read");
        Snap a = snap(g.out(), false);
        REQUIRE(a.dt == from && a.w == vimg(from).data.w(), "read as %s", dt_name(a.dt));
        REQUIRE(a.bytes.size() == size_t(a.w) * a.h * a.nch * dt_bytes(from), "byte buffer has %zu bytes for %dx%dx%d %s", a.bytes.size(), a.w, a.h, a.nch, dt_name(from));
        for (Node n : {v, v2}) { g.i(n, "bake_option", opt); if (!a.cs.empty()) g.s(n, "bake_color_space", opt == 1 ? a.cs : "Linear"); }
        g.i(v, "bake_pixel_data_type", to); g.i(v2, "bake_pixel_data_type", to2); g.con(r, v); g.con(v, v2);
        Snap p = a;
        for (int step = 0; step < 2; step++) {
            REQUIRE(g.exec(step ? v2 : v) == ExecuteStatus::kSuccess, "execution did not succeed");
            auto out = g.out(); Snap b = snap(out, false);
            int t = step ? to2 : to;
            REQUIRE(b.dt == t && b.w == a.w && b.h == a.h && b.nch == a.nch, "baked to %dx%dx%d %s", b.w, b.h, b.nch, dt_name(b.dt));
            REQUIRE(b.bytes.size() == size_t(b.w) * b.h * b.nch * dt_bytes(t), "byte buffer has %zu bytes for %dx%dx%d %s", b.bytes.size(), b.w, b.h, b.nch, dt_name(t));
            if (step || opt == 1 || p.cs == "Linear" || p.cs.empty())
                for (size_t k = 0; k < b.bytes.size() / dt_bytes(t); k++) {
                    Value x = decode(p.dt, p.bytes.data(), k), y = decode(t, b.bytes.data(), k);
                    std::string e = conv_check(x, y);
                    REQUIRE(e.empty(), "value %zu: %s %.9g (0x%x) becomes %s %.9g (0x%x), %s", k, dt_name(p.dt), x.x, x.code, dt_name(t), y.x, y.code, e.c_str());
                }
            state(fp(b));
            p = b;
        }
    }, [](uint64_t i) { Digits d(i); int from = int(d(4)), to = int(d(4)), to2 = int(d(4)), opt = 1 + int(d(3)); return sfmt("every %s value read, baked (option %d) to %s, then to %s", dt_name(from), opt, dt_name(to), dt_name(to2)); });
    s.add("shapes", (cat::SMALL + 1) * 4 * 4, [=](uint64_t i) {
        Digits d(i); int f = int(d(cat::SMALL + 1)), to = int(d(4)), to2 = int(d(4));
        G g; Node r = cat::reader(g, f), n = r; Snap p;
        REQUIRE(g.exec(r) == ExecuteStatus::kSuccess, "cannot read"); p = snap(g.out(), false);
        for (int t : {to, to2}) {
            Node v = g.make(NodeType::kViewer); g.i(v, "bake_option", 1); g.s(v, "bake_color_space", p.cs.empty() ? "Linear" : p.cs); g.i(v, "bake_pixel_data_type", t); g.con(n, v); n = v;
            REQUIRE(g.exec(v) == ExecuteStatus::kSuccess, "execution did not succeed");
            Snap b = snap(g.out(), false);
            REQUIRE(b.dt == t && b.w == p.w && b.h == p.h && b.nch == p.nch && b.data == p.data && b.disp == p.disp, "shape changed: %dx%dx%d %s", b.w, b.h, b.nch, b.data.str().c_str());
            REQUIRE(b.bytes.size() == size_t(b.w) * b.h * b.nch * dt_bytes(t), "byte buffer has %zu bytes", b.bytes.size());
            for (size_t k = 0; k < b.bytes.size() / dt_bytes(t); k++) { std::string e = conv_check(decode(p.dt, p.bytes.data(), k), decode(t, b.bytes.data(), k)); REQUIRE(e.empty(), "value %zu of %s to %s: %s", k, dt_name(p.dt), dt_name(t), e.c_str()); }
            state(fp(b)); p = b;
        }
    }, [](uint64_t i) { Digits d(i); int f = int(d(cat::SMALL + 1)), to = int(d(4)), to2 = int(d(4)); return sfmt("%s to %s to %s", cat::files()[f].key, dt_name(to), dt_name(to2)); });
}
Register r20("C20", build_types);

// ---------------------------------------------------------------- C21
std::vector<float> lut_px(ocg::internal::ImageShared &img, int edge, int nch, const char *what) {
    auto &pb = *img.pixel_block;
    int w = nch == 3 ? edge * edge : edge, h = nch == 3 ? edge : 1;
    REQUIRE(pb.width() == w && pb.height() == h && pb.num_channels() == nch && int(pb.data_type()) == 0, "%s: %dx%d, %d channels, type %d; expected %dx%d", what, pb.width(), pb.height(), pb.num_channels(), int(pb.data_type()), w, h);
    Win full{0, 0, w, h};
    for (auto &b : {img.data_window, img.display_window}) REQUIRE((Win{b.min_x, b.min_y, b.max_x, b.max_y} == full), "%s: windows do not cover the LUT", what);
    auto sl = pb.as_slice_f32();
    REQUIRE(sl.size() == size_t(w) * h * nch, "%s: %zu values", what, sl.size());
    return std::vector<float>(sl.begin(), sl.end());
}
double lattice(size_t i, int c, int edge) { size_t k = c == 0 ? i % edge : c == 1 ? i / edge % edge : i / edge / edge; return double(k) / (edge - 1); }
void check_ops_lut(const std::vector<float> &px, const std::vector<ref::Grade> &gs, int edge, int nch, const char *what) {
    for (size_t k = 0; k < px.size(); k++) {
        int c = int(k % nch); size_t i = k / nch;
        double x = nch == 1 ? double(i) / (edge - 1) : lattice(i, c, edge), cond = 1; bool bad = false;
        double w = chain_one(gs, nch == 1 ? 3 : c, x, bad, cond);
        if (!bad) REQUIRE(close(px[k], w, cond), "%s: entry %zu channel %d (value %.7g) is %.7g, expected %.7g", what, i, c, x, px[k], w);
    }
}
std::vector<ref::Grade> lut_grades() {
    std::vector<ref::Grade> v;
    auto add = [&](std::function<void(ref::Grade &)> f) { ref::Grade g; f(g); v.push_back(g); };
    add([](ref::Grade &g) { g.v[4][0] = 2; g.v[4][1] = 3; g.v[4][2] = 0.5f; g.p[3] = 1; g.v[4][3] = 0.25f; });
    add([](ref::Grade &g) { g.v[4][0] = 2; g.v[4][1] = 3; g.v[4][2] = 0.5f; });
    add([](ref::Grade &g) { g.v[5][0] = 0.25f; g.v[5][1] = 0.5f; g.v[5][2] = 0.125f; g.v[5][3] = 0.0625f; g.p[3] = 1; });
    add([](ref::Grade &g) { g.v[6][0] = 2; g.v[6][1] = 0.5f; g.v[6][2] = 1.5f; g.v[6][3] = 2; g.p[3] = 1; g.mix = 0.5f; });
    add([](ref::Grade &g) { g.v[0][0] = -0.25f; g.v[1][0] = 2; g.v[2][1] = 0.25f; g.v[3][2] = 0.5f; g.p[1] = 0; });
    add([](ref::Grade &g) { g.reverse = 1; g.v[6][0] = 2; g.v[4][1] = 2; g.v[5][2] = 0.25f; });
    return v;
}
struct Q { int kind, a, edge, nch; };    // kind 0: ops LUT of chain a; 1: Linear->sRGB, 2: sRGB->Linear
void build_lut(Suite &s) {
    s.fixture = cat::write_files;
    s.assumptions = {"colour spaces Linear and sRGB; grades as colour operations"};
    static std::vector<ref::Grade> gr; gr = lut_grades();
    static std::vector<std::vector<int>> chains;
    chains.clear(); chains.push_back({});
    for (int a = 0; a < int(gr.size()); a++) chains.push_back({a});
    for (int a = 0; a < int(gr.size()); a++) for (int b = 0; b < int(gr.size()); b++) chains.push_back({a, b});
    auto build = [=](G &g, const std::vector<int> &c) { Node n = g.make(NodeType::kNull); for (int k : c) { Node m = ref::make_grade(g, gr[k]); g.con(n, m); n = m; } return n; };
    auto refs = [=](const std::vector<int> &c) { std::vector<ref::Grade> v; for (int k : c) v.push_back(gr[k]); return v; };
    auto cstr = [=](const std::vector<int> &c) { std::string r = "operations"; for (int k : c) r += sfmt(" %d", k); return r; };
    static std::vector<int> edges; edges.clear();
    for (int e = 2; e <= (s.thorough ? 40 : 17); e++) edges.push_back(e);
    for (int e : {20, 32, 33, 64}) edges.push_back(e);
    s.add("operation-luts", chains.size() * edges.size() * 2, [=](uint64_t i) {
        Digits d(i); int nch = d(2) ? 3 : 1; auto c = d.pick(chains); int e = d.pick(edges);
        if (e > 20 && c.size() > 1 && nch == 3 && !g_suite->thorough) return;
        G g; REQUIRE(g.exec(build(g, c)) == ExecuteStatus::kSuccess, "execution"); auto out = g.out();
        for (size_t cap : {size_t(0), size_t(1) << 24}) {
            auto cache = make_cache(cap); std::vector<float> first;
            for (int rep = 0; rep < (cap ? 2 : 1); rep++) {
                transition(); auto img = ocg::get_color_ops_lut(out, e, nch, cache);
                auto px = lut_px(img, e, nch, rep ? "second query" : "LUT");
                check_ops_lut(px, refs(c), e, nch, rep ? "second query" : "LUT");
                REQUIRE(first.empty() || memcmp(first.data(), px.data(), px.size() * 4) == 0, "asking twice gives another LUT");
                REQUIRE(std::string(img.spec.color_space) == "Linear", "colour space '%s'", std::string(img.spec.color_space).c_str());
                first = px; state(fnv(px.data(), px.size() * 4));
            }
        }
    }, [=](uint64_t i) { Digits d(i); int nch = d(2) ? 3 : 1; auto c = d.pick(chains); return cstr(c) + sfmt(", edge %d, %d channels", d.pick(edges), nch); });
    static const std::vector<std::pair<const char *, const char *>> css = {{"Linear", "sRGB"}, {"sRGB", "Linear"}, {"Linear", "Linear"}, {"sRGB", "sRGB"}, {"Linear", "Rec709"}, {"Rec709", "Linear"}, {"Rec709", "Rec709"}, {"Linear", "GammaCorrected2.2"}, {"GammaCorrected2.2", "Linear"}};
    auto check_cs = [](const std::vector<float> &px, int e, const std::string &a, const std::string &b, const char *what) {
        for (size_t k = 0; k < px.size(); k++) {
            double x = lattice(k / 3, int(k % 3), e), w = a == b ? x : ref::curve_from_linear(b, ref::curve_to_linear(a, x));
            REQUIRE(std::fabs(px[k] - w) <= 3e-5, "%s: entry %zu channel %zu (value %.7g) is %.7g, expected %.7g", what, k / 3, k % 3, x, px[k], w);
        }
    };
    s.add("colour-space-luts", css.size() * edges.size(), [=](uint64_t i) {
        Digits d(i); auto cs = d.pick(css); int e = d.pick(edges);
        for (size_t cap : {size_t(0), size_t(1) << 24}) {
            auto cache = make_cache(cap);
            for (int rep = 0; rep < (cap ? 2 : 1); rep++) {
                transition(); auto img = ocg::get_color_transform_3dlut(cs.first, cs.second, e, cache);
                auto px = lut_px(img, e, 3, rep ? "second query" : "LUT");
                check_cs(px, e, cs.first, cs.second, rep ? "second query" : "LUT");
                REQUIRE(std::string(img.spec.color_space) == cs.second, "colour space '%s'", std::string(img.spec.color_space).c_str());
                state(fnv(px.data(), px.size() * 4));
            }
        }
    }, [=](uint64_t i) { Digits d(i); auto cs = d.pick(css); return sfmt("%s to %s, edge %d", cs.first, cs.second, d.pick(edges)); });
    // histories of queries on one shared cache
    static std::vector<Q> qs; qs.clear();
    for (int a : {0, 1, 2, 3}) for (int e : {2, 3}) for (int n : {1, 3}) qs.push_back({0, a, e, n});
    for (int a : {0, 1, 2, 3, 4, 5}) for (int e : {2, 3}) qs.push_back({1, a, e, 3});
    static const std::vector<size_t> caps = {0, 40, 200, 400, 1 << 20};
    unsigned depth = s.thorough ? 4 : 3;
    auto qstr = [=](const Q &q) { return q.kind == 0 ? cstr(chains[q.a]) + sfmt(" edge %d channels %d", q.edge, q.nch) : sfmt("%s to %s edge %d", css[q.a].first, css[q.a].second, q.edge); };
    s.add("query-histories", ipow(qs.size(), depth) * caps.size(), [=](uint64_t i) {
        Digits d(i); size_t cap = d.pick(caps); auto sq = seq(d.i, qs.size(), depth);
        auto cache = make_cache(cap);
        static G g; static std::vector<ocg::StreamData> st;
        if (st.empty()) for (int a = 0; a < 4; a++) { g.exec(build(g, chains[a])); st.push_back(g.out()); }
        for (int k : sq) {
            const Q &q = qs[k]; transition();
            if (q.kind == 0) { auto img = ocg::get_color_ops_lut(st[q.a], q.edge, q.nch, cache); auto px = lut_px(img, q.edge, q.nch, qstr(q).c_str()); check_ops_lut(px, refs(chains[q.a]), q.edge, q.nch, qstr(q).c_str()); state(mix(fnv(px.data(), px.size() * 4), cache->used_bytes())); }
            else { auto &cs = css[q.a]; auto img = ocg::get_color_transform_3dlut(cs.first, cs.second, q.edge, cache); auto px = lut_px(img, q.edge, 3, qstr(q).c_str()); check_cs(px, q.edge, cs.first, cs.second, qstr(q).c_str()); REQUIRE(std::string(img.spec.color_space) == cs.second, "%s: colour space '%s'", qstr(q).c_str(), std::string(img.spec.color_space).c_str()); state(mix(fnv(px.data(), px.size() * 4), cache->used_bytes())); }
        }
    }, [=](uint64_t i) { Digits d(i); size_t cap = d.pick(caps); std::string r = sfmt("cache of %zu bytes:", cap); for (int k : seq(d.i, qs.size(), depth)) r += " " + qstr(qs[k]) + ";"; return r; });
    // every ordered pair of requests over many sizes (edges that are cubes, squares and multiples of others), one cache
    static std::vector<Q> wide; wide.clear();
    static std::vector<int> one, three; one.clear(); three.clear();
    for (int e = 2; e <= (s.thorough ? 36 : 12); e++) { one.push_back(e); three.push_back(e); }
    for (int e : {16, 24, 25, 27, 32, 48, 64, 81, 125, 192, 216, 343, 512, 1000, 1024, 4096}) if (std::find(one.begin(), one.end(), e) == one.end()) one.push_back(e);
    for (int e : {16}) if (std::find(three.begin(), three.end(), e) == three.end()) three.push_back(e);
    for (int a : {0, 1}) { for (int e : one) wide.push_back({0, a, e, 1}); for (int e : three) wide.push_back({0, a, e, 3}); }
    for (int a : {0, 1}) for (int e : three) wide.push_back({1, a, e, 3});
    auto ask = [=](const Q &q, CacheP &cache, std::vector<ocg::StreamData> &st) {
        transition(); std::string w = qstr(q);
        if (q.kind == 0) { auto img = ocg::get_color_ops_lut(st[q.a], q.edge, q.nch, cache); auto px = lut_px(img, q.edge, q.nch, w.c_str()); check_ops_lut(px, refs(chains[q.a]), q.edge, q.nch, w.c_str()); return fnv(px.data(), px.size() * 4); }
        auto &cs = css[q.a]; auto img = ocg::get_color_transform_3dlut(cs.first, cs.second, q.edge, cache); auto px = lut_px(img, q.edge, 3, w.c_str()); check_cs(px, q.edge, cs.first, cs.second, w.c_str()); return fnv(px.data(), px.size() * 4);
    };
    s.add("request-pairs", wide.size() * wide.size(), [=](uint64_t i) {
        Digits d(i); const Q a = d.pick(wide), b = d.pick(wide); auto cache = make_cache(size_t(1) << 24);
        static G g; static std::vector<ocg::StreamData> st;
        if (st.empty()) for (int k = 0; k < 2; k++) { g.exec(build(g, chains[k])); st.push_back(g.out()); }
        ask(a, cache, st); state(mix(ask(b, cache, st), cache->used_bytes()));
    }, [=](uint64_t i) { Digits d(i); std::string r = qstr(d.pick(wide)); return r + ", then " + qstr(d.pick(wide)); });
    // very many different operations through one cache: every request gets the table of its own operations
    static const std::vector<float> lv = {0.125f, 0.375f, 1.625f, 2.75f};
    auto many = [](uint64_t k) { Digits d(k); ref::Grade g; int m = int(d(16)); for (int c = 0; c < 4; c++) g.p[c] = m >> c & 1; g.reverse = int(d(2)); g.mix = d(2) ? 0.5f : 1;
        int a = int(d(28)), b = int(d(28)); float x = lv[d(4)], y = lv[d(4)]; if (a / 4 == 1 || b / 4 == 1) for (int c = 0; c < 4; c++) g.v[0][c] = -0.5f; g.v[a / 4][a % 4] = x; g.v[b / 4][b % 4] = y; for (int c = 0; c < 4; c++) if (g.v[0][c] == g.v[1][c]) g.v[0][c] = -0.25f; return g; };
    const uint64_t total = 16ull * 2 * 2 * 28 * 28 * 16;
    s.add("many-operations", 2 * 2, [=](uint64_t i) {
        Digits d(i); int nch = d(2) ? 3 : 1; bool twice = d(2); auto cache = make_cache(size_t(1) << 30);
        uint64_t step = g_suite->thorough ? 1 : 5;
        for (uint64_t k = twice ? 3 : 0; k < total; k += step * (twice ? 3 : 1)) {
            ref::Grade q = many(k * 1000003 % total); G g; Node n = ref::make_grade(g, q); if (g.exec(n) != ExecuteStatus::kSuccess) fail("execution did not succeed"); auto out = g.out();
            for (int rep = 0; rep < (twice ? 2 : 1); rep++) { transition(); auto img = ocg::get_color_ops_lut(out, 3, nch, cache); auto px = lut_px(img, 3, nch, "LUT"); 
                for (size_t z = 0; z < px.size(); z++) { int c = int(z % nch); double x = nch == 1 ? double(z) / 2 : lattice(z / nch, c, 3), cond = 1; bool bad = false; double w = chain_one({q}, nch == 1 ? 3 : c, x, bad, cond); if (!bad && !close(px[z], w, cond)) fail("after %llu requests, LUT of %s: entry %zu channel %d is %.7g, expected %.7g", (unsigned long long)(k / step), grade_str(q).c_str(), z / nch, c, px[z], w); } }
        }
        state(i);
    }, [=](uint64_t i) { Digits d(i); int nch = d(2) ? 3 : 1; return sfmt("hundreds of thousands of different operations through one cache, %d channels%s", nch, d(2) ? ", asked twice" : ""); });
    // very many values of one parameter through one cache
    static uint32_t VALS; VALS = s.thorough ? 600000 : 250000;
    s.add("many-values", 3, [](uint64_t k) {
        auto cache = make_cache(size_t(1) << 30); G g; Node n = g.make(NodeType::kGrade); const char *a = k == 0 ? "multiply_r" : k == 1 ? "offset_g" : "multiply_a"; if (k == 2) g.i(n, "process_a", 1);
        int nch = k == 2 ? 1 : 3; CacheP none = make_cache(0);
        for (uint32_t v = 0; v < VALS; v++) {
            float x = 1 + float(v) / (1 << 20); g.f(n, a, x); if (g.exec(n, none) != ExecuteStatus::kSuccess) fail("execution did not succeed");
            auto out = g.out(); auto img = ocg::get_color_ops_lut(out, 2, nch, cache); auto px = lut_px(img, 2, nch, "LUT");
            float got = k == 0 ? px[3] : k == 1 ? px[1] : px[1];    // entry 1 has red 1 and green 0
            if (!(std::fabs(got - x) <= 3e-7)) fail("%s=%.9g after %u other values: entry 1 of its LUT is %.9g", a, x, v, got);
        }
        transition(VALS); state(k);
    }, [](uint64_t k) { return sfmt("%u values of one parameter through one cache (%d)", VALS, int(k)); });
    // edges whose pixel counts exceed what a 32-bit float can hold exactly
    static const std::vector<int> huge = {257, 413};
    s.add("huge-edges", huge.size() * (s.thorough ? 2 : 1), [=](uint64_t i) {
        Digits d(i); int e = d.pick(huge); auto cache = make_cache(0); transition(); std::vector<float> px;
        { G g; g.exec(build(g, chains[d.i ? 1 : 0])); auto out = g.out(); auto img = ocg::get_color_ops_lut(out, e, 3, cache); px = lut_px(img, e, 3, "LUT"); }
        std::vector<float> part; size_t n = px.size() / 3;
        auto gs = refs(chains[d.i ? 1 : 0]);
        for (size_t k = 0; k < n; k += k + 5000 > n || k < 5000 ? 1 : 997) for (int c = 0; c < 3; c++) { double cond = 1; bool bad = false; double w = chain_one(gs, c, lattice(k, c, e), bad, cond); if (!bad) REQUIRE(close(px[k * 3 + c], w, cond), "entry %zu channel %d is %.7g, expected %.7g", k, c, px[k * 3 + c], w); }
        state(fnv(px.data(), px.size() * 4));
    }, [=](uint64_t i) { Digits d(i); int e = d.pick(huge); return sfmt("LUT of edge %d", e); });
    // LUT of a real stream against the bake of the same stream
    s.add("lut-equals-bake", chains.size() * 2, [=](uint64_t i) {
        Digits d(i); auto c = d.pick(chains); int f = d(2) ? 0 : 1;
        G g; Node n = cat::reader(g, f); for (int k : c) { Node m = ref::make_grade(g, gr[k]); g.con(n, m); n = m; }
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution"); auto out = g.out();
        Node v = g.make(NodeType::kViewer); g.i(v, "bake_option", 2); g.i(v, "bake_pixel_data_type", 0); g.con(n, v);
        REQUIRE(g.exec(v) == ExecuteStatus::kSuccess, "execution"); Snap b = snap(g.out(), false);
        auto cache = make_cache(1 << 24); const int e = 65;    // pixels are multiples of 1/256: use them directly
        auto img = ocg::get_color_ops_lut(out, e, 3, cache); auto px = lut_px(img, e, 3, "LUT");
        ref::Stream s = cat::stream(f); auto bp = b.px();
        for (size_t k = 0; k < s.px.size() / s.nch; k++) for (int ch = 0; ch < 3; ch++) {
            double q = s.px[k * s.nch + ch] * 64;
            if (q != std::floor(q)) continue;
            size_t ix[3]; bool exact = true; for (int j = 0; j < 3; j++) { double z = s.px[k * s.nch + j] * 64; ix[j] = size_t(z + 0.5); }
            (void)exact;
            double l = px[(ix[0] + e * (ix[1] + e * ix[2])) * 3 + ch];
            REQUIRE(close(l, bp[k * b.nch + ch], 2), "pixel %zu channel %d: LUT %.7g, bake %.7g", k, ch, l, bp[k * b.nch + ch]);
        }
        state(fp(b));
    }, [=](uint64_t i) { Digits d(i); auto c = d.pick(chains); return cstr(c) + (d(2) ? ", rgba image" : ", rgb image"); });
}
Register r21("C21", build_lut);
}
