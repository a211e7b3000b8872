#include "ref.h"
using namespace mc;
namespace ref {
const Win *window_hint = nullptr;
const char *const grade_param[7] = {"black_point", "white_point", "lift", "gain", "multiply", "offset", "gamma"};

double Grade::one(int c, double x) const {
    double bp = v[0][c], wp = v[1][c], lift = v[2][c], gain = v[3][c], mul = v[4][c], off = v[5][c], gam = v[6][c];
    double a = mul * (gain - lift) / (wp - bp), b = off + lift - a * bp;
    if (!reverse) return std::pow(a * x + b, 1.0 / gam);
    double t = x;
    if (gam <= 0) t = x > 0 ? 1 : 0;
    else if (gam != 1) { if (x <= 0) t = x; else if (x < 1) t = std::pow(x, gam); else t = 1 + (x - 1) * gam; }
    if (a == 0) return t - b;
    return (t - b) / a;
}
void Grade::apply(double *px, int nch) const {
    for (int k = 0; k < nch; k++) {
        int c = nch == 1 ? 3 : k;
        double m = p[c] ? mix : 0;
        if (m == 0) continue;
        px[k] = one(c, px[k]) * m + px[k] * (1 - m);
    }
}
McLens Deform::model() const {
    McLens m;
    double d[11] = {3.0f, 3.6f, 2.4f, 1.0f, lp[0], lp[1], lp[2], lp[3], lp[4], lp[5], lp[6]};
    memcpy(m.p, d, sizeof d);
    return m;
}
void Deform::apply(Win w, bool inverse, double &x, double &y) const {
    if (lens) {
        double u = (x - w.x0) / w.w(), v = (y - w.y0) / w.h(), U, V;
        McLens m = model();
        if ((dir == 0) != inverse) m.undistort(u, v, U, V); else m.distort(u, v, U, V);
        x = U * w.w() + w.x0; y = V * w.h() + w.y0;
        return;
    }
    double ax = x - px, ay = y - py, t1 = double(tx) / w.w(), t2 = double(ty) / w.h();
    double th = rot * M_PI / 180, c = std::cos(th), s = std::sin(th);
    bool inv = (dir > 0) != inverse;
    if (inv && double(sx) * sy == 0) inv = false;      // cannot be undone: left as it is
    if (!inv) {
        ax *= sx; ay *= sy;
        double dx = ax - rcx, dy = ay - rcy;
        ax = rcx + c * dx - s * dy + t1; ay = rcy + s * dx + c * dy + t2;
    } else {
        double dx = ax - t1 - rcx, dy = ay - t2 - rcy;
        ax = (rcx + c * dx + s * dy) / sx; ay = (rcy - s * dx + c * dy) / sy;
    }
    x = ax + px; y = ay + py;
}
Stream placeholder() {
    Stream s; s.placeholder = true;
    const double hi = 235.0 / 255.0, lo = 16.0 / 255.0;
    (void)hi; (void)lo;
    double H = 0.9215, L = 0.0627;
    static const int bars[8][3] = {{1, 1, 1}, {1, 1, 0}, {0, 1, 1}, {0, 1, 0}, {1, 0, 1}, {1, 0, 0}, {0, 0, 1}, {0, 0, 0}};
    for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) for (int c = 0; c < 3; c++) s.px.push_back(bars[(y / 2) * 4 + x][c] ? H : L);
    s.amb.assign(16, 0);
    return s;
}
double to_linear(double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
double to_srgb(double v) { return v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; }
// The curves of the image library's built-in colour spaces.
double curve_to_linear(const std::string &cs, double v) {
    if (cs == "sRGB") return to_linear(v);
    if (cs == "Rec709") return v < 0.081 ? v / 4.5 : std::pow((v + 0.099) / 1.099, 1 / 0.45);
    if (cs == "GammaCorrected2.2") return std::pow(v, 2.2);
    return v;
}
double curve_from_linear(const std::string &cs, double v) {
    if (cs == "sRGB") return to_srgb(v);
    if (cs == "Rec709") return v < 0.018 ? v * 4.5 : 1.099 * std::pow(v, 0.45) - 0.099;
    if (cs == "GammaCorrected2.2") return std::pow(v, 1 / 2.2);
    return v;
}
void convert_cs(Stream &s, const std::string &to) {
    if (s.cs == to) return;
    if (s.cs == "" && to == "Linear") { s.cs = to; return; }        // unknown counts as linear
    if (s.cs != "Linear" && to != "Linear") s.unsupported = true;     // the built-in configuration has no such conversion
    size_t n = s.px.size() / s.nch;
    for (size_t i = 0; i < n; i++) {
        double *p = &s.px[i * s.nch], a = 1;
        bool un = s.unassoc && s.nch > 3 && p[3] != 0;
        if (un) a = p[3];
        for (int c = 0; c < std::min(3, s.nch); c++) {
            double v = p[c] / a;
            p[c] = curve_from_linear(to, curve_to_linear(s.cs, v)) * a;
        }
    }
    s.cs = to;
}
double quantize(double v, int dt) {
    if (dt == 0) return float(v);
    if (dt == 1) return half_to_float(float_to_half(float(v)));
    double m = dt == 2 ? 255 : 65535;
    if (std::isnan(v)) return v;            // no integer stands for it: not judged
    if (!(v > 0)) v = 0;
    if (v > 1) v = 1;
    return std::floor(v * m + 0.5) / m;
}
static void bake_defs(Stream &s) {
    if (s.defs.empty()) return;
    Win w = s.disp;
    double b[4] = {double(s.data.x0), double(s.data.y0), double(s.data.x1), double(s.data.y1)};
    for (auto &d : s.defs) if (d.lens) {
        double n[4] = {1e300, 1e300, -1e300, -1e300};
        for (int i = 0; i < 4; i++) {
            double x = (i & 1) ? b[2] : b[0], y = (i & 2) ? b[3] : b[1];
            d.apply(w, false, x, y);
            n[0] = std::min(n[0], x); n[1] = std::min(n[1], y); n[2] = std::max(n[2], x); n[3] = std::max(n[3], y);
        }
        b[0] = n[0] - 2; b[1] = n[1] - 2; b[2] = n[2] + 2; b[3] = n[3] + 2;
    }
    Win o{int(std::floor(b[0])), int(std::floor(b[1])), int(std::ceil(b[2])), int(std::ceil(b[3]))};
    if (window_hint) {                     // a bound on a pixel edge may be rounded either way
        const double e = 1e-3; Win h = *window_hint;
        auto ok = [&](int v, double x, bool up) { return up ? v == int(std::ceil(x - e)) || v == int(std::ceil(x + e)) : v == int(std::floor(x - e)) || v == int(std::floor(x + e)); };
        if (ok(h.x0, b[0], false) && ok(h.y0, b[1], false) && ok(h.x1, b[2], true) && ok(h.y1, b[3], true)) o = h;
    }
    std::vector<double> px; std::vector<uint8_t> amb;
    for (int Y = o.y0; Y < o.y1; Y++) for (int X = o.x0; X < o.x1; X++) {
        if (s.data.w() < 1 || s.data.h() < 1) { amb.push_back(0); for (int c = 0; c < s.nch; c++) px.push_back(0); continue; }
        double x = X + 0.5, y = Y + 0.5;
        for (size_t k = s.defs.size(); k--;) s.defs[k].apply(w, true, x, y);
        double fx = x - s.data.x0 - 0.5, fy = y - s.data.y0 - 0.5;
        auto cl = [](double v, int n) { return int(std::min(std::max(v, 0.0), double(n - 1))); };
        auto idx = [&](double v, int n) { return cl(std::floor(v + 0.5), n); };
        double e = 1e-3 + 1e-5 * (std::fabs(fx) + std::fabs(fy));
        int ix = idx(fx, s.data.w()), iy = idx(fy, s.data.h());
        size_t i = size_t(iy) * s.data.w() + ix;
        bool tie = idx(fx - e, s.data.w()) != idx(fx + e, s.data.w()) || idx(fy - e, s.data.h()) != idx(fy + e, s.data.h());
        amb.push_back(tie || s.amb[i]);
        for (int c = 0; c < s.nch; c++) px.push_back(s.px[i * s.nch + c]);
    }
    s.data = o; s.px = px; s.amb = amb; s.defs.clear();
}
void bake(Stream &s, int option, const std::string &to_cs, int to_dt) {
    if (to_dt == 255) to_dt = s.dt;
    s.placeholder = false;
    if (option == 1) convert_cs(s, to_cs);
    else {
        convert_cs(s, "Linear");
        size_t n = s.px.size() / s.nch;
        for (auto &op : s.ops) for (size_t i = 0; i < n; i++) op.apply(&s.px[i * s.nch], s.nch);
        s.ops.clear();
        if (option == 3) bake_defs(s);
        convert_cs(s, to_cs);
    }
    s.dt = to_dt;
    for (auto &v : s.px) v = quantize(v, to_dt);
}
Stream crop(Stream s, Win w, bool reformat, bool black) {
    bake(s, 3, "Linear", 0);
    Stream r = s;
    r.data = black ? Win{w.x0 - 1, w.y0 - 1, w.x1 + 1, w.y1 + 1} : w;
    if (reformat) r.disp = w;
    r.px.clear(); r.amb.clear();
    for (int y = r.data.y0; y < r.data.y1; y++) for (int x = r.data.x0; x < r.data.x1; x++) {
        bool in = w.has(x, y) && s.data.has(x, y);
        for (int c = 0; c < s.nch; c++) r.px.push_back(in ? s.at(x, y, c) : 0);
        r.amb.push_back(in ? s.amb_at(x, y) : 0);
    }
    return r;
}
Stream merge(Stream a, Stream b, int mode, double mix) {
    bake(a, 3, "Linear", 0); bake(b, 3, "Linear", 0);
    Stream r = b;
    r.data = unite(a.data, b.data);
    r.px.clear(); r.amb.clear();
    for (int y = r.data.y0; y < r.data.y1; y++) for (int x = r.data.x0; x < r.data.x1; x++) {
        double A[4] = {0, 0, 0, 0}, B[4] = {0, 0, 0, 0};
        uint8_t amb = 0;
        if (a.data.has(x, y)) { for (int c = 0; c < a.nch; c++) A[c] = a.at(x, y, c); amb |= a.amb_at(x, y); }
        if (b.data.has(x, y)) { for (int c = 0; c < b.nch; c++) B[c] = b.at(x, y, c); amb |= b.amb_at(x, y); }
        for (int c = 0; c < r.nch; c++)
            r.px.push_back(mode == 0 ? A[c] + B[c] * mix : mode == 1 ? A[c] + B[c] * (1 - A[3]) * mix : A[c] * B[c] * mix);
        r.amb.push_back(amb);
    }
    return r;
}
Stream from_file(const ImgFile &f, const char *cs) {
    Stream s; s.disp = {0, 0, f.disp.w(), f.disp.h()};
    s.data = {f.data.x0 - f.disp.x0, f.data.y0 - f.disp.y0, f.data.x1 - f.disp.x0, f.data.y1 - f.disp.y0};
    int keep = std::min(f.nch, 4);
    s.nch = f.dt == 0 ? keep : 4; s.dt = f.dt; s.cs = cs;
    size_t n = size_t(f.data.w()) * f.data.h();
    for (size_t i = 0; i < n; i++) for (int c = 0; c < s.nch; c++) s.px.push_back(c < keep ? quantize(f.px[i * f.nch + c], f.dt) : 1.0);
    s.amb.assign(n, 0);
    return s;
}
std::string compare(const Snap &g, const Stream &w, Tol t, ocg::StreamData *live) {
    if (w.unsupported) return "";
    if (g.disp != w.disp) return "display window " + g.disp.str() + ", expected " + w.disp.str();
    if (g.data != w.data) return "data window " + g.data.str() + ", expected " + w.data.str();
    if (g.w != w.data.w() || g.h != w.data.h()) return sfmt("image is %dx%d, data window is %dx%d", g.w, g.h, w.data.w(), w.data.h());
    if (g.nch != w.nch) return sfmt("%d channels, expected %d", g.nch, w.nch);
    if (g.dt != w.dt) return sfmt("pixel data type %s, expected %s", dt_name(g.dt), dt_name(w.dt));
    if (t.meta && g.cs != w.cs) return "colour space '" + g.cs + "', expected '" + w.cs + "'";
    if (g.nops != w.ops.size()) return sfmt("%zu pending colour operations, expected %zu", g.nops, w.ops.size());
    if (g.ndef != w.defs.size()) return sfmt("%zu pending deformers, expected %zu", g.ndef, w.defs.size());
    auto p = g.px();
    double m = g.dt == 2 ? 255 : 65535;
    for (size_t i = 0; i < p.size(); i++) {
        if (w.amb[i / w.nch] || (w.skip.size() && w.skip[i])) continue;
        double a = p[i], b = w.px[i];
        bool ok;
        if (g.dt >= 2) ok = std::isnan(b) || std::fabs(a - b) * m <= t.codes + 0.01;
        else if (std::isnan(b)) ok = std::isnan(a);
        else if (std::isinf(b)) ok = a == b;
        else ok = std::fabs(a - b) <= t.abs + t.rel * std::fabs(b) + (g.dt == 1 ? std::fabs(b) * 1.0 / 1024 * (t.codes + 0.02) + 1e-7 : 0);
        if (!ok) {
            size_t q = i / w.nch;
            return sfmt("pixel (%d,%d) channel %zu is %.9g, expected %.9g", int(q % g.w) + w.data.x0, int(q / g.w) + w.data.y0, i % w.nch, a, b);
        }
    }
    if (live && (w.ops.size() || w.defs.size())) {
        std::vector<float> q;
        for (float v : {0.1f, 0.4f, 0.9f}) { q.push_back(v); q.push_back(v * 0.5f + 0.1f); q.push_back(v * 0.25f + 0.125f); q.push_back(v * 0.5f + 0.25f); }
        auto r = color_ops(*live, q, 4);
        for (int k = 0; k < 3; k++) {
            double d[4]; for (int c = 0; c < 4; c++) d[c] = q[k * 4 + c];
            for (auto &op : w.ops) op.apply(d, 4);
            for (int c = 0; c < 4; c++) if (!(std::fabs(d[c] - r[k * 4 + c]) <= 1e-5 + 1e-4 * std::fabs(d[c])) && !(std::isnan(d[c]) && std::isnan(r[k * 4 + c])))
                return sfmt("pending colour operations map %g to %.9g, expected %.9g", q[k * 4 + c], r[k * 4 + c], d[c]);
        }
        std::vector<float> pos;
        for (float x : {0.0f, 0.3f, 2.5f}) for (float y : {0.1f, 1.0f, 3.7f}) { pos.push_back(x); pos.push_back(y); pos.push_back(0.375f); }
        Win win = w.disp;
        auto o = deform(*live, pos, win, win);
        for (size_t k = 0; k < pos.size(); k += 3) {
            double x = pos[k], y = pos[k + 1];
            for (auto &d : w.defs) d.apply(win, false, x, y);
            if (!(std::fabs(x - o[k]) <= 1e-4 * (1 + std::fabs(x))) || !(std::fabs(y - o[k + 1]) <= 1e-4 * (1 + std::fabs(y))) || o[k + 2] != 0.375f)
                return sfmt("pending deformers move (%g,%g) to (%.7g,%.7g), expected (%.7g,%.7g)", pos[k], pos[k + 1], o[k], o[k + 1], x, y);
        }
    }
    return "";
}
static const char *chn[4] = {"_r", "_g", "_b", "_a"};
Node make_grade(G &g, const Grade &p) {
    static const Grade def;
    Node n = g.make(NodeType::kGrade);
    for (int c = 0; c < 4; c++) if (p.p[c] != def.p[c]) g.i(n, (std::string("process") + chn[c]).c_str(), p.p[c]);
    if (p.reverse) g.i(n, "reverse", 1);
    if (p.mix != 1) g.f(n, "mix", p.mix);
    for (int k = 0; k < 7; k++) for (int c = 0; c < 4; c++) if (p.v[k][c] != def.v[k][c]) g.f(n, (std::string(grade_param[k]) + chn[c]).c_str(), p.v[k][c]);
    return n;
}
Node make_transform(G &g, const Deform &d) {
    static const Deform def;
    Node n = g.make(NodeType::kTransform);
    if (d.dir) g.i(n, "invert", d.dir);
#define T(fld, a) if (d.fld != def.fld) g.f(n, a, d.fld)
    T(tx, "translate_x"); T(ty, "translate_y"); T(rot, "rotate"); T(rcx, "rotate_center_x"); T(rcy, "rotate_center_y");
    T(sx, "scale_x"); T(sy, "scale_y"); T(px, "pivot_x"); T(py, "pivot_y");
#undef T
    return n;
}
Node make_lens(G &g, const Deform &d) {
    static const Deform def;
    static const char *nm[7] = {"lens_center_offset_x", "lens_center_offset_y", "distortion", "anamorphic_squeeze", "curvature_x", "curvature_y", "quartic_distortion"};
    Node n = g.make(NodeType::kLensDistort);
    if (d.dir) g.i(n, "direction", d.dir);
    for (int k = 0; k < 7; k++) if (d.lp[k] != def.lp[k]) g.f(n, nm[k], d.lp[k]);
    return n;
}
}
