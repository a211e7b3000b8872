#include <sys/stat.h>
#include "recipe.h"
#include "attrs.h"
#include <unistd.h>
#include <unordered_map>
using namespace mc;
namespace rec {
Val F(float f) { Val v{'f'}; v.f = f; return v; }
Val I(int i) { Val v{'i'}; v.i = i; return v; }
Val S(const std::string &s) { Val v{'s'}; v.s = s; return v; }
std::string Val::str() const { if (t == 'f') return sfmt("%g", f); if (t == 'i') return sfmt("%d", i); auto p = s.rfind('/'); return p == std::string::npos ? s : s.substr(p + 1); }
int Recipe::add(NodeType t, std::vector<std::pair<const char *, Val>> a, std::vector<int> in) {
    RNode r; r.type = t; for (auto &x : a) r.attrs[x.first] = x.second;
    for (size_t k = 0; k < in.size(); k++) if (in[k] >= 0) r.in[int(k)] = in[k];
    n.push_back(r); return int(n.size()) - 1;
}
uint64_t Recipe::fp() const {
    uint64_t h = n.size();
    for (auto &x : n) {
        h = mix(h, uint64_t(x.type));
        for (auto &a : x.attrs) { h = fnv(a.first.data(), a.first.size(), h); h = fnv(&a.second.f, 4, h); h = mix(h, a.second.i); h = fnv(a.second.s.data(), a.second.s.size(), h); h = mix(h, a.second.t); }
        for (auto &e : x.in) { h = mix(h, e.first); h = mix(h, e.second); }
        h = mix(h, 12345);
    }
    return h;
}
static void put(ocg::Graph &g, const Node &n, const std::string &a, const Val &v) {
    transition();
    if (v.t == 'f') g.set_node_attr_f32(n, a, v.f); else if (v.t == 'i') g.set_node_attr_i32(n, a, v.i); else g.set_node_attr_str(n, a, v.s);
}
void Built::build(const Recipe &rc, uint64_t base, int order) {
    r = rc; size_t N = rc.n.size(); h.assign(N, Node(NodeType::kNull, uint64_t(0)));
    for (size_t k = 0; k < N; k++) { size_t i = order ? N - 1 - k : k; h[i] = g.create_node(rc.n[i].type, base + (order ? k * 7 : k)); transition(); }
    if (order) for (size_t i = N; i-- > 0;) for (auto e = rc.n[i].in.rbegin(); e != rc.n[i].in.rend(); ++e) { transition(); g.connect(h[e->second], h[i], uint8_t(e->first)); }
    for (size_t i = 0; i < N; i++) { if (order) for (auto a = rc.n[i].attrs.rbegin(); a != rc.n[i].attrs.rend(); ++a) put(g, h[i], a->first, a->second); else for (auto &a : rc.n[i].attrs) put(g, h[i], a.first, a.second); }
    if (!order) for (size_t i = 0; i < N; i++) for (auto &e : rc.n[i].in) { transition(); g.connect(h[e.second], h[i], uint8_t(e.first)); }
}
void Built::become(const Recipe &rc) {
    for (size_t i = 0; i < rc.n.size(); i++) {
        for (auto &a : rc.n[i].attrs) { auto it = r.n[i].attrs.find(a.first); if (it == r.n[i].attrs.end() || !(it->second == a.second)) put(g, h[i], a.first, a.second); }
        if (rc.n[i].in != r.n[i].in) {
            for (auto &e : r.n[i].in) if (!rc.n[i].in.count(e.first)) { transition(); g.disconnect_input(h[i], uint8_t(e.first)); }
            for (auto &e : rc.n[i].in) { auto it = r.n[i].in.find(e.first); if (it == r.n[i].in.end() || it->second != e.second) { transition(); g.connect(h[e.second], h[i], uint8_t(e.first)); } }
        }
    }
    r = rc;
}
ExecuteStatus Built::exec(int node, CacheP &c, double frame) { transition(); std::vector<double> f{frame}; return g.execute(h[node], f, c); }
void upstream(const Recipe &r, int n, std::set<int> &out) { if (!out.insert(n).second) return; for (auto &e : r.n[n].in) upstream(r, e.second, out); }
Result result_of(Built &b, int node, ExecuteStatus st) {
    Result x; x.st = st; auto o = b.g.output_stream(); x.snap = snap(o);
    std::set<int> up; upstream(b.r, node, up);
    for (int i : up) x.status[i] = int(b.g.node_status(b.h[i]));
    return x;
}
Result fresh(const Recipe &r, int node, double frame) {
    Built b; b.build(r); CacheP c = make_cache(0);
    auto st = b.exec(node, c, frame);
    return result_of(b, node, st);
}
const Result &fresh_memo(const Recipe &r, int node, double frame) {
    static std::unordered_map<uint64_t, Result> memo;
    uint64_t k = mix(mix(r.fp(), node), uint64_t(int64_t(frame * 1000)));
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    if (memo.size() > 60000) memo.clear();
    return memo.emplace(k, fresh(r, node, frame)).first->second;
}
std::string compare(const Result &got, const Result &want, bool with_hash) {
    if (got.st != want.st) return sfmt("execution status %d vs %d", int(got.st), int(want.st));
    std::string d = diff(got.snap, want.snap, with_hash);
    if (!d.empty()) return d;
    for (auto &s : want.status) { auto it = got.status.find(s.first); if (it == got.status.end() || it->second != s.second) return sfmt("status of node %d is %s vs %s", s.first, it == got.status.end() ? "?" : status_name(NodeStatus(it->second)), status_name(NodeStatus(s.second))); }
    return "";
}
std::string seq_path() { return g_suite->dir + "/seq.####.exr"; }
std::string signed_path() { return g_suite->dir + "/neg.####.exr"; }
std::vector<std::string> alike() {
    std::vector<std::string> v; for (const char *p : {"/la/x.exr", "/la/a/x.exr", "/la/b/x.exr", "/la/a/b/x.exr", "/LA/x.exr", "/la/X.exr", "/la/x.1.exr", "/la/x.2.exr", "/la/x.01.exr", "/la/x.10.exr", "/la/x1.exr", "/la/xx.exr", "/la/y.exr", "/la/x.#.exr", "/la/x.##.exr", "/la/x#.exr", "/la/a long name that goes on and on for more than sixty-four characters 1.exr", "/la/a long name that goes on and on for more than sixty-four characters 2.exr", "/la/\xc3\xa9.exr", "/la/\xc3\xa8.exr", "/la/x.exr.1", "/la/x.exr.2", "/la/x.exr.10", "/la/x.ex", "/la/x", "/la/x ", "/la/ x.exr"}) v.push_back(g_suite->dir + p);
    return v;
}
void write_files() {
    cat::write_files();
    { FILE *f = fopen((g_suite->dir + "/broken.exr").c_str(), "w"); if (!f) fail("fixture"); fputs("not an image", f); fclose(f); }
    { Win w{0, 0, 3, 2}; write_file({g_suite->dir + "/two.exr", w, w, 2, 0, pattern(w, 2, 7)}); }
    for (int f = 1; f <= 3; f++) {
        Win d{0, 0, 3 + f, 3}, w{f == 2 ? -1 : 0, 0, 3 + f, f == 3 ? 4 : 3};
        write_file({g_suite->dir + sfmt("/seq.%04d.exr", f), d, w, 4, f == 2 ? 1 : 0, pattern(w, 4, 20 + f)});
    }
    for (const char *d : {"/la", "/la/a", "/la/b", "/la/a/b", "/LA"}) mkdir((g_suite->dir + d).c_str(), 0755);
    int k = 0; for (auto &p : alike()) if (p.find('#') == std::string::npos) { Win w{0, 0, 3, 2}; std::string t = g_suite->dir + "/la/tmp.exr"; write_file({t, w, w, 4, 0, pattern(w, 4, 40 + k++)}); if (rename(t.c_str(), p.c_str())) fail("fixture"); }
    for (int f = -3; f <= 5; f++) { Win w{0, 0, 3, 2}; write_file({g_suite->dir + sfmt("/neg.%04d.exr", f), w, w, 3, 0, pattern(w, 3, 90 + f)}); }
}
Recipe make(const Scene &s, const Config &c) {
    Recipe r = s.base;
    for (auto &x : c.set) {
        const Knob &k = s.knobs[x.first];
        if (k.slot < 0) r.n[k.node].attrs[k.attr] = k.vals[x.second];
        else { int src = k.srcs[x.second]; if (src < 0) r.n[k.node].in.erase(k.slot); else r.n[k.node].in[k.slot] = src; }
    }
    return r;
}
std::string str(const Scene &s, const Config &c) {
    std::string r;
    for (auto &x : c.set) { const Knob &k = s.knobs[x.first]; r += (r.empty() ? "" : ",") + sfmt("n%d.", k.node) + (k.slot < 0 ? k.attr + "=" + k.vals[x.second].str() : sfmt("in%d=%d", k.slot, k.srcs[x.second])); }
    return r.empty() ? "base" : r;
}
static size_t nv(const Knob &k) { return k.slot < 0 ? k.vals.size() : k.srcs.size(); }
std::vector<Config> singles(const Scene &s, int mv) {
    std::vector<Config> v; v.push_back({});
    for (size_t k = 0; k < s.knobs.size(); k++) for (size_t x = 0; x < nv(s.knobs[k]) && int(x) < mv; x++) v.push_back({{{int(k), int(x)}}});
    return v;
}
std::vector<Config> doubles(const Scene &s, int mv) {
    std::vector<Config> v;
    for (size_t k = 0; k < s.knobs.size(); k++) for (size_t x = 0; x < nv(s.knobs[k]) && int(x) < mv; x++)
        for (size_t q = k + 1; q < s.knobs.size(); q++) for (size_t y = 0; y < nv(s.knobs[q]) && int(y) < mv; y++) v.push_back({{{int(k), int(x)}, {int(q), int(y)}}});
    return v;
}
// Values other than the default for an attribute of a node type.
static std::vector<Val> alphabet(NodeType t, const std::string &a) {
    auto is = [&](const char *x) { return a == x; };
    auto pre = [&](const char *x) { return a.compare(0, strlen(x), x) == 0; };
    if (is("enable") || is("use_cache")) return {I(0)};
    if (t == NodeType::kReadImage) { auto &f = cat::files(); return {S(f[0].f.path), S(f[1].f.path), S(f[2].f.path), S(f[3].f.path), S(f[6].f.path), S(seq_path()), S(g_suite->dir + "/missing.exr"), S(g_suite->dir + "/broken.exr"), S(g_suite->dir + "/two.exr")}; }
    if (t == NodeType::kGrade) {
        if (pre("process_")) return {a == "process_a" ? I(1) : I(0)};
        if (is("mix")) return {F(0), F(0.25f), F(0.5f)};
        if (is("reverse")) return {I(1)};
        if (pre("gamma_")) return {F(0.5f), F(2.0f)};
        if (pre("white_point_")) return {F(0.75f), F(2.0f)};
        if (pre("gain_") || pre("multiply_")) return {F(0.25f), F(2.0f), F(1.0f / 3)};
        return {F(0.125f), F(-0.25f)};
    }
    if (t == NodeType::kLensDistort) { if (is("direction")) return {I(1)}; if (is("anamorphic_squeeze")) return {F(1.25f), F(0.5f)}; return {F(0.125f), F(-0.25f)}; }
    if (t == NodeType::kTransform) {
        if (is("invert")) return {I(1)};
        if (pre("translate_")) return {F(1), F(-2.5f)};
        if (is("rotate")) return {F(30), F(90)};
        if (pre("scale_")) return {F(0.5f), F(2)};
        if (pre("pivot_")) return {F(0), F(1.5f)};
        return {F(0.25f), F(1)};
    }
    if (t == NodeType::kMergeImage) { if (is("mode")) return {I(0), I(1), I(2)}; return {F(0), F(0.5f), F(0.25f)}; }
    if (t == NodeType::kCropImage) {
        if (is("window_min_x") || is("window_min_y")) return {I(-1), I(0), I(1)};
        if (is("window_max_x") || is("window_max_y")) return {I(2), I(3), I(5)};
        if (is("intersect")) return {};
        return {I(1)};
    }
    if (t == NodeType::kResampleImage) { if (is("factor")) return {I(-1), I(1), I(2)}; return {I(1)}; }
    if (t == NodeType::kViewer) {
        if (is("bake_option")) return {I(0), I(1), I(2), I(3)};
        if (is("bake_pixel_data_type")) return {I(0), I(1), I(2), I(3), I(255)};
        if (is("bake_color_space")) return {S("Linear"), S("sRGB"), S("Rec709"), S("linear")};
        return {I(1)};
    }
    return {};
}
static const std::map<NodeType, std::vector<const char *>> &names() {
    static std::map<NodeType, std::vector<const char *>> m = {
        {NodeType::kReadImage, {"enable", "use_cache", "file_path"}},
        {NodeType::kGrade, {"enable", "process_r", "process_g", "process_b", "process_a", "black_point_r", "black_point_g", "black_point_b", "black_point_a", "white_point_r", "white_point_g", "white_point_b", "white_point_a",
            "lift_r", "lift_g", "lift_b", "lift_a", "gain_r", "gain_g", "gain_b", "gain_a", "multiply_r", "multiply_g", "multiply_b", "multiply_a", "offset_r", "offset_g", "offset_b", "offset_a", "gamma_r", "gamma_g", "gamma_b", "gamma_a", "reverse", "mix"}},
        {NodeType::kLensDistort, {"enable", "direction", "lens_center_offset_x", "lens_center_offset_y", "distortion", "anamorphic_squeeze", "curvature_x", "curvature_y", "quartic_distortion"}},
        {NodeType::kTransform, {"enable", "invert", "translate_x", "translate_y", "rotate", "rotate_center_x", "rotate_center_y", "scale_x", "scale_y", "pivot_x", "pivot_y"}},
        {NodeType::kMergeImage, {"enable", "use_cache", "mode", "mix"}},
        {NodeType::kCropImage, {"enable", "use_cache", "window_min_x", "window_min_y", "window_max_x", "window_max_y", "reformat", "black_outside"}},
        {NodeType::kResampleImage, {"enable", "use_cache", "factor", "interpolate"}},
        {NodeType::kViewer, {"enable", "use_cache", "bake_option", "bake_pixel_data_type", "bake_color_space", "crop_to_format"}},
    };
    return m;
}
static void all_knobs(Scene &s, int node) {
    auto it = names().find(s.base.n[node].type);
    if (it == names().end()) return;
    for (auto a : it->second) {
        Knob k{node, a, {}};
        auto b = s.base.n[node].attrs.find(a);
        for (auto &v : alphabet(s.base.n[node].type, a)) if (b == s.base.n[node].attrs.end() || !(b->second == v)) k.vals.push_back(v);
        if ((!strcmp(a, "enable") || !strcmp(a, "use_cache")) && b != s.base.n[node].attrs.end() && b->second.i == 0) k.vals = {I(1)};
        if (!k.vals.empty()) s.knobs.push_back(k);
    }
}
const std::vector<Scene> &scenes() {
    static std::vector<Scene> v;
    if (!v.empty()) return v;
    auto file = [](int i) { return S(cat::files()[i].f.path); };
    auto done = [&](const char *name, Recipe r, std::vector<int> targets, std::vector<Knob> extra = {}, std::vector<double> frames = {1}) {
        Scene s{name, r, {}, targets, frames};
        for (int i = 0; i < int(r.n.size()); i++) all_knobs(s, i);
        // every attribute that a knob changes is explicit in the base recipe
        for (auto &k : s.knobs) if (!s.base.n[k.node].attrs.count(k.attr))
            for (auto &t : attrs::types()) if (t.type == s.base.n[k.node].type) for (auto &a : t.attrs) if (k.attr == a.name)
                s.base.n[k.node].attrs[k.attr] = a.type == 'f' ? F(float(a.num)) : a.type == 'i' ? I(int(a.num)) : S(a.str);
        for (auto &k : extra) s.knobs.push_back(k);
        v.push_back(s);
    };
    auto in = [](int node, int slot, std::vector<int> srcs) { Knob k; k.node = node; k.slot = slot; k.srcs = srcs; return k; };
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", S(seq_path())}}); int g = r.add(NodeType::kGrade, {{"multiply_r", F(0.5f)}, {"process_a", I(1)}, {"gain_a", F(0.5f)}, {"gamma_b", F(2)}}, {a});
      int w = r.add(NodeType::kViewer, {{"bake_option", I(3)}, {"bake_pixel_data_type", I(0)}}, {g});
      done("sequence-grade-viewer", r, {w, g, a}, {in(w, 0, {a, -1}), in(g, 0, {-1})}, {1, 2, 3, 4}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", file(0)}}); int t = r.add(NodeType::kTransform, {{"translate_x", F(1)}, {"scale_y", F(0.5f)}, {"rotate", F(20)}}, {a});
      int c = r.add(NodeType::kCropImage, {{"window_max_x", I(3)}, {"window_max_y", I(3)}}, {t}); int w = r.add(NodeType::kViewer, {{"bake_option", I(2)}}, {c});
      done("transform-crop-viewer", r, {c, w, t}, {in(c, 0, {a, -1}), in(t, 0, {-1})}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", file(0)}}); int b = r.add(NodeType::kReadImage, {{"file_path", file(1)}}); int g = r.add(NodeType::kGrade, {{"offset_g", F(0.25f)}}, {a});
      int t = r.add(NodeType::kTransform, {{"translate_y", F(1)}}, {b}); int m = r.add(NodeType::kMergeImage, {}, {g, t}); int w = r.add(NodeType::kViewer, {{"bake_option", I(1)}, {"bake_color_space", S("sRGB")}}, {m});
      done("merge-two-branches", r, {m, w}, {in(m, 0, {t, a, -1}), in(m, 1, {g, b, -1}), in(t, 0, {a, -1}), in(g, 0, {b})}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", file(2)}}); int s = r.add(NodeType::kResampleImage, {{"factor", I(-1)}}, {a}); int b = r.add(NodeType::kReadImage, {{"file_path", file(3)}});
      int m = r.add(NodeType::kMergeImage, {{"mode", I(0)}}, {s, b}); int c = r.add(NodeType::kCropImage, {{"window_max_x", I(4)}, {"window_max_y", I(2)}, {"reformat", I(1)}}, {m});
      done("resample-merge-crop", r, {c, m, s}, {in(s, 0, {b, -1}), in(c, 0, {s, -1})}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", file(0)}}); int l = r.add(NodeType::kLensDistort, {{"distortion", F(0.25f)}, {"direction", I(1)}}, {a}); int g = r.add(NodeType::kGrade, {{"multiply_g", F(2)}}, {l});
      int c = r.add(NodeType::kCropImage, {{"window_max_x", I(4)}, {"window_max_y", I(4)}, {"black_outside", I(1)}}, {g}); int s = r.add(NodeType::kResampleImage, {{"factor", I(1)}}, {c});
      done("lens-grade-crop-resample", r, {s, c, g}, {in(c, 0, {l, a, -1}), in(l, 0, {-1}), in(s, 0, {g})}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", file(3)}}); int g = r.add(NodeType::kGrade, {{"multiply_r", F(0.5f)}}, {a}); int h = r.add(NodeType::kGrade, {{"lift_b", F(0.25f)}}, {a});
      int m = r.add(NodeType::kMergeImage, {{"mode", I(2)}}, {g, h}); int w = r.add(NodeType::kViewer, {{"bake_option", I(3)}, {"crop_to_format", I(1)}}, {m});
      done("diamond", r, {m, w, g}, {in(m, 1, {a, g, -1}), in(h, 0, {g, -1})}); }
    { Recipe r; int n = r.add(NodeType::kNull); int g = r.add(NodeType::kGrade, {{"multiply_r", F(2)}}, {n}); int c = r.add(NodeType::kCropImage, {{"window_max_x", I(3)}, {"window_max_y", I(2)}}, {g}); int w = r.add(NodeType::kViewer, {{"bake_option", I(3)}}, {c});
      int m = r.add(NodeType::kMergeImage, {}, {c});
      done("placeholder-chain", r, {w, c, m}, {in(c, 0, {n, -1}), in(g, 0, {-1}), in(m, 0, {g, -1}), in(w, 0, {g, n, -1}), in(m, 1, {g, c})}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", file(8)}}); int g = r.add(NodeType::kGrade, {{"mix", F(0.5f)}, {"offset_r", F(0.25f)}, {"white_point_g", F(0.5f)}}, {a}); int v1 = r.add(NodeType::kViewer, {{"bake_option", I(1)}, {"bake_pixel_data_type", I(3)}}, {g});
      int t = r.add(NodeType::kTransform, {{"invert", I(1)}, {"rotate_center_x", F(0.25f)}, {"rotate", F(45)}}, {v1}); int v2 = r.add(NodeType::kViewer, {{"bake_option", I(3)}, {"bake_color_space", S("sRGB")}}, {t});
      done("viewer-of-viewer", r, {v2, v1}, {in(v2, 0, {v1, g, a}), in(v1, 0, {a, -1})}); }
    { Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", S(seq_path())}}); int b = r.add(NodeType::kReadImage, {{"file_path", file(5)}, {"use_cache", I(0)}}); int m = r.add(NodeType::kMergeImage, {{"mix", F(0.5f)}}, {a, b}); int n = r.add(NodeType::kNull, {}, {m});
      int m2 = r.add(NodeType::kMergeImage, {{"mode", I(0)}}, {n, a}); int c = r.add(NodeType::kCropImage, {{"window_max_x", I(5)}, {"window_max_y", I(3)}}, {m2}); int c2 = r.add(NodeType::kCropImage, {{"window_min_x", I(1)}, {"window_max_x", I(4)}, {"window_max_y", I(2)}}, {c});
      done("merge-of-merge-crop-of-crop", r, {c2, m2, c, m}, {in(m2, 1, {b, m, -1}), in(c2, 0, {m2, n}), in(m, 1, {-1})}, {1, 2}); }
    return v;
}
}
