// C03 caching never changes a result, C08 stream hashes, C09 results are immutable.
#include "recipe.h"
#include "attrs.h"
#include <algorithm>
#include <unordered_map>
using namespace mc;
using namespace rec;
namespace {
struct Step { int cfg, target; double frame; };
std::vector<Step> steps(const Scene &s, const std::vector<Config> &cf, int max_targets = 100) {
    std::vector<Step> v;
    for (int c = 0; c < int(cf.size()); c++) for (int t : s.targets) {
        if (t != s.targets[0] && max_targets == 1) continue;
        v.push_back({c, t, s.frames[0]});
        bool all = c == 0;
        if (all) for (size_t f = 1; f < s.frames.size(); f++) v.push_back({c, t, s.frames[f]});
    }
    return v;
}
std::string step_str(const Scene &s, const std::vector<Config> &cf, const Step &x) { return sfmt("[%s] execute n%d frame %g", str(s, cf[x.cfg]).c_str(), x.target, x.frame); }
const std::vector<size_t> CAPS = {size_t(1) << 24, 400, 150};

void agree(Built &b, ExecuteStatus st, int node, double frame, const char *what, bool with_hash = false) {
    Result got = result_of(b, node, st);
    const Result &want = fresh_memo(b.r, node, frame);
    std::string d = compare(got, want, with_hash);
    REQUIRE(d.empty(), "%s differs from a fresh evaluation without cache (got vs fresh): %s", what, d.c_str());
    state(mix(fp(got.snap), got.snap.hash));
}

// flags in every combination, every other attribute in turn; and float values that are close, tiny or huge
const std::vector<std::pair<NodeType, std::vector<const char *>>> FL = {
    {NodeType::kGrade, {"process_r", "process_g", "process_b", "process_a", "reverse", "enable"}}, {NodeType::kTransform, {"enable", "invert"}}, {NodeType::kLensDistort, {"enable", "direction"}},
    {NodeType::kCropImage, {"enable", "reformat", "black_outside"}}, {NodeType::kMergeImage, {"enable"}}, {NodeType::kResampleImage, {"enable", "interpolate"}}, {NodeType::kViewer, {"enable", "crop_to_format"}}, {NodeType::kReadImage, {"enable"}}};
std::vector<Val> variants(const attrs::A &a, bool fine) {
    std::vector<Val> v;
    if (a.type == 's') { if (std::string(a.name) == "file_path") for (int k : {0, 1, 2, 3}) v.push_back(S(cat::files()[k].f.path)); else v = {S("Linear"), S("sRGB")}; return v; }
    if (a.type == 'i') { std::string n = a.name; if (n == "use_cache" || n == "intersect" || n == "clamp_black" || n == "clamp_white" || n == "premult") return v;
        if (n == "mode") v = {I(0), I(1), I(2)}; else if (n == "bake_option") v = {I(0), I(1), I(2), I(3)}; else if (n == "bake_pixel_data_type") v = {I(0), I(1), I(2), I(3), I(255)}; else if (n == "factor") v = {I(-2), I(-1), I(0), I(1)}; else if (n.compare(0, 10, "window_min") == 0) v = {I(-2), I(-1), I(0), I(1)}; else if (n.compare(0, 10, "window_max") == 0) v = {I(2), I(3), I(4), I(5)}; return v; }
    float b = a.num ? float(a.num) : 0.5f;
    if (!fine) return std::vector<Val>{F(b), F(b * 0.5f), F(b * 1.5f), F(-b)};
    for (float x : {b, 1.5f, 0.1f, 3.0f}) { float up = std::nextafter(x, 100.0f); for (float y : {x, up, std::nextafter(up, 100.0f), std::nextafter(x, -100.0f), x + x / 4096, x * 2, x / 2, x * 1024, x / 1024, -x, -up}) v.push_back(F(y)); }
    for (float y : {0.0f, 1e-38f, 1e-39f, 1e-42f, 1e-45f, 1e30f, 1.0000001f}) v.push_back(F(y));
    return v;
}
std::pair<Recipe, int> chain(NodeType t, std::map<std::string, Val> at, bool bake) {
    Recipe r; int n; auto file = [](int i) { return S(cat::files()[i].f.path); };
    if (t == NodeType::kReadImage) n = r.add(t, {{"file_path", file(1)}});
    else { int a = r.add(NodeType::kReadImage, {{"file_path", file(0)}}), q = r.add(NodeType::kGrade, {{"gain_g", F(0.5f)}}, {a}), w = r.add(NodeType::kTransform, {{"translate_x", F(1)}}, {q}), b = r.add(NodeType::kReadImage, {{"file_path", file(2)}});
        n = t == NodeType::kMergeImage ? r.add(t, {}, {w, b}) : r.add(t, {}, {t == NodeType::kViewer ? w : a}); }
    if (t == NodeType::kCropImage) { r.n[n].attrs["window_max_x"] = I(3); r.n[n].attrs["window_max_y"] = I(3); }
    if (t == NodeType::kViewer) r.n[n].attrs["bake_option"] = I(2);
    if (t == NodeType::kResampleImage) r.n[n].attrs["factor"] = I(-1);
    if (t == NodeType::kLensDistort) r.n[n].attrs["distortion"] = F(0.125f);
    for (auto &x : at) r.n[n].attrs[x.first] = x.second;
    if (bake) n = r.add(NodeType::kViewer, {{"bake_option", I(3)}, {"bake_pixel_data_type", I(0)}}, {n});
    return std::make_pair(r, n);
}
// Switches set to numbers other than 0 and 1: whatever they mean, it does not depend on the history.
struct Odd { std::string what; Recipe r; int n; };
std::vector<Odd> odd_switches(const std::pair<NodeType, std::vector<const char *>> &f, bool bake) {
    std::vector<Odd> v;
    for (auto &t : attrs::types()) if (t.type == f.first) for (auto sw : f.second) if (strcmp(sw, "direction")) for (int x : {0, 1, 2, -1, 255}) for (auto &a : t.attrs) if (strcmp(a.name, sw)) for (auto &y : variants(a, false)) {
        std::map<std::string, Val> at = {{sw, I(x)}, {a.name, y}}; auto c = chain(f.first, at, bake); v.push_back({std::string(sw) + sfmt("=%d ", x) + a.name + "=" + y.str(), c.first, c.second}); }
    return v;
}
// Two attributes of a node over all their values, with every switch in turn, and with them all at their defaults.
struct Pair { NodeType t; const char *name; attrs::A a, b; };
const std::vector<Pair> &attr_pairs() {
    static std::vector<Pair> v; if (!v.empty()) return v;
    for (auto &f : FL) for (auto &t : attrs::types()) if (t.type == f.first) for (size_t a = 0; a < t.attrs.size(); a++) for (size_t b = 0; b < a; b++) if (!variants(t.attrs[a], false).empty() && !variants(t.attrs[b], false).empty()) v.push_back({t.type, t.name, t.attrs[b], t.attrs[a]});
    return v;
}
std::vector<Odd> pair_cases(const Pair &p, bool bake) {
    std::vector<Odd> v; std::map<std::string, double> def; std::vector<const char *> sw = {""};
    for (auto &t : attrs::types()) if (t.type == p.t) for (auto &a : t.attrs) def[a.name] = a.num;
    for (auto &f : FL) if (f.first == p.t) for (auto x : f.second) if (strcmp(x, "enable")) sw.push_back(x);
    for (auto x : sw) for (auto &y : variants(p.a, false)) for (auto &z : variants(p.b, false)) {
        std::map<std::string, Val> at; if (p.t == NodeType::kLensDistort) at["distortion"] = F(0);
        if (p.t == NodeType::kGrade) at["process_a"] = I(1);
        if (*x) at[x] = I(at.count(x) ? 0 : def[x] ? 0 : 1);
        at[p.a.name] = y; at[p.b.name] = z;
        auto c = chain(p.t, at, bake); v.push_back({std::string(x) + (*x ? " switched, " : "") + p.a.name + "=" + y.str() + " " + p.b.name + "=" + z.str(), c.first, c.second});
    }
    return v;
}
// ---------------------------------------------------------------- histories: alphabet
struct Sym { int kind, a, b; double f; };        // 0 toggle knob a between base and value b, 1 execute a at f, 2 capacity, 3 LUT, 4 execute in the second graph
struct Hist { const Scene *s; std::vector<Sym> al; };
// Knobs with an influence on caching, one or two values each.
Hist make_hist(const Scene &s, bool second) {
    Hist h{&s, {}};
    std::set<std::string> want = {"file_path", "factor", "mix", "mode", "window_max_x", "bake_option", "bake_pixel_data_type", "translate_x", "direction", "multiply_r", "multiply_g", "offset_g", "enable"};
    int n = 0;
    for (int k = 0; k < int(s.knobs.size()) && n < 6; k++) if (s.knobs[k].slot < 0 && want.count(s.knobs[k].attr) && (s.knobs[k].attr != "enable" || s.knobs[k].node == s.targets[0])) { h.al.push_back({0, k, 0, 0}); n++; }
    for (int k = int(s.knobs.size()) - 1; k >= 0 && s.knobs[k].slot >= 0 && n < 7; k--) { h.al.push_back({0, k, 0, 0}); n++; }
    for (int t : s.targets) h.al.push_back({1, t, 0, s.frames[0]});
    if (s.frames.size() > 1) h.al.push_back({1, s.targets[0], 0, s.frames[1]});
    for (int c = 0; c < 3; c++) h.al.push_back({2, c, 0, 0});
    if (second) h.al.push_back({4, s.targets[0], 0, s.frames[0]});
    return h;
}
std::string hist_str(const Hist &h, uint64_t i, unsigned depth) {
    std::string r = h.s->name + ":";
    for (int o : seq(i, h.al.size(), depth)) {
        const Sym &x = h.al[o];
        switch (x.kind) {
        case 0: r += " toggle " + str(*h.s, {{{x.a, x.b}}}); break;
        case 1: r += sfmt(" execute n%d frame %g", x.a, x.f); break;
        case 2: r += sfmt(" capacity %zu", x.a == 2 ? size_t(0) : CAPS[x.a]); break;
        case 4: r += sfmt(" execute n%d of a second graph", x.a); break;
        }
        r += ";";
    }
    return r;
}
struct Held { ocg::StreamData s; Snap at; std::string what; };
void run_hist(const Hist &h, uint64_t i, unsigned depth, bool hold) {
    const Scene &s = *h.s;
    Built b, b2; b.build(s.base);
    CacheP cache = make_cache(CAPS[0]);
    std::map<int, int> on;
    bool second = false; int execs = 0;
    auto recipe = [&] { Config c; for (auto &x : on) c.set.push_back(x); return make(s, c); };
    std::vector<std::unique_ptr<Held>> held;
    int k = 0;
    for (int o : seq(i, h.al.size(), depth)) {
        const Sym &x = h.al[o];
        if (x.kind == 0) { if (on.count(x.a)) on.erase(x.a); else on[x.a] = x.b; b.become(recipe()); }
        else if (x.kind == 1) { auto st = b.exec(x.a, cache, x.f); execs++; agree(b, st, x.a, x.f, sfmt("step %d: result of n%d", k + 1, x.a).c_str());
            if (hold) { auto p = std::unique_ptr<Held>(new Held{b.g.output_stream(), {}, sfmt("the result of step %d", k + 1)}); p->at = snap(p->s); held.push_back(std::move(p)); } }
        else if (x.kind == 2) { cache->set_capacity_bytes(x.a == 2 ? 0 : CAPS[x.a]); transition(); }
        else { if (!second) { b2.build(make(s, {{{h.al[0].a, h.al[0].b}}}), 500, 1); second = true; } auto st = b2.exec(x.a, cache, x.f); execs++; agree(b2, st, x.a, x.f, sfmt("step %d: result of n%d in the second graph", k + 1, x.a).c_str());
            if (hold) { auto p = std::unique_ptr<Held>(new Held{b2.g.output_stream(), {}, sfmt("the result of step %d", k + 1)}); p->at = snap(p->s); held.push_back(std::move(p)); } }
        for (auto &p : held) { std::string d = diff(snap(p->s), p->at, true); REQUIRE(d.empty(), "%s changed in step %d (now vs then): %s", p->what.c_str(), k + 1, d.c_str()); }
        k++;
    }
}
void build_cache(Suite &s) {
    s.fixture = rec::write_files;
    s.assumptions = {"image files do not change on disk", "graphs of up to seven nodes"};
    static const auto &SC = scenes();
    static std::vector<std::vector<Config>> one, two;
    static std::vector<std::vector<Step>> st1, st2, stp;
    one.clear(); two.clear(); st1.clear(); st2.clear(); stp.clear();
    for (auto &x : SC) { one.push_back(singles(x)); two.push_back(doubles(x, s.thorough ? 1000 : 2)); st1.push_back(steps(x, one.back())); st2.push_back(steps(x, two.back())); stp.push_back(steps(x, one.back(), s.thorough ? 100 : 1)); }
    // every ordered pair of configurations and executed nodes, one graph edited in between
    for (size_t q = 0; q < SC.size(); q++) {
        uint64_t n = stp[q].size(); int caps = s.thorough ? 3 : 1;
        s.add("pairs-" + SC[q].name, n * n * caps, [=](uint64_t i) {
            Digits d(i); auto &a = d.pick(stp[q]); auto &c = d.pick(stp[q]); size_t cap = CAPS[(d(caps) + (caps == 1 ? i % 5 == 0 : 0)) % 3];
            Built b; b.build(make(SC[q], one[q][a.cfg])); CacheP cache = make_cache(cap);
            auto e = b.exec(a.target, cache, a.frame); agree(b, e, a.target, a.frame, "the first result");
            b.become(make(SC[q], one[q][c.cfg])); e = b.exec(c.target, cache, c.frame); agree(b, e, c.target, c.frame, "the second result");
        }, [=](uint64_t i) { Digits d(i); auto &a = d.pick(stp[q]); auto &c = d.pick(stp[q]); return SC[q].name + ": " + step_str(SC[q], one[q], a) + ", then " + step_str(SC[q], one[q], c); });
    }
    const bool deep = s.thorough;
    // all configurations of a scene one after another through one cache, in either order, every
    // execution repeated: any two that share a key meet
    s.add("accumulate", SC.size() * 2 * 2 * 2 * 2, [=](uint64_t i) {
        Digits d(i); size_t q = d(SC.size()); bool rev = d(2), same_graph = d(2), dbl = d(2); size_t cap = d(2) ? size_t(1) << 32 : 2000;
        if (dbl && !deep && (rev != same_graph || cap == 2000)) return;
        auto &cf = dbl ? two[q] : one[q]; auto &st = dbl ? st2[q] : st1[q];
        CacheP cache = make_cache(cap); std::unique_ptr<Built> b(new Built); b->build(SC[q].base);
        for (size_t k = 0; k < st.size(); k++) {
            const Step &x = st[rev ? st.size() - 1 - k : k];
            Recipe r = make(SC[q], cf[x.cfg]);
            if (same_graph) b->become(r); else { b.reset(new Built); b->build(r, 10 + k, k % 2); }
            note("step %zu: %s", k, step_str(SC[q], cf, x).c_str());
            for (int rep = 0; rep < 2; rep++) { auto e = b->exec(x.target, cache, x.frame); agree(*b, e, x.target, x.frame, (step_str(SC[q], cf, x) + (rep ? ", second time:" : ":")).c_str()); }
        }
    }, [=](uint64_t i) { Digits d(i); size_t q = d(SC.size()); int rev = d(2), sg = d(2), dbl = d(2), c = d(2); return sfmt("%s: every %s%s, %s, %s cache", SC[q].name.c_str(), dbl ? "pair of changes" : "single change", rev ? " in reverse" : "", sg ? "one graph edited" : "new graphs", c ? "unbounded" : "small"); });
    s.add("accumulate-all-scenes", 4, [=](uint64_t i) {
        bool rev = i & 1, frames = i & 2;
        CacheP cache = make_cache(size_t(1) << 32);
        for (size_t p = 0; p < SC.size(); p++) { size_t q = rev ? SC.size() - 1 - p : p; for (size_t k = 0; k < st1[q].size(); k++) {
            Step x = st1[q][rev ? st1[q].size() - 1 - k : k]; if (frames) x.frame = x.frame + 1;
            Built b; b.build(make(SC[q], one[q][x.cfg]), 10 + k);
            auto e = b.exec(x.target, cache, x.frame); agree(b, e, x.target, x.frame, (SC[q].name + " " + step_str(SC[q], one[q], x)).c_str());
        } }
    }, [](uint64_t i) { return sfmt("every configuration of every scene through one cache, order %d", int(i)); });
    // whole and fractional frames of a sequence, and files whose names look alike, in every order
    static const std::vector<double> fr = {-2, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 0.999, 1, 1.001, 1.25, 1.4999, 1.5, 1.75, 2, 2.25, 2.5, 2.75, 3, 3.25, 3.5, 4, 4294967297.0, 65537};
    s.add("frames", SC[0].targets.size() * fr.size() * fr.size() * fr.size(), [=](uint64_t i) {
        Digits d(i); int t = d.pick(SC[0].targets); Built b; b.build(SC[0].base); CacheP cache = make_cache(1 << 20);
        for (int k = 0; k < 3; k++) { double f = d.pick(fr); auto e = b.exec(t, cache, f); agree(b, e, t, f, sfmt("execution %d, frame %g:", k + 1, f).c_str()); }
    }, [=](uint64_t i) { Digits d(i); int t = d.pick(SC[0].targets); double a = d.pick(fr), b = d.pick(fr), c = d.pick(fr); return sfmt("n%d at frames %g, %g, %g", t, a, b, c); });
    // a sequence that has files on both sides of frame zero: the frame that is looked up is the frame that is read
    static const std::vector<double> sg = {-3, -2.6, -2.5, -2.4, -2, -1.6, -1.5, -1.4, -1, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.4, 1.5, 1.6, 2, 2.4, 2.5, 2.6, 3, 3.5, 4, 4.5, 5};
    s.add("frames-around-zero", sg.size() * sg.size() * 4, [=](uint64_t i) {
        Digits d(i); double f[3]; f[0] = d.pick(sg); f[1] = d.pick(sg); f[2] = f[0]; int bake = int(d(2)), two = int(d(2));
        Recipe r; int n = r.add(NodeType::kReadImage, {{"file_path", S(signed_path())}}); if (bake) { n = r.add(NodeType::kGrade, {{"multiply_r", F(0.5f)}}, {n}); n = r.add(NodeType::kViewer, {{"bake_option", I(3)}}, {n}); }
        CacheP cache = make_cache(1 << 20); Built b, c; b.build(r); if (two) c.build(r, 50);
        for (int k = 0; k < 3; k++) { Built &x = two && k == 1 ? c : b; auto e = x.exec(n, cache, f[k]); agree(x, e, n, f[k], sfmt("execution %d, frame %g:", k + 1, f[k]).c_str()); }
    }, [=](uint64_t i) { Digits d(i); double a = d.pick(sg), b = d.pick(sg); return sfmt("a sequence around zero at frames %g, %g, %g", a, b, a); });
    s.add("odd-switches", FL.size() * 4, [](uint64_t i) {
        Digits d(i); auto &f = d.pick(FL); bool bake = d(2), rev = d(2); auto v = odd_switches(f, bake); if (rev) std::reverse(v.begin(), v.end());
        CacheP cache = make_cache(size_t(1) << 28); 
        for (auto &x : v) { note("%s", x.what.c_str()); Built c; c.build(x.r, 10); for (int rep = 0; rep < 2; rep++) { auto e = c.exec(x.n, cache, 1); agree(c, e, x.n, 1, x.what.c_str()); } }
    }, [](uint64_t i) { Digits d(i); auto &f = d.pick(FL); bool bake = d(2); return sfmt("switches of node type %d set to 0, 1, 2, -1 and 255, with every value of one other attribute, through one cache%s%s", int(f.first), bake ? ", baked" : "", d(2) ? ", reversed" : ""); });
    s.add("attribute-pairs", attr_pairs().size(), [](uint64_t i) {
        auto &p = attr_pairs()[i]; CacheP cache = make_cache(size_t(1) << 28);
        for (auto &x : pair_cases(p, true)) { note("%s", x.what.c_str()); Built c; c.build(x.r, 10); auto e = c.exec(x.n, cache, 1); agree(c, e, x.n, 1, x.what.c_str()); }
    }, [](uint64_t i) { auto &p = attr_pairs()[i]; return sfmt("%s: all values of %s and %s with every switch, through one cache", p.name, p.a.name, p.b.name); });
    static std::vector<std::string> al; al = alike();
    s.add("look-alike-files", al.size() * al.size() * 4, [=](uint64_t i) {
        Digits d(i); auto &x = d.pick(al), &y = d.pick(al); bool two = d(2); double f = 1 + double(d(2));
        CacheP cache = make_cache(1 << 20); Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", S(x)}}), w = r.add(NodeType::kViewer, {{"bake_option", I(3)}}, {a}); Recipe q = r; q.n[a].attrs["file_path"] = S(y);
        Built b, c; b.build(r); auto e = b.exec(w, cache, f); agree(b, e, w, f, "the first file");
        if (two) { c.build(q, 50); e = c.exec(w, cache, f); agree(c, e, w, f, "the second file, in another graph"); } else { b.become(q); e = b.exec(w, cache, f); agree(b, e, w, f, "the second file"); }
    }, [=](uint64_t i) { Digits d(i); auto &x = d.pick(al), &y = d.pick(al); d(2); return "'" + x + "', then '" + y + sfmt("' at frame %d", 1 + int(d(2))); });
    static std::vector<Hist> hs; hs.clear();
    for (auto &x : SC) hs.push_back(make_hist(x, true));
    unsigned depth = s.thorough ? 5 : 4;
    for (size_t q = 0; q < hs.size(); q++)
        s.add("histories-" + SC[q].name, ipow(hs[q].al.size(), depth), [=](uint64_t i) { run_hist(hs[q], i, depth, false); }, [=](uint64_t i) { return hist_str(hs[q], i, depth); });
}
Register r3("C03", build_cache);

void build_immutable(Suite &s) {
    s.fixture = rec::write_files;
    s.assumptions = {"image files do not change on disk", "graphs of up to seven nodes"};
    static const auto &SC = scenes();
    static std::vector<Hist> hs; hs.clear();
    for (auto &x : SC) hs.push_back(make_hist(x, false));
    unsigned depth = s.thorough ? 5 : 4;
    for (size_t q = 0; q < hs.size(); q++)
        s.add("histories-" + SC[q].name, ipow(hs[q].al.size(), depth), [=](uint64_t i) { run_hist(hs[q], i, depth, true); }, [=](uint64_t i) { return hist_str(hs[q], i, depth); });
    // one result held while every configuration is evaluated, nodes deleted and LUTs queried
    static std::vector<std::vector<Config>> one; one.clear();
    static std::vector<std::vector<Step>> st; st.clear();
    for (auto &x : SC) { one.push_back(singles(x)); st.push_back(steps(x, one.back())); }
    for (size_t q = 0; q < SC.size(); q++)
        s.add("held-" + SC[q].name, st[q].size() * 3, [=](uint64_t i) {
            Digits d(i); const Step &x = d.pick(st[q]); int mode = int(d(3));
            CacheP cache = make_cache(mode == 1 ? 0 : mode == 2 ? 300 : 1 << 24);
            Built b; b.build(make(SC[q], one[q][x.cfg]));
            std::vector<std::unique_ptr<Held>> held;
            for (int rep = 0; rep < 2; rep++) { auto e = b.exec(x.target, cache, x.frame); agree(b, e, x.target, x.frame, "the held result");
                auto p = std::unique_ptr<Held>(new Held{b.g.output_stream(), {}, sfmt("result %d", rep)}); p->at = snap(p->s); held.push_back(std::move(p)); }
            auto look = [&](const std::string &after) { for (auto &p : held) { std::string df = diff(snap(p->s), p->at, true); REQUIRE(df.empty(), "%s changed after %s (now vs then): %s", p->what.c_str(), after.c_str(), df.c_str()); } };
            for (size_t k = 0; k < st[q].size(); k += 1) {
                const Step &y = st[q][(k * 7 + i) % st[q].size()];
                if (k % 3) continue;
                b.become(make(SC[q], one[q][y.cfg])); auto e = b.exec(y.target, cache, y.frame); (void)e;
                look(step_str(SC[q], one[q], y));
            }
            b.become(make(SC[q], one[q][x.cfg]));
            for (int n = int(b.h.size()) - 1; n >= 0; n--) {
                bool cached = n % 2;
                if (cached) { transition(); ocg::get_color_ops_lut(held[0]->s, 3, 3, cache); look("a LUT query"); }
                b.g.delete_node(b.h[n]); transition(); look(sfmt("deleting n%d", n));
            }
            cache->set_capacity_bytes(0); look("emptying the cache");
            cache.reset(); look("releasing the cache");
        }, [=](uint64_t i) { Digits d(i); const Step &x = d.pick(st[q]); return SC[q].name + ": " + step_str(SC[q], one[q], x) + sfmt(" held, cache mode %d", int(d(3))); });
}
Register r9("C09", build_immutable);

// ---------------------------------------------------------------- C08
uint64_t content(const Snap &s) {
    uint64_t h = fnv(s.bytes.data(), s.bytes.size());
    h = fnv(&s.disp, sizeof s.disp, h); h = fnv(&s.data, sizeof s.data, h);
    h = mix(h, s.w); h = mix(h, s.h); h = mix(h, s.nch); h = mix(h, s.dt);
    h = fnv(s.defprobe.data(), s.defprobe.size() * 4, h);
    return fnv(s.opprobe.data(), s.opprobe.size() * 4, h);
}
struct Seen { uint64_t content; std::string what; Snap snap; };
void distinct(std::unordered_map<uint64_t, Seen> &m, const Snap &s, const std::string &what) {
    static Snap ph; static bool init = false;
    if (!init) { Recipe r; r.add(NodeType::kNull); ph = fresh(r, 0, 1).snap; init = true; }
    uint64_t c = content(s);
    if (s.hash == 0) { REQUIRE(c == content(ph), "%s has hash zero but is not the placeholder: %s", what.c_str(), diff(s, ph).c_str()); return; }
    auto it = m.find(s.hash);
    if (it == m.end()) { m[s.hash] = {c, what, s}; return; }
    REQUIRE(it->second.content == c, "two different results have hash %llx: %s and %s (%s)", (unsigned long long)s.hash, it->second.what.c_str(), what.c_str(), diff(it->second.snap, s).c_str());
}
void build_hash(Suite &s) {
    s.fixture = rec::write_files;
    s.assumptions = {"different results are detected on the probes of pending operations and all pixels", "image files do not change on disk"};
    static const auto &SC = scenes();
    static std::vector<std::vector<Config>> one, two;
    static std::vector<std::vector<Step>> st1, st2;
    one.clear(); two.clear(); st1.clear(); st2.clear();
    for (auto &x : SC) { one.push_back(singles(x)); two.push_back(doubles(x, s.thorough ? 1000 : 2)); st1.push_back(steps(x, one.back())); st2.push_back(steps(x, two.back())); }
    auto stable = [](const Scene &sc, const Recipe &r, const Step &x, const Recipe &before) {
        const Result want = fresh(r, x.target, x.frame);
        auto same = [&](Built &b, ExecuteStatus e, const char *what) {
            Result got = result_of(b, x.target, e);
            REQUIRE(got.snap.hash == want.snap.hash, "stream hash %s is %llx, of a fresh evaluation %llx", what, (unsigned long long)got.snap.hash, (unsigned long long)want.snap.hash);
            REQUIRE(got.snap.opshash == want.snap.opshash, "colour-operation hash %s is %llx, of a fresh evaluation %llx", what, (unsigned long long)got.snap.opshash, (unsigned long long)want.snap.opshash);
        };
        { Built b; b.build(r, 7777, 1); CacheP c = make_cache(0); same(b, b.exec(x.target, c, x.frame), "with other identifiers and construction order"); }
        { Built b; b.build(r); CacheP c = make_cache(1 << 20); b.exec(x.target, c, x.frame); same(b, b.exec(x.target, c, x.frame), "from the cache"); c->set_capacity_bytes(0); same(b, b.exec(x.target, c, x.frame), "after emptying the cache"); }
        { Built b; b.build(before, 50); CacheP c = make_cache(1 << 20); b.exec(sc.targets[0], c, x.frame + 1); b.g.create_node(NodeType::kGrade, uint64_t(5)); b.become(r); same(b, b.exec(x.target, c, x.frame), "after edits"); }
        state(want.snap.hash);
    };
    for (size_t q = 0; q < SC.size(); q++) {
        s.add("stable-" + SC[q].name, st1[q].size(), [=](uint64_t i) { auto &x = st1[q][i]; stable(SC[q], make(SC[q], one[q][x.cfg]), x, make(SC[q], one[q][(x.cfg * 5 + 3) % one[q].size()])); },
            [=](uint64_t i) { return SC[q].name + ": " + step_str(SC[q], one[q], st1[q][i]); });
        s.add("stable-two-changes-" + SC[q].name, st2[q].size(), [=](uint64_t i) { auto &x = st2[q][i]; stable(SC[q], make(SC[q], two[q][x.cfg]), x, SC[q].base); },
            [=](uint64_t i) { return SC[q].name + ": " + step_str(SC[q], two[q], st2[q][i]); });
        s.add("distinct-" + SC[q].name, 1, [=](uint64_t) {
            std::unordered_map<uint64_t, Seen> m;
            for (int k = 0; k < 2; k++) { auto &cf = k ? two[q] : one[q]; for (auto &x : k ? st2[q] : st1[q]) { Result r = fresh(make(SC[q], cf[x.cfg]), x.target, x.frame); r.snap.bytes.shrink_to_fit(); distinct(m, r.snap, step_str(SC[q], cf, x)); state(r.snap.hash); } }
        }, [=](uint64_t) { return SC[q].name + ": all pairs of configurations with up to two changes"; });
    }
    s.add("distinct-flags", FL.size() * 2, [](uint64_t i) {
        Digits d(i); auto &f = d.pick(FL); bool bake = d(2); std::unordered_map<uint64_t, Seen> m;
        for (auto &t : attrs::types()) if (t.type == f.first)
            for (uint64_t mask = 0; mask < ipow(2, f.second.size()); mask++) {
                std::map<std::string, Val> at; std::string what; for (size_t k = 0; k < f.second.size(); k++) { at[f.second[k]] = I(mask >> k & 1); what += sfmt("%s=%d ", f.second[k], int(mask >> k & 1)); }
                for (auto &a : t.attrs) { if (at.count(a.name)) continue; for (auto &v : variants(a, false)) { auto one = at; one[a.name] = v; auto c = chain(f.first, one, bake); Result r = fresh(c.first, c.second, 1); distinct(m, r.snap, what + a.name + "=" + v.str()); state(r.snap.hash); } }
            }
    }, [](uint64_t i) { Digits d(i); auto &f = d.pick(FL); for (auto &t : attrs::types()) if (t.type == f.first) return sfmt("%s: every combination of its switches and every value of one other attribute%s", t.name, d(2) ? ", baked" : ""); return std::string(); });
    s.add("distinct-odd-switches", FL.size() * 2, [](uint64_t i) {
        Digits d(i); auto &f = d.pick(FL); bool bake = d(2); std::unordered_map<uint64_t, Seen> m;
        for (auto &x : odd_switches(f, bake)) { Result r = fresh(x.r, x.n, 1); distinct(m, r.snap, x.what); state(r.snap.hash); }
    }, [](uint64_t i) { Digits d(i); auto &f = d.pick(FL); bool bake = d(2); return sfmt("switches of node type %d set to 0, 1, 2, -1 and 255, with every value of one other attribute%s", int(f.first), bake ? ", baked" : ""); });
    s.add("distinct-attribute-pairs", attr_pairs().size() * 2, [](uint64_t i) {
        Digits d(i); auto &p = d.pick(attr_pairs()); bool bake = d(2); std::unordered_map<uint64_t, Seen> m;
        for (auto &x : pair_cases(p, bake)) { Result r = fresh(x.r, x.n, 1); distinct(m, r.snap, x.what); state(r.snap.hash); }
    }, [](uint64_t i) { Digits d(i); auto &p = d.pick(attr_pairs()); return sfmt("%s: all values of %s and %s with every switch%s", p.name, p.a.name, p.b.name, d(2) ? ", baked" : ""); });
    // many values of one attribute: hashes that keep fewer bits than they should coincide
    static uint32_t MANY; MANY = s.thorough ? 1000000 : 300000;
    s.add("distinct-many-values", 6, [](uint64_t k) {
        G g; CacheP c = make_cache(0); Node n = g.make(NodeType::kNull), a, t;
        a = g.make(k == 1 ? NodeType::kGrade : k == 2 ? NodeType::kLensDistort : k == 3 ? NodeType::kCropImage : NodeType::kTransform); g.con(n, a);
        if (k == 4) { t = g.make(NodeType::kGrade); g.f(t, "multiply_r", 2); g.con(a, t); }
        else if (k == 5) { t = g.make(NodeType::kCropImage); g.i(t, "window_max_x", 1); g.i(t, "window_max_y", 1); g.i(t, "window_min_x", -1); g.i(t, "use_cache", 0); g.con(a, t); }
        else t = a;
        if (k == 3) g.i(a, "use_cache", 0);
        std::unordered_map<uint64_t, uint32_t> m; m.reserve(MANY);
        for (uint32_t v = 0; v < MANY; v++) {
            if (k == 3) { int x = 10 + int(v % 1000), y = 10 + int(v / 1000); g.i(a, "window_min_x", x); g.i(a, "window_min_y", y); g.i(a, "window_max_x", x + 1); g.i(a, "window_max_y", y + 1); }
            else g.f(a, k == 1 ? "multiply_r" : k == 2 ? "distortion" : "translate_x", 1 + float(v) / (1 << 20));
            auto st = g.exec(t, c); REQUIRE(st == ExecuteStatus::kSuccess, "value %u: execution did not succeed (%d)", v, int(st));
            uint64_t h = g.out().hash(); auto it = m.emplace(h, v);
            REQUIRE(it.second, "value %u and value %u of %u give different results with the same hash %016llx", it.first->second, v, MANY, (unsigned long long)h);
        }
        for (auto &x : m) state(x.first);
    }, [](uint64_t k) { return sfmt("%u values of %s", MANY, std::vector<const char *>{"a transform", "a grade", "a lens", "a crop window", "a transform below a grade", "a transform below a crop"}[k]); });
    static std::vector<std::pair<NodeType, attrs::A>> fl; fl.clear(); for (auto &t : attrs::types()) if (t.type != NodeType::kWriteImage) for (auto &a : t.attrs) if (a.type == 'f') fl.push_back({t.type, a});
    s.add("distinct-fine-values", fl.size() * 2, [](uint64_t i) {
        Digits d(i); auto &f = d.pick(fl); bool bake = d(2); std::unordered_map<uint64_t, Seen> m;
        for (auto &v : variants(f.second, true)) { if (bake && f.first != NodeType::kGrade && std::fabs(v.f) > 8) continue; /* would ask for an image of unreasonable size */ auto c = chain(f.first, {{f.second.name, v}, {"process_a", I(1)}}, bake); if (f.first != NodeType::kGrade) c.first.n[bake ? c.second - 1 : c.second].attrs.erase("process_a"); Result r = fresh(c.first, c.second, 1); distinct(m, r.snap, sfmt("%s=%.9g", f.second.name, v.f)); state(r.snap.hash); }
    }, [](uint64_t i) { Digits d(i); auto &f = d.pick(fl); return sfmt("values of %s that are close, tiny or huge", f.second.name); });
    static const std::vector<double> fr = {-2, -0.75, -0.5, 0, 0.25, 0.5, 0.75, 1, 1.25, 1.4999, 1.5, 1.75, 2, 2.25, 2.5, 2.75, 3, 3.25, 3.5, 4, 65537};
    static std::vector<std::string> al; al = alike();
    s.add("distinct-files-and-frames", 2, [](uint64_t bake) {
        std::unordered_map<uint64_t, Seen> m;
        auto one = [&](const std::string &p, double f) { Recipe r; int n = r.add(NodeType::kReadImage, {{"file_path", S(p)}}); if (bake) n = r.add(NodeType::kViewer, {{"bake_option", I(3)}}, {n}); Result x = fresh(r, n, f); distinct(m, x.snap, sfmt("%s at frame %g", p.c_str(), f)); state(x.snap.hash); };
        for (auto &p : al) for (double f : {1.0, 2.0}) one(p, f);
        for (double f : fr) one(seq_path(), f);
        for (double f : fr) one(signed_path(), f);
        for (double f = -3; f <= 5; f += 0.25) one(signed_path(), f);
    }, [](uint64_t b) { return std::string("files whose names look alike, and frames of a sequence") + (b ? ", baked" : ""); });
    s.add("distinct-fine-numbers", 4, [](uint64_t i) {
        std::unordered_map<uint64_t, Seen> m; const char *a = std::vector<const char *>{"window_min_x", "window_min_y", "window_max_x", "window_max_y"}[i]; bool lo = i < 2;
        for (int v : {0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 258, 259, 32768, 65536, 65537, 65538, 65539}) { auto c = chain(NodeType::kCropImage, {{a, I(lo ? -v : v)}}, false); Result r = fresh(c.first, c.second, 1); distinct(m, r.snap, sfmt("%s=%d", a, lo ? -v : v)); state(r.snap.hash); }
    }, [](uint64_t i) { return sfmt("crop windows of very different sizes, side %d", int(i)); });
    // windows that are the same after packing two of their numbers into one
    static const std::vector<int> B = {3, 8, 10, 16, 31, 37, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 10000, 65536};
    s.add("distinct-packed-windows", 1, [](uint64_t) {
        std::unordered_map<uint64_t, Seen> m;
        for (int b : B) for (const Win &w : std::vector<Win>{{0, b, 2, b + 1}, {1, 0, 2, b + 1}, {b, 0, b + 1, 2}, {0, 1, b + 1, 2}, {0, 0, 1, b + 1}, {0, 0, 2, 1}, {0, 0, b + 1, 1}, {0, 0, 1, 2}, {0, 0, b + 2, 1}, {1, 0, 2, 1}, {0, 1, 1, 2}, {0, 0, 1, b + 2}, {-1, b, 1, b + 1}, {0, -b, 1, 1}, {-b, 0, 1, 1}})
            for (int flags = 0; flags < 4; flags++) { auto c = chain(NodeType::kCropImage, {{"window_min_x", I(w.x0)}, {"window_min_y", I(w.y0)}, {"window_max_x", I(w.x1)}, {"window_max_y", I(w.y1)}, {"reformat", I(flags & 1)}, {"black_outside", I(flags >> 1)}}, false);
                Result r = fresh(c.first, c.second, 1); distinct(m, r.snap, w.str() + sfmt(" flags %d", flags)); state(r.snap.hash); }
    }, [](uint64_t) { return std::string("crop windows whose numbers give the same when packed together"); });
    // every pair of attributes of a node over a grid of values: sums, products and swaps of two values coincide
    struct P2 { NodeType t; attrs::A a, b; };
    static std::vector<P2> p2; p2.clear();
    for (auto &t : attrs::types()) if (t.type != NodeType::kWriteImage && t.type != NodeType::kReadImage) for (size_t a = 0; a < t.attrs.size(); a++) for (size_t b = 0; b < a; b++) {
        auto good = [](const attrs::A &x) { std::string n = x.name; return x.type == 'f' || n.compare(0, 7, "window_") == 0 || n == "mode" || n == "factor"; };
        if (good(t.attrs[a]) && good(t.attrs[b])) p2.push_back({t.type, t.attrs[b], t.attrs[a]}); }
    s.add("distinct-value-pairs", p2.size(), [](uint64_t i) {
        auto &q = p2[i]; std::unordered_map<uint64_t, Seen> m;
        auto grid = [](const attrs::A &x) { std::string n = x.name; std::vector<Val> v; if (x.type == 'f') for (float f : {0.5f, 1.0f, 1.5f, 2.0f, 3.0f, -1.0f, -0.5f}) v.push_back(F(f));
            else if (n == "mode") v = {I(0), I(1), I(2)}; else if (n == "factor") v = {I(-2), I(-1), I(0), I(1)}; else if (n.compare(0, 10, "window_min") == 0) for (int k = -3; k < 3; k++) v.push_back(I(k)); else for (int k = 2; k < 8; k++) v.push_back(I(k)); return v; };
        for (auto &x : grid(q.a)) for (auto &y : grid(q.b)) { std::map<std::string, Val> at = {{q.a.name, x}, {q.b.name, y}}; if (q.t == NodeType::kGrade) at["process_a"] = I(1);
            auto c = chain(q.t, at, false); Result r = fresh(c.first, c.second, 1); distinct(m, r.snap, std::string(q.a.name) + "=" + x.str() + " " + q.b.name + "=" + y.str()); state(r.snap.hash); }
    }, [](uint64_t i) { return std::string("all pairs of values of ") + p2[i].a.name + " and " + p2[i].b.name; });
    s.add("distinct-all-scenes", 1, [=](uint64_t) {
        std::unordered_map<uint64_t, Seen> m;
        for (size_t q = 0; q < SC.size(); q++) for (auto &x : st1[q]) for (double f : SC[q].frames) { Result r = fresh(make(SC[q], one[q][x.cfg]), x.target, f); distinct(m, r.snap, SC[q].name + ": " + step_str(SC[q], one[q], x)); state(r.snap.hash); }
    }, [](uint64_t) { return std::string("all pairs of configurations with one change, of all scenes"); });
}
Register r8("C08", build_hash);
}
