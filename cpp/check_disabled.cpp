// C10 disabled nodes and stale results.
#include "recipe.h"
using namespace mc;
using namespace rec;
namespace {
const std::vector<NodeType> THROUGH = {NodeType::kCropImage, NodeType::kResampleImage, NodeType::kGrade, NodeType::kTransform, NodeType::kLensDistort, NodeType::kViewer};
const char *type_name(NodeType t) { switch (int(t)) { case 0: return "Null"; case 1: return "ReadImage"; case 2: return "WriteImage"; case 3: return "Grade"; case 4: return "LensDistort"; case 5: return "Transform"; case 6: return "MergeImage"; case 7: return "CropImage"; case 8: return "Viewer"; case 9: return "ResampleImage"; } return "?"; }
// Settings with an effect if the node were enabled.
std::vector<std::pair<const char *, Val>> active(NodeType t, int v) {
    if (v == 0) return {};
    switch (t) {
    case NodeType::kCropImage: return {{"window_min_x", I(1)}, {"window_max_x", I(v == 1 ? 3 : 9)}, {"window_max_y", I(2)}, {"reformat", I(1)}, {"black_outside", I(v == 2)}};
    case NodeType::kResampleImage: return {{"factor", I(v == 1 ? -1 : 2)}, {"interpolate", I(v == 2)}};
    case NodeType::kGrade: return {{"multiply_r", F(2)}, {"offset_g", F(0.25f)}, {"reverse", I(v == 2)}};
    case NodeType::kTransform: return {{"translate_x", F(1.5f)}, {"scale_y", F(0.5f)}, {"invert", I(v == 2)}};
    case NodeType::kLensDistort: return {{"distortion", F(0.25f)}, {"direction", I(v == 2)}};
    case NodeType::kViewer: return {{"bake_option", I(v == 1 ? 3 : 1)}, {"bake_pixel_data_type", I(v == 1 ? 2 : 0)}, {"bake_color_space", S("sRGB")}, {"crop_to_format", I(v == 1)}};
    case NodeType::kMergeImage: return {{"mode", I(v == 1 ? 0 : 2)}, {"mix", F(0.5f)}};
    case NodeType::kReadImage: return {{"file_path", S(cat::files()[v].f.path)}};
    default: return {};
    }
}
int add_in(Recipe &r, int file, const cat::Chain &ch) {
    int n = file < 0 ? r.add(NodeType::kNull) : r.add(NodeType::kReadImage, {{"file_path", S(cat::files()[file].f.path)}});
    for (int k : ch) {
        auto &o = cat::pend_ops()[k]; NodeType t = o.kind == 0 ? NodeType::kGrade : o.d.lens ? NodeType::kLensDistort : NodeType::kTransform;
        n = r.add(t, active(t, 1 + k % 2), {n});
    }
    return n;
}
std::string neq(const Snap &a, const Snap &b) { return diff(a, b, false); }
void build(Suite &s) {
    s.fixture = rec::write_files;
    s.assumptions = {"a disabled writer is outside this property", "any enable value other than 0 and 1 is outside this property"};
    static std::vector<cat::Chain> chains;
    chains = {{}};
    for (int a = 0; a < int(cat::pend_ops().size()); a++) chains.push_back({a});
    for (int a : {0, 2, 3, 6, 7}) for (int b : {1, 4, 5, 6}) chains.push_back({a, b});
    const int NF = cat::SMALL + 1;
    const int settings = 3;
    struct C { NodeType t; int set, file, wiring; cat::Chain ch; bool disabled_upstream; };
    auto dec = [=](uint64_t i) { Digits d(i); C c; c.t = d.pick(THROUGH); c.set = int(d(settings)); c.file = int(d(NF)) - 1; c.wiring = int(d(4)); c.ch = d.pick(chains); c.disabled_upstream = d(2); return c; };
    s.add("disabled-is-transparent", THROUGH.size() * settings * NF * 4 * chains.size() * 2, [=](uint64_t i) {
        C c = dec(i); Recipe r; int a = add_in(r, c.file, c.ch), b = add_in(r, (c.file + 2) % cat::SMALL, {1});
        if (c.disabled_upstream) { NodeType u = THROUGH[(int(c.t) + c.set) % THROUGH.size()]; auto at = active(u, 2); at.push_back({"enable", I(0)}); a = r.add(u, at, {a}); }
        auto at = active(c.t, c.set); at.push_back({"enable", I(0)});
        std::vector<int> in = c.wiring == 0 ? std::vector<int>{a} : c.wiring == 1 ? std::vector<int>{-1, a} : c.wiring == 2 ? std::vector<int>{a, b} : std::vector<int>{-1, a, b};
        int x = r.add(c.t, at, in);
        Built g; g.build(r, 100, c.wiring == 3); CacheP cache = make_cache(1 << 20), none = make_cache(0);
        auto st = g.exec(a, none, 1); REQUIRE(st == ExecuteStatus::kSuccess, "executing the input failed");
        auto o = g.g.output_stream(); Snap want = snap(o);
        for (int rep = 0; rep < 3; rep++) {
            CacheP &k = rep == 0 ? none : cache;
            if (rep == 2) g.exec(b, k, 1);
            st = g.exec(x, k, 1); REQUIRE(st == ExecuteStatus::kSuccess, "execution failed");
            auto out = g.g.output_stream(); Snap got = snap(out);
            std::string df = neq(got, want);
            REQUIRE(df.empty(), "disabled %s does not pass its input on (%s): %s", type_name(c.t), rep == 0 ? "no cache" : rep == 1 ? "cache" : "cache, after another execution", df.c_str());
            REQUIRE(g.g.node_status(g.h[x]) == NodeStatus::kValid, "disabled %s with an input has status %s", type_name(c.t), status_name(g.g.node_status(g.h[x])));
            state(fp(got));
        }
        // it is not enable-blind: enabling and disabling again is transparent too
        g.g.set_node_attr_i32(g.h[x], "enable", 1); g.exec(x, cache, 1); g.g.set_node_attr_i32(g.h[x], "enable", 0); g.exec(x, cache, 1); transition(2);
        auto out = g.g.output_stream(); std::string df = neq(snap(out), want);
        REQUIRE(df.empty(), "%s disabled after an execution does not pass its input on: %s", type_name(c.t), df.c_str());
    }, [=](uint64_t i) { C c = dec(i); return sfmt("disabled %s, settings %d, wiring %d, input %s%s%s", type_name(c.t), c.set, c.wiring, c.file < 0 ? "placeholder" : cat::files()[c.file].key, cat::chain_str(c.ch).c_str(), c.disabled_upstream ? " through another disabled node" : ""); });

    // nodes that work on the placeholder, after every kind of preceding execution
    static const std::vector<NodeType> ALL = {NodeType::kNull, NodeType::kReadImage, NodeType::kGrade, NodeType::kLensDistort, NodeType::kTransform, NodeType::kMergeImage, NodeType::kCropImage, NodeType::kViewer, NodeType::kResampleImage};
    s.add("placeholder", ALL.size() * 2 * 3 * 6 * 2 * 2, [=](uint64_t i) {
        Digits d(i); NodeType t = d.pick(ALL); int en = int(d(2)), set = int(d(3)), prior = int(d(6)); bool inputs = d(2), cached = d(2);
        if (inputs && !((t == NodeType::kMergeImage) && !en)) return;          // only a disabled merge ignores its inputs
        if (t == NodeType::kReadImage && en && set) return;                       // reads its file
        if (t == NodeType::kMergeImage && inputs && en) return;
        Recipe r; int a = add_in(r, 0, {0, 3}), b = add_in(r, 2, {});
        int big = r.add(NodeType::kViewer, {{"bake_option", I(3)}}, {a});
        int cyc = r.add(NodeType::kNull), cyc2 = r.add(NodeType::kNull, {}, {cyc}); r.n[cyc].in[0] = cyc2;
        auto at = active(t, set); if (t != NodeType::kNull) at.push_back({"enable", I(en)});
        int x = r.add(t, at, inputs ? std::vector<int>{a, b} : std::vector<int>{});
        Built g; g.build(r); CacheP cache = make_cache(cached ? 1 << 20 : 0);
        if (prior == 1) g.exec(a, cache, 1); else if (prior == 2) g.exec(big, cache, 1); else if (prior == 3) g.exec(cyc, cache, 1); else if (prior == 4) { g.exec(b, cache, 2); g.exec(x, cache, 1); } else if (prior == 5) { std::vector<double> f{1}; g.g.execute(Node(NodeType::kNull, uint64_t(4242)), f, cache); }
        auto st = g.exec(x, cache, 1); REQUIRE(st == ExecuteStatus::kSuccess, "execution failed");
        auto out = g.g.output_stream(); Snap got = snap(out);
        ref::Stream want = ref::placeholder();
        if (en && set) {
            if (t == NodeType::kGrade) { ref::Grade q; q.v[4][0] = 2; q.v[5][1] = 0.25f; q.reverse = set == 2; want.ops.push_back(q); }
            if (t == NodeType::kTransform) { ref::Deform q; q.tx = 1.5f; q.sy = 0.5f; q.dir = set == 2; want.defs.push_back(q); }
            if (t == NodeType::kLensDistort) { ref::Deform q; q.lens = true; q.lp[2] = 0.25f; q.dir = set == 2; want.defs.push_back(q); }
        }
        if (t == NodeType::kViewer && en && set) {
            // a viewer without inputs bakes the placeholder
            ref::bake(want, set == 1 ? 3 : 1, "sRGB", set == 1 ? 2 : 0);
        }
        ref::Tol tol; tol.codes = 1;
        bool ops = (t == NodeType::kGrade || t == NodeType::kTransform || t == NodeType::kLensDistort);
        if (!(ops && en && !set)) {       // default settings: whether an identity operation is pending is not specified
            std::string df = ref::compare(got, want, tol, &out);
            REQUIRE(df.empty(), "%s %s: %s", en ? "enabled" : "disabled", type_name(t), df.c_str());
        }
        REQUIRE(g.g.node_status(g.h[x]) == NodeStatus::kWarning, "%s %s without an image has status %s", en ? "enabled" : "disabled", type_name(t), status_name(g.g.node_status(g.h[x])));
        Result f = fresh(r, x, 1); std::string df = compare(result_of(g, x, st), f, true);
        REQUIRE(df.empty(), "differs from a fresh evaluation: %s", df.c_str());
        state(fp(got));
    }, [=](uint64_t i) { Digits d(i); NodeType t = d.pick(ALL); int en = int(d(2)), set = int(d(3)), prior = int(d(6)); int inputs = d(2), c = d(2); return sfmt("%s %s, settings %d, %s, preceding execution %d%s", en ? "enabled" : "disabled", type_name(t), set, inputs ? "with inputs" : "no inputs", prior, c ? ", cache" : ""); });

    // every sequence of executions in a graph with every kind of node, enabled and not, connected and not
    static Recipe big; static std::vector<int> tg; big = Recipe(); tg.clear();
    { int a = add_in(big, 0, {}), b = add_in(big, 3, {0, 4}); tg.push_back(a); tg.push_back(b);
      for (NodeType t : ALL) for (int en = 0; en < 2; en++) for (int con = 0; con < 3; con++) {
          if (t == NodeType::kNull && en) continue; if (t == NodeType::kReadImage && con) continue; if (con == 2 && t != NodeType::kMergeImage && t != NodeType::kViewer) continue;
          auto at = active(t, con == 2 ? 2 : 1); if (t != NodeType::kNull) at.push_back({"enable", I(en)});
          tg.push_back(big.add(t, at, con == 0 ? std::vector<int>{} : con == 1 ? std::vector<int>{b} : std::vector<int>{a, b}));
      }
      int cyc = big.add(NodeType::kNull), cyc2 = big.add(NodeType::kCropImage, {}, {cyc}); big.n[cyc].in[0] = cyc2; tg.push_back(cyc2); }
    static const std::vector<std::pair<unsigned, bool>> ds = {{3, true}, {3, false}};
    auto hist = [&](unsigned depth, bool cached) {
        uint64_t N = tg.size();
        s.add(sfmt("executions-depth-%u%s", depth, cached ? "-cached" : ""), ipow(N, depth), [=](uint64_t i) {
            Built g; g.build(big); CacheP cache = make_cache(cached ? 1 << 20 : 0); int k = 0;
            for (int o : seq(i, N, depth)) {
                int x = tg[o]; auto st = g.exec(x, cache, 1); k++;
                const Result &want = fresh_memo(big, x, 1);
                REQUIRE(st == want.st, "execution %d: status %d, fresh %d", k, int(st), int(want.st));
                if (st != ExecuteStatus::kSuccess) continue;
                std::string df = compare(result_of(g, x, st), want, true);
                REQUIRE(df.empty(), "execution %d (n%d, %s) differs from a fresh evaluation: %s", k, x, type_name(big.n[x].type), df.c_str());
            }
            state(i);
        }, [=](uint64_t i) { std::string r; for (int o : seq(i, N, depth)) { auto &n = big.n[tg[o]]; auto e = n.attrs.find("enable"); r += sfmt("%sexecute %s%s with %zu inputs", r.empty() ? "" : ", ", e != n.attrs.end() && e->second.i == 0 ? "disabled " : "", type_name(n.type), n.in.size()); } return r; });
    };
    hist(s.thorough ? 4 : 3, true); hist(s.thorough ? 3 : 2, false);
}
Register r("C10", build);
}
