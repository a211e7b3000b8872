// C11 merge, C12 crop, C24 viewer, C10 disabled nodes.
#include "cat.h"
#include <unistd.h>
using namespace mc;
namespace {
// ---------------------------------------------------------------- C12
struct Crop { Win w; int reformat, black; };
void crop_case(int file, const cat::Chain &ch, Crop c, bool cached) {
    G g;
    ref::Stream s;
    Node n;
    if (file < 0) { n = g.make(NodeType::kNull); s = ref::placeholder(); }
    else { n = cat::reader(g, file); s = cat::stream(file); }
    n = cat::chain_node(g, n, ch);
    cat::chain_ref(s, ch);
    Node k = g.make(NodeType::kCropImage);
    g.i(k, "window_min_x", c.w.x0); g.i(k, "window_min_y", c.w.y0); g.i(k, "window_max_x", c.w.x1); g.i(k, "window_max_y", c.w.y1);
    g.i(k, "reformat", c.reformat); g.i(k, "black_outside", c.black);
    g.con(n, k);
    auto cache = make_cache(cached ? 1 << 20 : 0);
    c.w.x1 = std::max(c.w.x0, c.w.x1); c.w.y1 = std::max(c.w.y0, c.w.y1);
    ref::Stream want = ref::crop(s, c.w, c.reformat, c.black);
    for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
        auto st = g.exec(k, cache);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out();
        Snap got = snap(out, false);
        std::string d = ref::compare(got, want, ref::Tol(), &out);
        REQUIRE(d.empty(), "%scrop result: %s", rep ? "cached " : "", d.c_str());
        state(fp(got));
    }
}
std::string crop_str(int f, const cat::Chain &ch, const Crop &c) {
    return sfmt("%s%s, crop %s%s%s", f < 0 ? "placeholder" : cat::files()[f].key, cat::chain_str(ch).c_str(), c.w.str().c_str(), c.reformat ? " reformat" : "", c.black ? " black outside" : "");
}
// Two crops in a row, an operation between them.
void crop_crop(int file, Crop a, Crop b, int op, bool cached) {
    G g; auto cache = make_cache(cached ? 1 << 20 : 0);
    Node n = cat::reader(g, file); ref::Stream s = cat::stream(file);
    for (int k = 0; k < 2; k++) {
        Crop &c = k ? b : a;
        Node m = g.make(NodeType::kCropImage);
        g.i(m, "window_min_x", c.w.x0); g.i(m, "window_min_y", c.w.y0); g.i(m, "window_max_x", c.w.x1); g.i(m, "window_max_y", c.w.y1);
        g.i(m, "reformat", c.reformat); g.i(m, "black_outside", c.black); g.con(n, m); n = m;
        s = ref::crop(s, c.w, c.reformat, c.black);
        if (!k && op >= 0) { n = cat::chain_node(g, n, {op}); cat::chain_ref(s, {op}); }
    }
    for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
        auto st = g.exec(n, cache);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        std::string d = ref::compare(got, s, ref::Tol(), &out);
        REQUIRE(d.empty(), "%sresult of the second crop: %s", rep ? "cached " : "", d.c_str());
        state(fp(got));
    }
}
void build_crop(Suite &s) {
    s.fixture = [] { cat::write_files(); cat::write_values(); };
    s.assumptions = {"positions that fall on a sampling tie of the deformers are not compared", "images up to 300 x 260 pixels"};
    static const std::vector<cat::Chain> chains = {{}, {0}, {2}, {3}, {4}, {6}, {0, 4}, {1, 7, 2}, {5, 6}, {4, 3}, {0, 1}, {1, 0}, {7, 4}, {4, 7}};
    static std::vector<Win> wins, all, big;
    wins.clear(); all.clear(); big.clear();
    for (int x0 : {-3, 0, 1, 4}) for (int w : {1, 3, 6}) for (int y0 : {-2, 0, 2}) for (int h : {1, 4}) wins.push_back({x0, y0, x0 + w, y0 + h});
    int R = s.thorough ? 8 : 7;
    for (int x0 = -4; x0 <= R; x0++) for (int x1 = x0 + 1; x1 <= R + 1; x1++) for (int y0 = -4; y0 <= R; y0++) for (int y1 = y0 + 1; y1 <= R + 1; y1++) all.push_back({x0, y0, x1, y1});
    for (int x0 : {-400, -8, -7, 0, 13, 270, 292, 1000}) for (int w : {1, 257, 700}) for (int y0 : {-300, -3, 0, 100, 256}) for (int h : {1, 300}) big.push_back({x0, y0, x0 + w, y0 + h});
    big.push_back({2000000000, -2000000000, 2000000003, -1999999998}); big.push_back({-2000000000, 2000000000, -1999999999, 2000000001});
    int nf = cat::SMALL + 1;
    auto add = [&](const char *name, std::vector<Win> *w, const std::vector<cat::Chain> *chs, int f0, int nfile, int every) {
        auto dec = [=](uint64_t i, int &f, cat::Chain &ch, Crop &c) { Digits d(i); c.reformat = d(2); c.black = d(2); c.w = d.pick(*w); ch = d.pick(*chs); f = int(d(nfile)) + f0; };
        s.add(name, uint64_t(nfile) * chs->size() * w->size() * 4, [=](uint64_t i) { int f; cat::Chain ch; Crop c; dec(i, f, ch, c); crop_case(f, ch, c, i % every == 0); },
            [=](uint64_t i) { int f; cat::Chain ch; Crop c; dec(i, f, ch, c); return crop_str(f, ch, c); });
    };
    static std::vector<Win> empty;
    empty = {{0, 0, 0, 0}, {1, 1, 1, 3}, {1, 2, 4, 2}, {-5, -5, -5, -5}, {9, 9, 9, 12},
        {3, 3, 1, 1}, {4, 0, 2, 3}, {0, 5, 3, 2}, {-1, -1, -6, 4}, {2, 1, 1, 0}, {100, -3, -100, 3}};      // the last ones end before they start
    static const std::vector<cat::Chain> none = {{}}, few = {{}, {0, 7}, {3}};
    static std::vector<cat::Chain> pairs;
    pairs.clear();
    for (int a = 0; a < int(cat::pend_ops().size()); a++) for (int b = 0; b < int(cat::pend_ops().size()); b++) pairs.push_back({a, b});
    add("every-window", &all, &none, -1, nf, 5);
    add("pending-operations", &wins, s.thorough ? &pairs : &chains, -1, nf, 3);
    if (s.thorough) add("pending-operations-longer", &wins, &chains, -1, nf, 2);
    add("large-images", &big, &few, cat::SMALL, 1, 7);
    add("empty-windows", &empty, &chains, -1, nf, 3);
    static const std::vector<Crop> pc = {{{0, 0, 3, 3}, 0, 0}, {{1, 1, 5, 2}, 1, 0}, {{-2, 0, 2, 4}, 0, 1}, {{-1, -1, 7, 7}, 1, 1}, {{2, 2, 3, 3}, 0, 0}, {{1, 1, 1, 4}, 0, 0}};
    int no = int(cat::pend_ops().size()) + 1;
    s.add("crop-of-crop", pc.size() * pc.size() * no * cat::SMALL * 2, [=](uint64_t i) { Digits d(i); bool c = d(2); int f = int(d(cat::SMALL)); Crop a = d.pick(pc), b = d.pick(pc); crop_crop(f, a, b, int(d(no)) - 1, c); },
        [=](uint64_t i) { Digits d(i); bool c = d(2); int f = int(d(cat::SMALL)); Crop a = d.pick(pc), b = d.pick(pc); int o = int(d(no)) - 1;
            return crop_str(f, {}, a) + (o >= 0 ? cat::chain_str({o}) : "") + ", crop " + b.w.str() + (b.reformat ? " reformat" : "") + (b.black ? " black outside" : "") + (c ? ", twice with a cache" : ""); });
    static const std::vector<Crop> vc = {{{0, 0, 60, 60}, 0, 0}, {{2, 1, 9, 4}, 1, 0}, {{-3, -3, 50, 6}, 0, 1}, {{1, 0, 2, 5}, 1, 1}, {{11, 4, 12, 5}, 0, 0}};
    static const std::vector<cat::Chain> vch = {{}, {3}};
    size_t nv = cat::values().size();
    s.add("unusual-values", nv * vc.size() * vch.size() * 2, [=](uint64_t i) { Digits d(i); bool cached = d(2); int f = int(d(nv)); Crop c = d.pick(vc); cat::Chain ch = d.pick(vch);
        G g; Node k = g.make(NodeType::kCropImage); g.con(cat::chain_node(g, g.read(cat::values()[f].f.path), ch), k);
        g.i(k, "window_min_x", c.w.x0); g.i(k, "window_min_y", c.w.y0); g.i(k, "window_max_x", c.w.x1); g.i(k, "window_max_y", c.w.y1); g.i(k, "reformat", c.reformat); g.i(k, "black_outside", c.black);
        ref::Stream st = cat::value_stream(f); cat::chain_ref(st, ch); ref::Stream want = ref::crop(st, c.w, c.reformat, c.black); auto cache = make_cache(cached ? 1 << 20 : 0);
        for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
            REQUIRE(g.exec(k, cache) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out(); Snap got = snap(out, false);
            std::string r = ref::compare(got, want, ref::Tol(), &out); REQUIRE(r.empty(), "crop result: %s", r.c_str()); state(fp(got));
        } }, [=](uint64_t i) { Digits d(i); d(2); int f = int(d(nv)); Crop c = d.pick(vc); cat::Chain ch = d.pick(vch); return cat::values()[f].key + cat::chain_str(ch) + ", crop " + c.w.str(); });
}
Register r12("C12", build_crop);


// ---------------------------------------------------------------- C11
struct In { int file; cat::Chain ch; };
Node in_node(G &g, const In &i) { return cat::chain_node(g, i.file < 0 ? g.make(NodeType::kNull) : cat::reader(g, i.file), i.ch); }
ref::Stream in_ref(const In &i) { ref::Stream s = i.file < 0 ? ref::placeholder() : cat::stream(i.file); cat::chain_ref(s, i.ch); return s; }
std::string in_str(const In &i) { return (i.file < 0 ? "placeholder" : cat::files()[i.file].key) + cat::chain_str(i.ch); }
const char *mode_name[3] = {"add", "over", "multiply"};
void merge_case(const In &a, const In &b, int mode, float mix, int num_a, int num_b, bool cached) {
    G g; auto cache = make_cache(cached ? 1 << 22 : 0);
    Node A = in_node(g, a), B = in_node(g, b), m = g.make(NodeType::kMergeImage);
    if (mode != 1) g.i(m, "mode", mode);
    if (mix != 1) g.f(m, "mix", mix);
    // B first: the order of connecting must not matter
    g.con(B, m, num_b); g.con(A, m, num_a);
    ref::Stream want = num_a < num_b ? ref::merge(in_ref(a), in_ref(b), mode, mix) : ref::merge(in_ref(b), in_ref(a), mode, mix);
    for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
        auto st = g.exec(m, cache);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        std::string d = ref::compare(got, want, ref::Tol(), &out);
        REQUIRE(d.empty(), "%smerge result: %s", rep ? "cached " : "", d.c_str());
        state(fp(got));
    }
}
// A tree of merges: merge(merge(a, b), c) with an operation on the inner result.
void merge_tree(int a, int b, int c, int op, int m1, int m2, bool left) {
    G g; auto cache = make_cache(1 << 22);
    Node i = g.make(NodeType::kMergeImage), o = g.make(NodeType::kMergeImage);
    g.i(i, "mode", m1); g.i(o, "mode", m2); g.f(o, "mix", 0.75f);
    g.con(cat::reader(g, a), i, 0); g.con(cat::reader(g, b), i, 1);
    cat::Chain ch; if (op >= 0) ch.push_back(op);
    Node t = cat::chain_node(g, i, ch);
    g.con(t, o, left ? 0 : 1); g.con(cat::reader(g, c), o, left ? 1 : 0);
    ref::Stream in = ref::merge(cat::stream(a), cat::stream(b), m1, 1); cat::chain_ref(in, ch);
    ref::Stream want = left ? ref::merge(in, cat::stream(c), m2, 0.75) : ref::merge(cat::stream(c), in, m2, 0.75);
    for (int rep = 0; rep < 2; rep++) {
        REQUIRE(g.exec(o, cache) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        std::string d = ref::compare(got, want, ref::Tol(), &out);
        REQUIRE(d.empty(), "%sresult: %s", rep ? "cached " : "", d.c_str());
        state(fp(got));
    }
}
void build_merge(Suite &s) {
    s.assumptions = {"colour channels of images with three or four channels; sampling ties of deformers not compared", "images up to 300 x 260 pixels"};
    static const std::vector<float> mixes = {1, 0, 0.5f, 0.25f, 1.5f, -0.5f};
    static const std::vector<float> mixes2 = {1, 0.375f};
    static std::vector<In> ins, pairs;
    ins.clear(); pairs.clear();
    for (int f = -1; f < cat::SMALL; f++) for (const cat::Chain &ch : {cat::Chain{}, cat::Chain{0}, cat::Chain{2}, cat::Chain{3}, cat::Chain{6}, cat::Chain{1, 4}, cat::Chain{7, 0, 5}}) ins.push_back({f, ch});
    for (int f : {0, 1, 2, 3}) for (int a = 0; a < int(cat::pend_ops().size()); a++) for (int b = 0; b < int(cat::pend_ops().size()); b++) pairs.push_back({f, {a, b}});
    // windows: every placement of a small A relative to B
    static std::vector<Win> wa;
    wa.clear();
    int R = s.thorough ? 6 : 4;
    for (int x0 = -2; x0 <= R; x0++) for (int y0 = -2; y0 <= R; y0++) for (int w : {1, 2, 4, 7}) for (int h : {1, 3, 5}) wa.push_back({x0, y0, x0 + w, y0 + h});
    std::string dir = s.dir;
    s.fixture = [=] {
        cat::write_files(); cat::write_values();
        for (size_t k = 0; k < wa.size(); k++) for (int nch : {3, 4}) write_file({dir + sfmt("/w%zu_%d.exr", k, nch), {0, 0, 5, 4}, wa[k], nch, 0, pattern(wa[k], nch, 21)});
    };
    auto stream = [=](size_t k, int nch) { return ref::from_file({"", {0, 0, 5, 4}, wa[k], nch, 0, pattern(wa[k], nch, 21)}, "Linear"); };
    static const std::vector<Win> wb = {{0, 0, 3, 2}, {1, 1, 2, 2}, {-1, 0, 4, 3}};
    s.add("window-placements", wa.size() * wb.size() * 3 * 2 * 2 * 2, [=](uint64_t i) {
        Digits d(i); int mode = int(d(3)), na = 3 + int(d(2)), nb = 3 + int(d(2)); bool swap = d(2); Win b = d.pick(wb); size_t k = d(wa.size());
        G g; Node A = g.read(dir + sfmt("/w%zu_%d.exr", k, na)), m = g.make(NodeType::kMergeImage), F = cat::reader(g, nb == 4 ? 0 : 1), B = g.make(NodeType::kCropImage);
        g.i(B, "window_min_x", b.x0); g.i(B, "window_min_y", b.y0); g.i(B, "window_max_x", b.x1); g.i(B, "window_max_y", b.y1);
        g.con(F, B); g.i(m, "mode", mode); g.f(m, "mix", 0.5f);
        g.con(A, m, swap); g.con(B, m, !swap);
        ref::Stream sa = stream(k, na), sb = ref::crop(cat::stream(nb == 4 ? 0 : 1), b, false, false);
        ref::Stream want = swap ? ref::merge(sb, sa, mode, 0.5) : ref::merge(sa, sb, mode, 0.5);
        REQUIRE(g.exec(m) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        std::string r = ref::compare(got, want, ref::Tol(), &out);
        REQUIRE(r.empty(), "merge result: %s", r.c_str());
        state(fp(got));
    }, [=](uint64_t i) { Digits d(i); int mode = int(d(3)), na = 3 + int(d(2)), nb = 3 + int(d(2)); bool swap = d(2); Win b = d.pick(wb); size_t k = d(wa.size());
        return sfmt("%s of a %d-channel image over %s and a %d-channel image over %s%s", mode_name[mode], na, wa[k].str().c_str(), nb, b.str().c_str(), swap ? ", swapped" : ""); });
    // one or both images have no pixels (a crop to an empty window inside the other image)
    static const std::vector<Win> we = {{1, 1, 1, 1}, {0, 2, 0, 3}, {1, 0, 3, 0}, {2, 2, 2, 2}};
    s.add("images-without-pixels", we.size() * 2 * 3 * 2 * 3 * 2, [=](uint64_t i) {
        Digits d(i); Win w = d.pick(we); bool reformat = d(2); int mode = int(d(3)); bool cached = d(2); int which = int(d(3)), nb = int(d(2));   // which: 0 the background, 1 the foreground, 2 both are empty
        G g; Node m = g.make(NodeType::kMergeImage); g.i(m, "mode", mode); auto cache = make_cache(cached ? 1 << 20 : 0);
        auto empty = [&](int f, int num) { Node c = g.make(NodeType::kCropImage); g.i(c, "window_min_x", w.x0); g.i(c, "window_min_y", w.y0); g.i(c, "window_max_x", w.x1); g.i(c, "window_max_y", w.y1); g.i(c, "reformat", reformat); g.con(cat::reader(g, f), c); g.con(c, m, num); return ref::crop(cat::stream(f), w, reformat, false); };
        auto full = [&](int f, int num) { g.con(cat::reader(g, f), m, num); return cat::stream(f); };
        ref::Stream sa = which ? empty(0, 0) : full(0, 0), sb = which != 1 ? empty(nb * 9, 1) : full(nb ? 2 : 0, 1), want = ref::merge(sa, sb, mode, 1);
        for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
            REQUIRE(g.exec(m, cache) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out(); Snap got = snap(out, false);
            std::string r = ref::compare(got, want, ref::Tol(), &out); REQUIRE(r.empty(), "merge result: %s", r.c_str()); state(fp(got));
        }
    }, [=](uint64_t i) { Digits d(i); Win w = d.pick(we); bool reformat = d(2); int mode = int(d(3)); d(2); int which = int(d(3)); return sfmt("%s, %s cropped%s to the empty window %s", mode_name[mode], which == 0 ? "background" : which == 1 ? "foreground" : "both", reformat ? " and reformatted" : "", w.str().c_str()); });
    auto str = [=](const In &a, const In &b, int mode, float mix) { return "A: " + in_str(a) + "; B: " + in_str(b) + sfmt("; %s, mix %g", mode_name[mode], mix); };
    s.add("all-pairs", ins.size() * ins.size() * 3 * (s.thorough ? mixes.size() : 2), [=](uint64_t i) {
        Digits d(i); int mode = int(d(3)); float mix = g_suite->thorough ? d.pick(mixes) : d.pick(mixes2); In a = d.pick(ins), b = d.pick(ins); merge_case(a, b, mode, mix, 0, 1, i % 3 == 0); },
        [=](uint64_t i) { Digits d(i); int mode = int(d(3)); float mix = g_suite->thorough ? d.pick(mixes) : d.pick(mixes2); In a = d.pick(ins), b = d.pick(ins); return str(a, b, mode, mix); });
    s.add("mixes", (cat::SMALL + 1) * (cat::SMALL + 1) * 3 * mixes.size(), [=](uint64_t i) { Digits d(i); int mode = int(d(3)); float mix = d.pick(mixes); int a = int(d(cat::SMALL + 1)) - 1, b = int(d(cat::SMALL + 1)) - 1; merge_case({a, {}}, {b, {}}, mode, mix, 0, 1, false); },
        [=](uint64_t i) { Digits d(i); int mode = int(d(3)); float mix = d.pick(mixes); int a = int(d(cat::SMALL + 1)) - 1, b = int(d(cat::SMALL + 1)) - 1; return str({a, {}}, {b, {}}, mode, mix); });
    static const std::vector<std::pair<int, int>> nums = {{0, 1}, {1, 0}, {0, 255}, {255, 0}, {3, 2}, {1, 2}, {7, 200}};
    s.add("input-numbers", nums.size() * (cat::SMALL + 1) * (cat::SMALL + 1), [=](uint64_t i) { Digits d(i); auto n = d.pick(nums); int a = int(d(cat::SMALL + 1)) - 1, b = int(d(cat::SMALL + 1)) - 1; merge_case({a, {}}, {b, {}}, 1, 1, n.first, n.second, false); },
        [=](uint64_t i) { Digits d(i); auto n = d.pick(nums); int a = int(d(cat::SMALL + 1)) - 1, b = int(d(cat::SMALL + 1)) - 1; return str({a, {}}, {b, {}}, 1, 1) + sfmt(", inputs %d and %d", n.first, n.second); });
    s.add("pending-operation-pairs", pairs.size() * 3 * 3 * 2, [=](uint64_t i) { Digits d(i); int mode = int(d(3)); In o{int(d(3)) * 2, {}}; bool sw = d(2); In p = d.pick(pairs); if (sw) merge_case(o, p, mode, 0.5f, 0, 1, false); else merge_case(p, o, mode, 0.5f, 0, 1, false); },
        [=](uint64_t i) { Digits d(i); int mode = int(d(3)); In o{int(d(3)) * 2, {}}; bool sw = d(2); In p = d.pick(pairs); return sw ? str(o, p, mode, 0.5f) : str(p, o, mode, 0.5f); });
    int nt = s.thorough ? 10 : 5, no = int(cat::pend_ops().size()) + 1;
    s.add("trees", uint64_t(nt) * nt * nt * no * 9 * 2, [=](uint64_t i) { Digits d(i); bool l = d(2); int m1 = int(d(3)), m2 = int(d(3)), o = int(d(no)) - 1, a = int(d(nt)), b = int(d(nt)), c = int(d(nt)); merge_tree(a, b, c, o, m1, m2, l); },
        [=](uint64_t i) { Digits d(i); bool l = d(2); int m1 = int(d(3)), m2 = int(d(3)), o = int(d(no)) - 1, a = int(d(nt)), b = int(d(nt)), c = int(d(nt));
            return sfmt("%s(%s(%s, %s)%s, %s)%s", mode_name[m2], mode_name[m1], cat::files()[a].key, cat::files()[b].key, o < 0 ? "" : cat::pend_ops()[o].key, cat::files()[c].key, l ? "" : " swapped"); });
    s.add("large-images", (cat::SMALL + 1) * 3 * 2 * 2, [=](uint64_t i) { Digits d(i); int mode = int(d(3)); bool sw = d(2); int op = d(2) ? 6 : 0; In a{cat::SMALL, {op}}, b{int(d(cat::SMALL + 1)) - 1, {}}; if (sw) merge_case(b, a, mode, 0.5f, 0, 1, true); else merge_case(a, b, mode, 0.5f, 0, 1, false); },
        [=](uint64_t i) { Digits d(i); int mode = int(d(3)); bool sw = d(2); int op = d(2) ? 6 : 0; In a{cat::SMALL, {op}}, b{int(d(cat::SMALL + 1)) - 1, {}}; return sw ? str(b, a, mode, 0.5f) : str(a, b, mode, 0.5f); });
    // every combination of foreground value, foreground alpha, background value and background alpha
    static const std::vector<std::pair<int, int>> vp = {{0, 1}, {0, 6}, {5, 1}, {5, 6}, {2, -1}, {3, -1}, {4, -1}, {-1, 2}, {-1, 3}, {-1, 4}};
    auto vmix = [=](uint64_t k, size_t p) { return p < 4 ? mixes[k] : 1.0f; };
    s.add("values", vp.size() * 3 * mixes.size(), [=](uint64_t i) { Digits d(i); int mode = int(d(3)); size_t p = d(vp.size()); float mix = vmix(d(mixes.size()), p); int a = vp[p].first, b = vp[p].second;
        G g; Node m = g.make(NodeType::kMergeImage); g.i(m, "mode", mode); g.f(m, "mix", mix);
        auto src = [&](int k, int num) { if (k >= 0) { g.con(g.read(cat::values()[k].f.path), m, num); return cat::value_stream(k); } g.con(cat::reader(g, 0), m, num); return cat::stream(0); };
        ref::Stream sa = src(a, 0), sb = src(b, 1), want = ref::merge(sa, sb, mode, mix);
        // where an infinity or NaN takes part, only the channels it does not belong to are judged
        if (p >= 4) { want.skip.assign(want.px.size(), 0); auto odd = [](const ref::Stream &s, int x, int y, int c) { return s.data.has(x, y) && c < s.nch && !std::isfinite(s.at(x, y, c)); };
            for (int y = want.data.y0; y < want.data.y1; y++) for (int x = want.data.x0; x < want.data.x1; x++) for (int c = 0; c < want.nch; c++)
                if (odd(sa, x, y, c) || odd(sb, x, y, c) || (mode == 1 && odd(sa, x, y, 3))) want.skip[(size_t(y - want.data.y0) * want.data.w() + (x - want.data.x0)) * want.nch + c] = 1; }
        REQUIRE(g.exec(m) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out(); Snap got = snap(out, false);
        std::string r = ref::compare(got, want, ref::Tol(), &out); REQUIRE(r.empty(), "merge result: %s", r.c_str()); state(fp(got));
    }, [=](uint64_t i) { Digits d(i); int mode = int(d(3)); size_t p = d(vp.size()); float mix = vmix(d(mixes.size()), p); auto nm = [](int k) { return k < 0 ? cat::files()[0].key : cat::values()[k].key; };
        return sfmt("A: %s; B: %s; %s, mix %g", std::string(nm(vp[p].first)).c_str(), std::string(nm(vp[p].second)).c_str(), mode_name[mode], mix); });
}
Register r11("C11", build_merge);


// ---------------------------------------------------------------- C24
struct View { int option, dt; const char *cs; int crop; };
const char *opt_name[4] = {"nothing", "colour space", "colour space and grade", "all"};
std::string view_str(const View &v) { return sfmt("viewer bakes %s to %s %s%s", opt_name[v.option], v.cs, v.dt == 255 ? "same type" : dt_name(v.dt), v.crop ? ", cropped to format" : ""); }
Node view_node(G &g, Node in, const View &v) {
    Node n = g.make(NodeType::kViewer);
    if (v.option) g.i(n, "bake_option", v.option);
    if (v.dt != 1) g.i(n, "bake_pixel_data_type", v.dt);
    if (strcmp(v.cs, "Linear")) g.s(n, "bake_color_space", v.cs);
    if (v.crop) g.i(n, "crop_to_format", 1);
    g.con(in, n);
    return n;
}
ref::Stream view_ref(ref::Stream s, const View &v) {
    if (v.option == 0) return s;
    ref::bake(s, v.crop ? 3 : v.option, v.cs, v.dt);
    if (v.crop) {
        ref::Stream r = s; r.data = s.disp; r.px.clear(); r.amb.clear();
        for (int y = r.data.y0; y < r.data.y1; y++) for (int x = r.data.x0; x < r.data.x1; x++) {
            bool in = s.data.has(x, y);
            for (int c = 0; c < s.nch; c++) r.px.push_back(in ? s.at(x, y, c) : 0);
            r.amb.push_back(in ? s.amb_at(x, y) : 0);
        }
        return r;
    }
    return s;
}
ref::Tol view_tol(const ref::Stream &w) { ref::Tol t; t.codes = w.dt ? 1 : 0; return t; }
void view_case(const In &a, const View &v, int cached) {
    if (v.option == 1 && !v.crop && a.file >= 0 && !*cat::files()[a.file].cs) return;    // its colour space is not known
    G g; auto cache = make_cache(cached ? 1 << 22 : 0);
    Node src = in_node(g, a), n = view_node(g, src, v);
    ref::Stream want = view_ref(in_ref(a), v);
    for (int rep = 0; rep < (cached ? 2 : 1); rep++) {
        REQUIRE(g.exec(n, cache) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        std::string d = ref::compare(got, want, view_tol(want), &out);
        REQUIRE(d.empty(), "%sviewer output: %s", rep ? "cached " : "", d.c_str());
        state(fp(got));
    }
}
// Baking in two steps gives the same picture as baking at once.
void view_twice(const In &a, const View &v1, const View &v2, int between) {
    G g; auto cache = make_cache(1 << 22);
    Node n1 = view_node(g, in_node(g, a), v1);
    cat::Chain ch; if (between >= 0) ch.push_back(between);
    Node n2 = view_node(g, cat::chain_node(g, n1, ch), v2);
    ref::Stream s = view_ref(in_ref(a), v1); cat::chain_ref(s, ch);
    ref::Stream want = view_ref(s, v2);
    for (int rep = 0; rep < 2; rep++) {
        REQUIRE(g.exec(n2, cache) == ExecuteStatus::kSuccess, "execution did not succeed");
        auto out = g.out(); Snap got = snap(out, false);
        ref::Tol t = view_tol(want); t.codes = want.dt >= 2 ? (v1.dt != 0 || strcmp(v1.cs, "Linear") ? 4 : 1) : t.codes + 2; if (v1.dt || strcmp(v1.cs, "Linear")) { t.abs = 4e-3; t.rel = 4e-3; t.codes = want.dt == 3 ? 300 : 4; }
        std::string d = ref::compare(got, want, t, &out);
        REQUIRE(d.empty(), "%soutput of the second viewer: %s", rep ? "cached " : "", d.c_str());
        state(fp(got));
    }
}
void build_view(Suite &s) {
    s.fixture = [] { cat::write_files(); cat::write_values(); };
    s.assumptions = {"colour spaces Linear, sRGB and Rec709 of the image library's built-in configuration; sampling ties of deformers not compared", "one code value of slack after conversion to an integer or half type"};
    static std::vector<In> ins, pairs;
    ins.clear(); pairs.clear();
    for (int f = -1; f < cat::SMALL; f++) for (const cat::Chain &ch : {cat::Chain{}, cat::Chain{0}, cat::Chain{2}, cat::Chain{3}, cat::Chain{6}, cat::Chain{1, 4}, cat::Chain{7, 0, 5}, cat::Chain{0, 2, 1}}) ins.push_back({f, ch});
    for (int f = -1; f < cat::SMALL; f++) for (int a = 0; a < int(cat::pend_ops().size()); a++) for (int b = 0; b < int(cat::pend_ops().size()); b++) pairs.push_back({f, {a, b}});
    static std::vector<View> views, v32;
    views.clear(); v32.clear();
    for (int o = 0; o < 4; o++) for (int dt : {0, 1, 2, 3, 255}) for (const char *cs : {"Linear", "sRGB"}) for (int c = 0; c < 2; c++) { views.push_back({o, dt, cs, c}); if (dt == 0) v32.push_back(views.back()); }
    auto both = [=](const std::vector<In> *iv, const std::vector<View> *vv, const char *name, Suite &s) {
        s.add(name, iv->size() * vv->size(), [=](uint64_t i) { Digits d(i); View v = d.pick(*vv); view_case(d.pick(*iv), v, i % 2); },
            [=](uint64_t i) { Digits d(i); View v = d.pick(*vv); return in_str(d.pick(*iv)) + "; " + view_str(v) + (i % 2 ? ", twice with a cache" : ""); });
    };
    both(&ins, &views, "all-options", s);
    both(&pairs, s.thorough ? &views : &v32, "pending-operation-pairs", s);
    int no = int(cat::pend_ops().size()) + 1;
    static std::vector<View> v2 ; v2 = s.thorough ? views : v32;
    static std::vector<View> first; first = s.thorough ? std::vector<View>(views) : v32;
    static std::vector<In> some; some.clear();
    for (int f : {0, 1, 2, 3}) for (const cat::Chain &ch : {cat::Chain{0}, cat::Chain{1, 4}, cat::Chain{6, 2}}) some.push_back({f, ch});
    s.add("viewer-of-viewer", some.size() * first.size() * v2.size() * no, [=](uint64_t i) { Digits d(i); View a = d.pick(first), b = d.pick(v2); int o = int(d(no)) - 1; view_twice(d.pick(some), a, b, o); },
        [=](uint64_t i) { Digits d(i); View a = d.pick(first), b = d.pick(v2); int o = int(d(no)) - 1; return in_str(d.pick(some)) + "; " + view_str(a) + (o < 0 ? "" : std::string(", ") + cat::pend_ops()[o].key) + "; then " + view_str(b); });
    static std::vector<View> w7; w7.clear();
    for (int o = 0; o < 4; o++) for (int dt : {0, 1, 2, 3, 255}) for (int c = 0; c < 2; c++) w7.push_back({o, dt, "Rec709", c});
    both(&ins, &w7, "another-space", s);
    static std::vector<View> f7, g7; f7 = g7 = v32; for (auto &v : w7) if (v.dt == 0) f7.push_back(v), g7.push_back(v);
    s.add("another-space-twice", some.size() * f7.size() * g7.size() * no, [=](uint64_t i) { Digits d(i); View a = d.pick(f7), b = d.pick(g7); int o = int(d(no)) - 1; view_twice(d.pick(some), a, b, o); },
        [=](uint64_t i) { Digits d(i); View a = d.pick(f7), b = d.pick(g7); int o = int(d(no)) - 1; return in_str(d.pick(some)) + "; " + view_str(a) + (o < 0 ? "" : std::string(", ") + cat::pend_ops()[o].key) + "; then " + view_str(b); });
    s.add("large-images", 2 * views.size(), [=](uint64_t i) { Digits d(i); View v = d.pick(views); In a{cat::SMALL, {}}; if (d(2)) a.ch = {0, 6}; view_case(a, v, 0); },
        [=](uint64_t i) { Digits d(i); View v = d.pick(views); In a{cat::SMALL, {}}; if (d(2)) a.ch = {0, 6}; return in_str(a) + "; " + view_str(v); });
    static const std::vector<cat::Chain> vch = {{}, {3}};
    size_t nv = cat::values().size();
    s.add("unusual-values", nv * views.size() * vch.size(), [=](uint64_t i) { Digits d(i); View v = d.pick(views); int f = int(d(nv)); cat::Chain ch = d.pick(vch);
        G g; Node n = view_node(g, cat::chain_node(g, g.read(cat::values()[f].f.path), ch), v);
        ref::Stream st = cat::value_stream(f); cat::chain_ref(st, ch); ref::Stream want = view_ref(st, v);
        if (v.option && !strcmp(v.cs, "sRGB")) {     // the image library's curve does not keep infinities and NaN
            View l = v; l.cs = "Linear"; l.dt = 0; ref::Stream lin = view_ref(st, l); want.skip.resize(want.px.size());
            for (size_t k = 0; k < lin.px.size(); k++) want.skip[k] = !(std::fabs(lin.px[k]) < 1e6) && k % lin.nch != 3;
        }
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed"); auto out = g.out(); Snap got = snap(out, false);
        std::string r = ref::compare(got, want, view_tol(want), &out); REQUIRE(r.empty(), "viewer output: %s", r.c_str()); state(fp(got));
    }, [=](uint64_t i) { Digits d(i); View v = d.pick(views); int f = int(d(nv)); cat::Chain ch = d.pick(vch); return cat::values()[f].key + cat::chain_str(ch) + "; " + view_str(v); });
}
Register r24("C24", build_view);
}
