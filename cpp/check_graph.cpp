// C04 graph edits, C05 evaluation of any graph, C06 state and status.
#include "attrs.h"
#include "ref.h"
#include <algorithm>
#include <array>
#include <unistd.h>
using namespace mc;

namespace {
// ---- algebraic reference: every image here is a linear combination of the placeholder P
// and one file image A (same windows, same channels).
struct Val { double p = 0, a = 0; };
Val operator*(double k, Val v) { return {k * v.p, k * v.a}; }
Val operator+(Val x, Val y) { return {x.p + y.p, x.a + y.a}; }

enum Kind { SRC_GRADE, SRC_FILE, MERGE, GRADE, NUL };
struct MNode { bool exists = false; Kind kind = MERGE; double k = 1; std::map<int, int> in; };
struct Model {
    std::vector<MNode> n;
    // false: cycle
    bool eval(int i, Val &v, std::vector<int> &mark, std::vector<Val> &memo) const {
        if (mark[i] == 1) return false;
        if (mark[i] == 2) { v = memo[i]; return true; }
        mark[i] = 1;
        std::vector<Val> in;
        for (auto &e : n[i].in) { Val x; if (!eval(e.second, x, mark, memo)) return false; in.push_back(x); }
        const Val P{1, 0};
        switch (n[i].kind) {
        case SRC_FILE: v = {0, 1}; break;
        case SRC_GRADE: case GRADE: v = n[i].k * (in.empty() ? P : in[0]); break;
        case NUL: v = in.empty() ? P : in[0]; break;
        case MERGE: v = in.empty() ? P : in.size() == 1 ? in[0] + n[i].k * P : in[0] + n[i].k * in[1]; break;
        }
        mark[i] = 2; memo[i] = v;
        return true;
    }
    bool eval(int i, Val &v) const { std::vector<int> m(n.size(), 0); std::vector<Val> memo(n.size()); return eval(i, v, m, memo); }
    void del(int i) { n[i].exists = false; n[i].in.clear(); for (auto &x : n) for (auto it = x.in.begin(); it != x.in.end();) { if (it->second == i) it = x.in.erase(it); else ++it; } }
    uint64_t fp() const { uint64_t h = 7; for (auto &x : n) { h = mix(h, x.exists); for (auto &e : x.in) { h = mix(h, e.first); h = mix(h, e.second); } h = mix(h, 99); } return h; }
};
Win W4{0, 0, 4, 4};
std::vector<float> &imgA() { static std::vector<float> v = pattern(W4, 3, 5); return v; }
std::string fileA() { return g_suite->dir + "/a.exr"; }
void fixture() { write_file({fileA(), W4, W4, 3, 0, imgA()}); }

void check_value(G &g, Val v, const char *what) {
    static const ref::Stream P = ref::placeholder();
    auto out = g.out();
    Snap s = snap(out, false);
    REQUIRE(s.disp == W4 && s.data == W4 && s.nch == 3 && s.dt == 0, "%s: result is %s %d channels %s", what, s.data.str().c_str(), s.nch, dt_name(s.dt));
    auto px = s.px();
    if (s.nops) px = color_ops(out, px, 3);
    for (int i = 0; i < 48; i++) {
        double w = v.p * P.px[i] + v.a * imgA()[i];
        REQUIRE(std::fabs(px[i] - w) <= 1e-5 * (1 + std::fabs(v.p) + std::fabs(v.a)), "%s: value %d is %.8g, expected %.8g (%g x placeholder + %g x file)", what, i, px[i], w, v.p, v.a);
    }
}
CacheP &zero_cache() { static CacheP c = make_cache(0); return c; }
CacheP &warm_cache() { static CacheP c = make_cache(1 << 20); return c; }

// ---------------------------------------------------------------- C04
struct Names { std::vector<std::string> n; std::vector<Kind> k; std::vector<double> c; };
struct Op { int t, a, b, n; };       // 0 create 1 delete 2 connect a->b:n 3 disconnect b:n 4 execute a
struct Alpha { std::vector<MNode> nodes; std::vector<const char *> name; std::vector<Op> ops; std::vector<std::vector<Op>> starts; unsigned depth; };

struct Rig {
    const Alpha &al; ocg::Graph g; Model m; std::vector<Node> h; bool by_name;
    Rig(const Alpha &a, bool nm) : al(a), by_name(nm) {
        m.n = a.nodes;
        for (size_t i = 0; i < a.nodes.size(); i++) {
            m.n[i].exists = false;
            h.push_back(Node(type(a.nodes[i].kind), uint64_t(77 + i)));
        }
    }
    static NodeType type(Kind k) { return k == MERGE ? NodeType::kMergeImage : k == SRC_FILE ? NodeType::kReadImage : k == NUL ? NodeType::kNull : NodeType::kGrade; }
    void create(int i) {
        h[i] = by_name ? g.create_node(type(al.nodes[i].kind), al.name[i]) : g.create_node(type(al.nodes[i].kind), h[i].get_id());
        const MNode &x = al.nodes[i];
        if (x.kind == MERGE) { g.set_node_attr_i32(h[i], "mode", 0); g.set_node_attr_i32(h[i], "use_cache", 0); g.set_node_attr_f32(h[i], "mix", float(x.k)); }
        else if (x.kind == SRC_FILE) g.set_node_attr_str(h[i], "file_path", fileA());
        else if (x.kind != NUL) for (const char *a : {"multiply_r", "multiply_g", "multiply_b"}) g.set_node_attr_f32(h[i], a, float(x.k));
        m.n[i] = x; m.n[i].exists = true; m.n[i].in.clear();
    }
    void exec(int i, CacheP &c, const char *when) {
        transition();
        std::vector<double> fr{1};
        auto st = g.execute(h[i], fr, c);
        Val v;
        bool ok = m.n[i].exists && m.eval(i, v);
        REQUIRE((st == ExecuteStatus::kSuccess) == ok && (ok || st == ExecuteStatus::kError), "%s executing %s: status %d, expected %s", when, al.name[i], int(st), ok ? "success" : "error");
        if (ok) { G *gg = reinterpret_cast<G *>(&g); (void)gg; check(v, i, when); }
    }
    void check(Val v, int i, const char *when) {
        static const ref::Stream P = ref::placeholder();
        auto out = g.output_stream();
        Snap s = snap(out, false);
        REQUIRE(s.disp == W4 && s.data == W4 && s.nch == 3 && s.dt == 0, "%s %s: result is %s %d channels %s", when, al.name[i], s.data.str().c_str(), s.nch, dt_name(s.dt));
        auto px = s.px();
        if (s.nops) px = color_ops(out, px, 3);
        for (int k = 0; k < 48; k++) {
            double w = v.p * P.px[k] + v.a * imgA()[k];
            REQUIRE(std::fabs(px[k] - w) <= 1e-5 * (1 + std::fabs(v.p) + std::fabs(v.a)), "%s %s: value %d is %.8g, expected %.8g", when, al.name[i], k, px[k], w);
        }
    }
    void step(const Op &o) {
        transition();
        switch (o.t) {
        case 0: if (!m.n[o.a].exists) create(o.a); break;
        case 1: { bool was = m.n[o.a].exists; bool r = (al.ops.size() + o.a) % 2 ? g.delete_node(h[o.a]) : g.delete_node(h[o.a].get_id());
            REQUIRE(r == was, "delete %s returned %d", al.name[o.a], r); if (was) m.del(o.a); break; }
        case 2: g.connect(h[o.a], h[o.b], uint8_t(o.n)); if (m.n[o.a].exists && m.n[o.b].exists) m.n[o.b].in[o.n] = o.a; break;
        case 3: g.disconnect_input(h[o.b], uint8_t(o.n)); m.n[o.b].in.erase(o.n); break;
        case 4: exec(o.a, zero_cache(), "while editing"); break;
        }
        for (size_t i = 0; i < h.size(); i++) REQUIRE(g.node_exists(h[i]) == m.n[i].exists, "node %s exists=%d", al.name[i], !m.n[i].exists);
        state(m.fp());
    }
    void finish() {
        for (size_t i = 0; i < h.size(); i++) if (al.nodes[i].kind == MERGE || al.nodes[i].kind == GRADE || al.nodes[i].kind == NUL) exec(int(i), zero_cache(), "afterwards");
        // Take the inputs off one by one, lowest number first: shows every connection.
        for (size_t i = 0; i < h.size(); i++) if (al.nodes[i].kind == MERGE) {
            while (m.n[i].in.size() > 2 || (m.n[i].in.size() && al.nodes.size() < 5)) {
                Op o{3, 0, int(i), m.n[i].in.begin()->first};
                step(o); exec(int(i), zero_cache(), "taking inputs off");
            }
        }
    }
};
std::string op_str(const Alpha &a, const Op &o) {
    switch (o.t) {
    case 0: return sfmt("create %s", a.name[o.a]);
    case 1: return sfmt("delete %s", a.name[o.a]);
    case 2: return sfmt("connect %s->%s:%d", a.name[o.a], a.name[o.b], o.n);
    case 3: return sfmt("disconnect %s:%d", a.name[o.b], o.n);
    }
    return sfmt("execute %s", a.name[o.a]);
}
void add_alpha(Suite &s, const char *part, std::shared_ptr<Alpha> a, bool by_name) {
    uint64_t n = ipow(a->ops.size(), a->depth);
    s.add(part, n * a->starts.size(), [=](uint64_t i) {
        Rig r(*a, by_name);
        for (auto &o : a->starts[i / n]) r.step(o);
        for (int k : seq(i % n, a->ops.size(), a->depth)) r.step(a->ops[k]);
        r.finish();
    }, [=](uint64_t i) {
        std::string t = "start:";
        for (auto &o : a->starts[i / n]) t += " " + op_str(*a, o) + ";";
        t += " then:";
        for (int k : seq(i % n, a->ops.size(), a->depth)) t += " " + op_str(*a, a->ops[k]) + ";";
        return t;
    });
}
MNode mn(Kind k, double c) { MNode m; m.kind = k; m.k = c; return m; }

void build04(Suite &s) {
    s.fixture = fixture;
    {   // two sources, two merges
        auto a = std::make_shared<Alpha>();
        a->nodes = {mn(SRC_GRADE, 0.5), mn(SRC_GRADE, 3), mn(MERGE, 0.25), mn(MERGE, 0.7)};
        a->name = {"g0", "g1", "m0", "m1"};
        for (int i = 0; i < 4; i++) { a->ops.push_back({0, i}); a->ops.push_back({1, i}); }
        for (int d : {2, 3}) for (int n : {0, 1}) { for (int i = 0; i < 4; i++) a->ops.push_back({2, i, d, n}); a->ops.push_back({3, 0, d, n}); }
        a->ops.push_back({4, 2}); a->ops.push_back({4, 3});
        a->starts = {{{0, 0}, {0, 1}, {0, 2}, {0, 3}}, {{0, 3}, {0, 2}, {0, 1}, {0, 0}, {2, 0, 2, 0}, {2, 1, 2, 1}, {2, 2, 3, 0}, {2, 1, 3, 1}}};
        a->depth = 4;
        if (s.thorough) a->starts.push_back({{0, 0}, {0, 2}, {0, 3}, {2, 0, 2, 0}, {2, 0, 2, 1}, {2, 2, 3, 0}, {2, 2, 3, 1}, {4, 3}});
        add_alpha(s, "edits-two-merges", a, false);
        auto b = std::make_shared<Alpha>(*a);
        b->starts = {{}};
        b->depth = s.thorough ? 6 : 5;
        // from the empty graph: fewer operations, one merge
        b->ops.clear();
        for (int i : {0, 1, 2}) { b->ops.push_back({0, i}); b->ops.push_back({1, i}); }
        for (int n : {0, 1}) { for (int i : {0, 1, 2}) b->ops.push_back({2, i, 2, n}); b->ops.push_back({3, 0, 2, n}); }
        b->ops.push_back({4, 2});
        add_alpha(s, "edits-from-empty-by-name", b, true);
    }
    {   // many inputs of one merge
        auto a = std::make_shared<Alpha>();
        a->nodes = {mn(SRC_GRADE, 0.5), mn(SRC_GRADE, 3), mn(SRC_GRADE, 7), mn(MERGE, 0.25)};
        a->name = {"g0", "g1", "g2", "m"};
        for (int n : {0, 1, 2, 255}) { for (int i = 0; i < 3; i++) a->ops.push_back({2, i, 3, n}); a->ops.push_back({3, 0, 3, n}); }
        for (int i = 0; i < 3; i++) a->ops.push_back({1, i});
        a->ops.push_back({0, 1}); a->ops.push_back({4, 3});
        a->starts = {{{0, 0}, {0, 1}, {0, 2}, {0, 3}}, {{0, 0}, {0, 3}, {0, 1}, {0, 2}, {2, 0, 3, 2}, {2, 1, 3, 0}, {2, 0, 3, 255}}};
        a->depth = s.thorough ? 5 : 4;
        add_alpha(s, "edits-many-inputs", a, false);
    }
    {   // chain nodes as destinations, file source
        auto a = std::make_shared<Alpha>();
        a->nodes = {mn(SRC_FILE, 1), mn(GRADE, 3), mn(NUL, 1), mn(MERGE, 0.25)};
        a->name = {"file", "grade", "null", "m"};
        for (int i : {0, 1, 2, 3}) a->ops.push_back({1, i});
        for (int i : {0, 1, 2, 3}) a->ops.push_back({0, i});
        for (int d : {1, 2}) { for (int i = 0; i < 4; i++) a->ops.push_back({2, i, d, 0}); a->ops.push_back({3, 0, d, 0}); }
        for (int i : {0, 1, 2}) for (int n : {0, 1}) a->ops.push_back({2, i, 3, n});
        a->ops.push_back({3, 0, 3, 0}); a->ops.push_back({4, 3}); a->ops.push_back({4, 2});
        a->starts = {{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {2, 0, 1, 0}, {2, 1, 2, 0}, {2, 2, 3, 0}, {2, 0, 3, 1}}};
        a->depth = s.thorough ? 5 : 4;
        add_alpha(s, "edits-chain", a, false);
    }
    // Larger graphs: a merge with N numbered inputs and a chain of N grades; remove one node, then
    // check every connection; re-create it and check it starts without connections.
    const int NMAX = s.thorough ? 70 : 40;
    struct Big { int n, d, how; };
    auto big = std::make_shared<std::vector<Big>>();
    for (int n : {2, 3, 5, 8, 9, 16, 17, 33, 40, 70}) if (n <= NMAX) for (int d = 0; d < n; d++) for (int how = 0; how < 4; how++) big->push_back({n, d, how});
    s.add("edits-large-graphs", big->size(), [=](uint64_t i) {
        Big b = (*big)[i];
        Alpha al;
        for (int k = 0; k < b.n; k++) al.nodes.push_back(mn(SRC_GRADE, 1 + 0.25 * k));
        for (int k = 0; k < b.n; k++) al.nodes.push_back(mn(GRADE, k % 2 ? 0.5 : 2.5));
        al.nodes.push_back(mn(MERGE, 0.25)); al.nodes.push_back(mn(MERGE, 0.5));
        std::vector<std::string> nm; for (size_t k = 0; k < al.nodes.size(); k++) nm.push_back(sfmt("n%zu", k));
        for (auto &x : nm) al.name.push_back(x.c_str());
        int M = 2 * b.n, M2 = M + 1;
        Rig r(al, false);
        for (size_t k = 0; k < al.nodes.size(); k++) r.create(int(k));
        for (int k = 0; k < b.n; k++) r.step({2, k, M, k * 3});
        for (int k = 0; k < b.n; k++) r.step({2, k ? b.n + k - 1 : 0, b.n + k, 0});
        r.step({2, 2 * b.n - 1, M2, 0}); r.step({2, M, M2, 1});
        if (b.how == 0) r.step({1, b.d});
        if (b.how == 1) r.step({3, 0, M, b.d * 3});
        if (b.how == 2) { r.step({1, b.d}); r.step({0, b.d}); r.step({2, b.d, M2, 0}); }
        if (b.how == 3) { r.step({1, b.n + b.d}); r.step({0, b.n + b.d}); r.step({2, 1, b.n + b.d, 7}); }
        r.exec(M2, zero_cache(), "large graph");
        r.exec(2 * b.n - 1, zero_cache(), "large graph");
        while (r.m.n[M].in.size()) { r.step({3, 0, M, r.m.n[M].in.begin()->first}); r.exec(M, zero_cache(), "taking inputs off"); }
    }, [=](uint64_t i) { Big b = (*big)[i]; return sfmt("merge with %d inputs and chain of %d, edit kind %d at %d", b.n, b.n, b.how, b.d); });
    // Hundreds to thousands of nodes: a chain over which one source is seen; edits anywhere show at the end.
    struct Huge { int n, d, how; };
    auto huge = std::make_shared<std::vector<Huge>>();
    for (int n : {100, 128, 256, 257, 300, 513, 1030, 2060}) if (n < 2000 || s.thorough) for (int d : {0, 1, n / 2, n - 2, n - 1}) for (int how = 0; how < 5; how++) huge->push_back({n, d, how});
    s.add("edits-huge-graphs", huge->size(), [=](uint64_t i) {
        Huge b = (*huge)[i]; Alpha al; std::vector<std::string> nm;
        al.nodes = {mn(SRC_FILE, 1)};
        for (int k = 0; k < b.n; k++) al.nodes.push_back(mn(k % 7 == 3 ? GRADE : NUL, k % 2 ? 0.5 : 2));
        int S = b.n + 1, M = b.n + 2; al.nodes.push_back(mn(SRC_GRADE, 3)); al.nodes.push_back(mn(MERGE, 0.25));
        for (size_t k = 0; k < al.nodes.size(); k++) nm.push_back(sfmt("n%zu", k));
        for (auto &x : nm) al.name.push_back(x.c_str());
        Rig r(al, false);
        for (size_t k = 0; k < al.nodes.size(); k++) r.create(int(k));
        auto con = [&](int a, int q, int p) { r.g.connect(r.h[a], r.h[q], uint8_t(p)); r.m.n[q].in[p] = a; };
        for (int k = 0; k < b.n; k++) con(k, k + 1, 0);
        con(b.n, M, 0); con(S, M, 1); transition(2 * b.n);
        r.exec(M, zero_cache(), "huge graph");
        int D = b.d + 1;
        if (b.how == 0) r.step({1, D});
        if (b.how == 1) r.step({3, 0, D, 0});
        if (b.how == 2) { r.step({1, D}); r.step({0, D}); r.step({2, b.d, D, 0}); if (D < b.n) r.step({2, D, D + 1, 0}); else r.step({2, D, M, 0}); }
        if (b.how == 3) r.step({2, S, D, 0});
        if (b.how == 4) { r.step({1, 0}); r.step({2, M, D, 0}); }
        r.exec(M, zero_cache(), "huge graph after the edit");
        r.exec(b.n, zero_cache(), "huge graph after the edit"); r.exec(D, zero_cache(), "huge graph after the edit"); r.exec(S, zero_cache(), "huge graph after the edit");
    }, [=](uint64_t i) { Huge b = (*huge)[i]; return sfmt("chain of %d nodes into a merge, edit kind %d at %d", b.n, b.how, b.d); });
    // One merge with many inputs, connected in some order; which two count shows as inputs are taken off from either end.
    struct Many { int n, order, off; };
    auto many = std::make_shared<std::vector<Many>>();
    for (int n : {3, 8, 9, 16, 17, 20, 21, 30, 32, 33, 50, 64, 65, 100, 128, 129, 200, 255, 256}) for (int o = 0; o < 5; o++) for (int f = 0; f < 3; f++) many->push_back({n, o, f});
    s.add("many-inputs", many->size(), [=](uint64_t i) {
        Many b = (*many)[i]; Alpha al; std::vector<std::string> nm;
        for (int k = 0; k < b.n; k++) al.nodes.push_back(mn(SRC_GRADE, 0.5 + k / 64.0));
        al.nodes.push_back(mn(MERGE, 0.25)); int M = b.n;
        for (size_t k = 0; k < al.nodes.size(); k++) nm.push_back(sfmt("n%zu", k));
        for (auto &x : nm) al.name.push_back(x.c_str());
        Rig r(al, false);
        for (int k = 0; k <= b.n; k++) r.create(k);
        auto at = [&](int k, int how) { int st = how == 2 ? 7 : how == 3 ? 11 : 13; while (how > 1 && std::__gcd(st, b.n) != 1) st++; return how == 0 ? k : how == 1 ? b.n - 1 - k : (k * st + how) % b.n; };
        for (int k = 0; k < b.n; k++) { int q = at(k, b.order), num = b.n < 200 ? q + (b.order == 4 ? 256 - b.n : 0) : q; r.g.connect(r.h[q], r.h[M], uint8_t(num)); r.m.n[M].in[num] = q; transition(); }
        r.exec(M, zero_cache(), "many inputs");
        for (int k = 0; k < b.n; k++) {
            auto &in = r.m.n[M].in; auto it = in.begin(); if (b.off == 1) it = std::prev(in.end()); if (b.off == 2) std::advance(it, long(at(k, 3)) % long(in.size()));
            int num = it->first; r.g.disconnect_input(r.h[M], uint8_t(num)); in.erase(num); transition();
            if (b.off == 1 && b.n - k > 4 && k % 16) continue;       // the first two decide
            r.exec(M, zero_cache(), "taking inputs off");
        }
        state(mix(mix(r.m.fp(), i), 5));
    }, [=](uint64_t i) { Many b = (*many)[i]; return sfmt("merge with %d inputs, connected in order %d, taken off in order %d", b.n, b.order, b.off); });
    // Two graphs never influence each other; generated identifiers are distinct.
    s.add("separate-graphs", 64, [=](uint64_t i) {
        Alpha al; al.nodes = {mn(SRC_GRADE, 0.5), mn(SRC_GRADE, 3), mn(MERGE, 0.25)}; al.name = {"g0", "g1", "m"};
        Rig a(al, i & 1), b(al, i & 1);
        for (int k = 0; k < 3; k++) { if (i & 2) a.create(k); b.create(k); if (!(i & 2)) a.create(k); }
        a.step({2, 0, 2, 0}); b.step({2, 1, 2, 0}); a.step({2, 1, 2, 1});
        if (i & 4) a.step({1, 1});
        if (i & 8) b.step({3, 0, 2, 0});
        if (i & 16) b.step({1, 0});
        a.finish(); b.finish();
        ocg::Graph g; std::set<uint64_t> ids; 
        for (int k = 0; k < 40; k++) { Node n = (i & 32) ? g.create_node(NodeType::kGrade) : g.create_node(NodeType::kNull, sfmt("node%d", k).c_str()); REQUIRE(g.node_exists(n), "created node is missing"); ids.insert(n.get_id()); }
        REQUIRE(ids.size() == 40, "only %zu distinct identifiers for 40 nodes", ids.size());
        ocg::Graph g2;
        if (!(i & 32)) { Node n = g2.create_node(NodeType::kNull, "node7"); REQUIRE(ids.count(n.get_id()), "the same name gives different identifiers"); REQUIRE(g.node_exists(n), "node not found by name"); }
    }, [](uint64_t i) { return sfmt("two graphs, variant %d", int(i)); });
}
Register r04("C04", build04);

// ---------------------------------------------------------------- C05
// Nodes: 0 = file source A, 1 = grade source B, 2.. = operation nodes with two inputs.
struct GraphCase { std::vector<Kind> kinds; std::vector<std::array<int, 2>> in; std::vector<int> order; int exec; };
void run_graph(const GraphCase &c, CacheP &cache) {
    size_t n = c.kinds.size();
    Alpha al; std::vector<std::string> nm;
    al.nodes = {mn(SRC_FILE, 1), mn(SRC_GRADE, 0.5)};
    static const double K[6] = {0.25, 0.7, 1.5, 0.9, 0.35, 2.2};
    for (size_t k = 0; k < n; k++) al.nodes.push_back(mn(c.kinds[k], K[k % 6]));
    for (size_t k = 0; k < n + 2; k++) nm.push_back(k == 0 ? "A" : k == 1 ? "B" : sfmt("n%zu", k - 2));
    for (auto &x : nm) al.name.push_back(x.c_str());
    Rig r(al, false);
    bool first = c.order.empty() || c.order[0] >= 0;
    if (first) { r.create(0); r.create(1); }
    for (size_t k = 0; k < n; k++) r.create(2 + (c.order.empty() ? int(k) : std::abs(c.order[k])));
    if (!first) { r.create(1); r.create(0); }
    // inputs: 0 none, 1 A, 2 B, 3.. operation nodes; number 3 and 1 are used for second inputs
    for (size_t k = 0; k < n; k++) for (int j = 1; j >= 0; j--) if (c.in[k][j]) r.step({2, c.in[k][j] - 1, int(k) + 2, j});
    r.exec(c.exec + 2, cache, "graph");
    Val v;
    state(mix(r.m.fp(), c.exec)); 
}
std::string graph_str(const GraphCase &c) {
    std::string t; size_t n = c.kinds.size();
    static const char *kn[] = {"source", "file", "merge", "grade", "null"};
    auto nm = [](int x) { return x == 0 ? std::string("-") : x == 1 ? std::string("A") : x == 2 ? std::string("B") : sfmt("n%d", x - 3); };
    for (size_t k = 0; k < n; k++) t += sfmt("n%zu=%s(%s,%s) ", k, kn[c.kinds[k]], nm(c.in[k][0]).c_str(), nm(c.in[k][1]).c_str());
    return t + sfmt("execute n%d", c.exec);
}
GraphCase case3(uint64_t i) {
    Digits d(i); GraphCase c;
    c.exec = int(d(3));
    for (int k = 0; k < 3; k++) { c.in.push_back({int(d(6)), int(d(6))}); }
    uint64_t kinds = d(5);
    static const Kind T[5][3] = {{MERGE, MERGE, MERGE}, {MERGE, GRADE, NUL}, {NUL, MERGE, GRADE}, {GRADE, NUL, MERGE}, {GRADE, GRADE, MERGE}};
    for (int k = 0; k < 3; k++) c.kinds.push_back(T[kinds][k]);
    return c;
}
GraphCase case4(uint64_t i, bool cyclic, int variants) {
    Digits d(i); GraphCase c;
    for (int k = 0; k < 4; k++) { uint64_t n = cyclic ? 7 : 3 + k; c.in.push_back({int(d(n)), int(d(n))}); }
    uint64_t v = d(variants);
    static const Kind T[4][4] = {{MERGE, MERGE, MERGE, MERGE}, {MERGE, NUL, GRADE, MERGE}, {GRADE, MERGE, NUL, MERGE}, {NUL, GRADE, MERGE, MERGE}};
    static const int O[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {-2, 0, -3, -1}, {1, 3, 0, 2}};
    for (int k = 0; k < 4; k++) { c.kinds.push_back(T[v % 4][k]); c.order.push_back(O[v % 4][k]); }
    c.exec = 3;
    return c;
}
// More inputs than a node uses: the lowest-numbered one counts (two for a merge), the others change nothing.
void extra_inputs(Suite &s) {
    static const NodeType TY[] = {NodeType::kNull, NodeType::kReadImage, NodeType::kWriteImage, NodeType::kGrade, NodeType::kLensDistort, NodeType::kTransform, NodeType::kMergeImage, NodeType::kCropImage, NodeType::kViewer, NodeType::kResampleImage};
    static const char *TN[] = {"null", "read", "write", "grade", "lens", "transform", "merge", "crop", "viewer", "resample"};
    static const int NX[] = {1, 2, 3, 4, 16, 200};      // unused inputs
    static const char *XN[] = {"graded files", "missing files", "merges", "the used sources", "crops of a transform"};
    s.add("unused-inputs", 10 * 6 * 5 * 3 * 2 * 2, [](uint64_t i) {
        Digits d(i); int t = int(d(10)), nx = NX[d(6)], kind = int(d(5)), num = int(d(3)); bool en = d(2), warm = d(2);
        auto run = [&](bool extra, CacheP c) {
            G g; Node n = g.make(TY[t]); if (!en) g.i(n, "enable", 0);
            switch (TY[t]) {
            case NodeType::kReadImage: g.s(n, "file_path", fileA()); break;
            case NodeType::kWriteImage: g.i(n, "execute", 0); break;
            case NodeType::kGrade: g.f(n, "multiply_g", 0.5f); break;
            case NodeType::kLensDistort: g.f(n, "distortion", 0.25f); break;
            case NodeType::kTransform: g.f(n, "translate_x", 1); break;
            case NodeType::kMergeImage: g.f(n, "mix", 0.5f); break;
            case NodeType::kCropImage: g.i(n, "window_max_x", 3); g.i(n, "window_max_y", 2); break;
            case NodeType::kViewer: g.i(n, "bake_option", 3); break;
            case NodeType::kResampleImage: g.i(n, "factor", -1); break;
            default: break;
            }
            Node a = g.read(fileA()), ga = g.make(NodeType::kGrade); g.f(ga, "multiply_r", 0.25f); g.con(a, ga);
            Node a2 = g.read(fileA()), tb = g.make(NodeType::kTransform); g.f(tb, "translate_y", 1); g.con(a2, tb);
            int used = TY[t] == NodeType::kMergeImage ? 2 : 1, total = used + (extra ? nx : 0);
            auto number = [&](int k) { return num == 0 ? k : num == 1 ? k + 3 : std::min(255, k * (256 / (used + nx)) + 1); };
            for (int q = 0; q < total; q++) {
                int k = num == 1 ? total - 1 - q : q; Node src = ga;
                if (k < used) src = k == 0 ? ga : tb;
                else switch (kind) {
                case 0: src = g.make(NodeType::kGrade); g.f(src, "offset_b", 0.125f * (k % 7 + 1)); g.con(a, src); break;
                case 1: src = g.read(g_suite->dir + sfmt("/nothing%d.exr", k)); break;
                case 2: src = g.make(NodeType::kMergeImage); g.con(tb, src, 0); g.con(ga, src, 1); break;
                case 3: src = k % 2 ? ga : tb; break;
                default: { Node x = g.make(NodeType::kTransform); g.f(x, "scale_x", 0.5f); g.con(a, x); src = g.make(NodeType::kCropImage); g.i(src, "window_max_x", 2); g.i(src, "window_max_y", 1 + k % 3); g.con(x, src); }
                }
                g.con(src, n, number(k));
            }
            for (int round = 0; round < 2; round++) REQUIRE(g.exec(n, c) == ExecuteStatus::kSuccess, "execution failed");
            return std::make_pair(snap(g.out()), int(g.g.node_status(n)));
        };
        auto want = run(false, make_cache(0)), got = run(true, make_cache(warm ? 1 << 20 : 0));
        std::string df = diff(got.first, want.first); REQUIRE(df.empty(), "unused inputs change the result: %s", df.c_str());
        REQUIRE(got.second == want.second, "unused inputs change the node's status from %s to %s", status_name(NodeStatus(want.second)), status_name(NodeStatus(got.second)));
        state(fp(got.first));
    }, [](uint64_t i) { Digits d(i); int t = int(d(10)), nx = NX[d(6)], kind = int(d(5)), num = int(d(3)); bool en = d(2); return sfmt("%s node (enable %d) with %d more inputs than it uses (%s), input numbers variant %d", TN[t], en, nx, XN[kind], num); });
}
void build05(Suite &s) {
    s.fixture = fixture;
    extra_inputs(s);
    s.add("all-3-node-graphs", 3 * ipow(36, 3) * 5, [](uint64_t i) { run_graph(case3(i), warm_cache()); }, [](uint64_t i) { return graph_str(case3(i)); });
    int v = s.thorough ? 4 : 2;
    s.add("acyclic-4-node-graphs", 9ull * 16 * 25 * 36 * v, [v](uint64_t i) { run_graph(case4(i, false, v), warm_cache()); }, [v](uint64_t i) { return graph_str(case4(i, false, v)); });
    if (s.thorough) s.add("all-4-node-graphs", ipow(49, 4), [](uint64_t i) { run_graph(case4(i, true, 1), warm_cache()); }, [](uint64_t i) { return graph_str(case4(i, true, 1)); });
    // Five single-input/merge chains of increasing length sharing one source: long and short branches,
    // and unrelated nodes (with and without a cycle of their own) in the graph.
    struct L { int a, b, extra, ex; };
    auto ls = std::make_shared<std::vector<L>>();
    for (int a : {0, 1, 2, 3, 7, 20}) for (int b : {0, 1, 2, 5, 20}) for (int e = 0; e < 4; e++) for (int x = 0; x < 3; x++) ls->push_back({a, b, e, x});
    s.add("long-branches", ls->size(), [=](uint64_t i) {
        L l = (*ls)[i]; Alpha al; std::vector<std::string> nm;
        al.nodes = {mn(SRC_FILE, 1)};
        for (int k = 0; k < l.a; k++) al.nodes.push_back(mn(k % 3 == 2 ? NUL : GRADE, 1.1));
        for (int k = 0; k < l.b; k++) al.nodes.push_back(mn(k % 3 == 1 ? MERGE : GRADE, 0.9));
        int M = int(al.nodes.size()); al.nodes.push_back(mn(MERGE, 0.25));
        int E = M + 1; for (int k = 0; k < 2; k++) al.nodes.push_back(mn(MERGE, 0.3));
        for (size_t k = 0; k < al.nodes.size(); k++) nm.push_back(sfmt("n%zu", k));
        for (auto &x : nm) al.name.push_back(x.c_str());
        Rig r(al, false);
        if (l.ex == 1) for (size_t k = al.nodes.size(); k--;) r.create(int(k)); else for (size_t k = 0; k < al.nodes.size(); k++) r.create(int(k));
        int pa = 0, pb = 0;
        for (int k = 0; k < l.a; k++) { r.step({2, pa, 1 + k, 0}); pa = 1 + k; }
        for (int k = 0; k < l.b; k++) { r.step({2, pb, 1 + l.a + k, 0}); if (al.nodes[1 + l.a + k].kind == MERGE) r.step({2, pa, 1 + l.a + k, 1}); pb = 1 + l.a + k; }
        if (l.ex == 2) { r.step({2, pb, M, 1}); r.step({2, pa, M, 0}); } else { r.step({2, pa, M, 0}); r.step({2, pb, M, 1}); }
        if (l.extra == 1) { r.step({2, E, E + 1, 0}); r.step({2, E + 1, E, 1}); }     // unrelated cycle
        if (l.extra == 2) { r.step({2, M, E, 0}); r.step({2, E, E, 1}); }             // cycle downstream only
        if (l.extra == 3) { r.step({2, M, E, 0}); r.step({2, E, E + 1, 0}); r.step({2, E + 1, M, 1}); }   // cycle through the node
        r.exec(M, warm_cache(), "branches"); r.exec(E, warm_cache(), "branches"); r.exec(M, warm_cache(), "branches again"); r.exec(E + 1, warm_cache(), "branches");
        state(i);
    }, [=](uint64_t i) { L l = (*ls)[i]; return sfmt("branches of length %d and %d into one merge, extra %d, creation variant %d", l.a, l.b, l.extra, l.ex); });
    // Hundreds to thousands of nodes above the executed one, as a chain, a comb of merges or a tree.
    static const int UP[] = {100, 130, 257, 300, 520, 1030, 2060};
    const int nu = s.thorough ? 7 : 6;
    s.add("huge-graphs", 3 * 2 * nu, [](uint64_t i) {
        Digits d(i); int shape = int(d(3)); bool back = d(2); int n = UP[d.i]; Alpha al; std::vector<std::string> nm;
        al.nodes = {mn(SRC_FILE, 1), mn(SRC_GRADE, 0.5)};
        for (int k = 0; k < n; k++) al.nodes.push_back(mn(shape == 0 ? (k % 7 == 3 ? GRADE : NUL) : MERGE, shape == 0 ? (k % 2 ? 0.5 : 2) : shape == 1 ? 1.0 / 64 : 1));
        for (size_t k = 0; k < al.nodes.size(); k++) nm.push_back(sfmt("n%zu", k));
        for (auto &x : nm) al.name.push_back(x.c_str());
        Rig r(al, false); int N = n + 2;
        if (back) for (int k = N; k--;) r.create(k); else for (int k = 0; k < N; k++) r.create(k);
        auto con = [&](int a, int q, int p) { r.g.connect(r.h[a], r.h[q], uint8_t(p)); r.m.n[q].in[p] = a; };
        if (shape < 2) for (int k = 2; k < N; k++) { con(k == 2 ? 0 : k - 1, k, 0); if (shape == 1) con(1, k, 1); }
        else for (int k = 0; k < n; k++) for (int j = 0; j < 2; j++) { int c = 2 * k + 1 + j; con(c < n ? 2 + c : c % 2, 2 + k, j); }   // heap: node k has children 2k+1, 2k+2
        transition(2 * n);
        int top = shape < 2 ? N - 1 : 2;
        r.exec(top, zero_cache(), "huge graph"); r.exec(shape < 2 ? 2 + n / 2 : 2 + 1, zero_cache(), "part of a huge graph"); r.exec(top, zero_cache(), "huge graph again");
        state(i);
    }, [](uint64_t i) { Digits d(i); int shape = int(d(3)); bool back = d(2); return sfmt("%s of %d nodes, created %s", shape == 0 ? "chain" : shape == 1 ? "comb of merges" : "tree of merges", UP[d.i], back ? "last first" : "first first"); });
    // Exponentially many paths: diamonds in a row must not take exponential time.
    s.add("diamond-ladders", 3 * 40, [](uint64_t i) {
        int n = int(i % 40) + 1, var = int(i / 40); Alpha al; std::vector<std::string> nm;
        al.nodes = {mn(SRC_FILE, 1)};
        for (int k = 0; k < n; k++) al.nodes.push_back(mn(MERGE, var == 2 ? 0.25 : 0.05));
        for (size_t k = 0; k < al.nodes.size(); k++) nm.push_back(sfmt("n%zu", k));
        for (auto &x : nm) al.name.push_back(x.c_str());
        Rig r(al, false);
        for (size_t k = 0; k < al.nodes.size(); k++) r.create(int(k));
        for (int k = 1; k <= n; k++) { r.step({2, k - 1, k, 0}); r.step({2, var == 1 && k > 1 ? k - 2 : k - 1, k, 1}); }
        r.exec(n, warm_cache(), "ladder"); state(i);
    }, [](uint64_t i) { return sfmt("ladder of %d merges, variant %d", int(i % 40) + 1, int(i / 40)); });
}
Register r05("C05", build05);

// ---------------------------------------------------------------- C06
// Reference state machine over a graph  read -> grade -> merge(1) -> writer -> viewer,  file -> merge(0)
enum { RD, FL, GR, MG, WR, VW, GONE, NN };
const char *n06[] = {"reader", "file", "grade", "merge", "writer", "viewer", "gone"};
struct S06 {
    G g; std::vector<Node> h; CacheP c = make_cache(1 << 16);
    bool ex[NN]; int path = 0, en_rd = 1, en_mg = 1, wpath = 0, wexec = 1; bool c_rd_gr = true, c_gr_mg = true, c_fl_mg = true, c_wr = true, c_vw = true;
    int state = 255, est = 255; int status[NN];
    S06() {
        for (int k = 0; k < NN; k++) { ex[k] = k != GONE; status[k] = k == GONE ? 3 : 255; }
        NodeType t[] = {NodeType::kReadImage, NodeType::kReadImage, NodeType::kGrade, NodeType::kMergeImage, NodeType::kWriteImage, NodeType::kViewer};
        REQUIRE(int(g.g.state()) == 255 && int(g.g.execute_status()) == 255, "new graph has state %d status %d", int(g.g.state()), int(g.g.execute_status()));
        for (int k = 0; k < 6; k++) h.push_back(g.make(t[k]));
        h.push_back(Node(NodeType::kGrade, 424242));
        state = 0;
        g.s(h[RD], "file_path", fileA()); g.s(h[FL], "file_path", fileA()); 
        g.s(h[WR], "file_path", g_suite->dir + sfmt("/w%d.exr", int(getpid())));
        g.con(h[RD], h[GR]); g.con(h[FL], h[MG], 0); g.con(h[GR], h[MG], 1); g.con(h[MG], h[WR]); g.con(h[WR], h[VW]);
        check("after building");
    }
    void check(const char *when) {
        REQUIRE(int(g.g.state()) == state, "%s: graph state %d, expected %d", when, int(g.g.state()), state);
        REQUIRE(int(g.g.execute_status()) == est, "%s: execute status %d, expected %d", when, int(g.g.execute_status()), est);
        for (int k = 0; k < NN; k++) if (status[k] >= 0) { int s = int(g.g.node_status(h[k])); REQUIRE(s == status[k], "%s: status of %s is %s, expected %s", when, n06[k], status_name(NodeStatus(s)), status_name(NodeStatus(status[k]))); }
        uint64_t f = mix(state, est); for (int k = 0; k < NN; k++) f = mix(f, status[k] + 5);
        for (bool b : {c_rd_gr, c_gr_mg, c_fl_mg, c_wr, c_vw}) f = mix(f, b);
        mc::state(mix(mix(f, path * 8 + en_rd * 4 + en_mg * 2 + wexec), wpath));
    }
    int eval(int k) {   // sets statuses; returns 1 Valid 2 Warning 0 Error (stops)
        auto set = [&](int v) { status[k] = v; return v; };
        switch (k) {
        case RD: return set(en_rd && path == 0 ? 1 : 2);
        case FL: return set(1);
        case GR: if (c_rd_gr && ex[RD]) { eval(RD); return set(1); } return set(2);
        case MG: {
            bool a = c_fl_mg && ex[FL], b = c_gr_mg && ex[GR];
            if (a) eval(FL);
            if (b) eval(GR);
            if (!en_mg) { if (a) status[FL] = -1; return set(2); }
            return set(a && b ? 1 : 2);
        }
        case WR: if (!(c_wr && ex[MG])) return set(2); { int r = eval(MG); if (r == 0) return 0; } return set(wexec && wpath ? 0 : 1);
        case VW: if (!(c_vw && ex[WR])) return set(2); { int r = eval(WR); if (r == 0) return 0; } return set(1);
        }
        return 0;
    }
    void exec(int k) {
        transition();
        std::vector<double> fr{1};
        auto st = g.g.execute(h[k], fr, c);
        int want;
        if (!ex[k]) want = 0;
        else want = eval(k) == 0 ? 0 : 1;
        REQUIRE(int(st) == want, "execute %s returned %d, expected %d", n06[k], int(st), want);
        est = want;
        if (want == 1) state = 1;
    }
    void step(int o) {
        switch (o) {
        case 0: exec(VW); break;
        case 1: exec(WR); break;
        case 2: exec(MG); break;
        case 3: exec(GR); break;
        case 4: exec(RD); break;
        case 5: exec(GONE); break;
        case 6: path = !path; g.s(h[RD], "file_path", path ? g_suite->dir + "/nothing.exr" : fileA()); dirty(RD); break;
        case 7: en_rd = !en_rd; g.i(h[RD], "enable", en_rd); dirty(RD); break;
        case 8: en_mg = !en_mg; g.i(h[MG], "enable", en_mg); dirty(MG); break;
        case 9: wpath = !wpath; g.s(h[WR], "file_path", wpath ? g_suite->dir + "/no/dir/w.exr" : g_suite->dir + sfmt("/w%d.exr", int(getpid()))); dirty(WR); break;
        case 10: wexec = !wexec; g.i(h[WR], "execute", wexec); dirty(WR); break;
        case 11: if (c_rd_gr) g.g.disconnect_input(h[GR], 0); else if (ex[RD]) g.con(h[RD], h[GR]); if (ex[RD] && ex[GR]) { state = 0; c_rd_gr = !c_rd_gr; } break;
        case 12: if (c_gr_mg) g.g.disconnect_input(h[MG], 1); else g.con(h[GR], h[MG], 1); if (ex[GR] && ex[MG]) { state = 0; c_gr_mg = !c_gr_mg; } break;
        case 13: if (c_vw) g.g.disconnect_input(h[VW], 0); else g.con(h[WR], h[VW], 0); state = 0; c_vw = !c_vw; break;
        case 14: del(RD); break;
        case 15: del(GR); break;
        case 16: g.f(h[GR], "gain_r", 0.5f); dirty(GR); break;
        case 17: g.f(h[GONE], "gain_r", 0.5f); g.i(h[GONE], "enable", 0); g.s(h[GONE], "file_path", "x"); g.con(h[GONE], h[MG], 0); g.con(h[FL], h[GONE], 0); g.g.disconnect_input(h[GONE], 0);
                 REQUIRE(!g.g.delete_node(h[GONE]), "deleting a node that does not exist succeeded"); break;
        case 18: { Node x = g.make(NodeType::kNull); state = 0; REQUIRE(int(g.g.node_status(x)) == 255, "new node has status %d", int(g.g.node_status(x))); check("after creating"); g.g.delete_node(x); REQUIRE(int(g.g.node_status(x)) == 3, "deleted node has status %d", int(g.g.node_status(x))); break; }
        case 19: { std::vector<int32_t> none; auto st = g.g.execute(h[MG], none, c); bool e = true; REQUIRE(int(st) == 1, "empty frame list returned %d", int(st)); est = 1; state = 1; (void)e; break; }
        case 20: ask(); break;
        }
        check("after step");
    }
    // Questions change nothing, whatever is asked and however often.
    void ask() {
        for (int t = 0; t < 2; t++) {
            (void)g.g.data_debug_string(); (void)c->data_debug_string(); (void)c->count(); (void)c->used_bytes(); (void)c->capacity_bytes();
            for (int k = 0; k < NN; k++) {
                (void)g.g.node_exists(h[k]); (void)g.g.node_status(h[k]);
                for (const char *a : {"file_path", "enable", "gain_r", "mix", "no_such_attribute"}) (void)g.g.node_attr_exists(h[k], a);
                if (!ex[k]) continue;
                if (k != RD && k != FL && k != WR) { if (g.g.node_attr_exists(h[k], "mix") == ocg::AttrState::kExists) (void)g.g.get_node_attr_f32(h[k], "mix"); }
                else (void)std::string(g.g.get_node_attr_str(h[k], "file_path"));
                (void)g.g.get_node_attr_i32(h[k], "enable");
            }
            if (est == 1) (void)snap(g.g.output_stream());
        }
    }
    void dirty(int k) { if (ex[k]) state = 0; }
    void del(int k) { bool was = ex[k]; REQUIRE(g.g.delete_node(h[k]) == was, "delete returned %d", !was); if (was) { ex[k] = false; status[k] = 3; state = 0; if (k == RD) c_rd_gr = false; if (k == GR) { c_rd_gr = false; c_gr_mg = false; } } }
};
const int O6 = 21;
const char *o06[O6] = {"execute viewer", "execute writer", "execute merge", "execute grade", "execute reader", "execute missing node", "toggle reader path", "toggle reader enable", "toggle merge enable", "toggle writer path", "toggle writer execute", "toggle reader->grade", "toggle grade->merge", "toggle writer->viewer", "delete reader", "delete grade", "set grade attribute", "edits of a missing node", "create and delete", "execute with no frames", "ask everything"};
void build06(Suite &s) {
    s.fixture = fixture;
    unsigned d = s.thorough ? 5 : 4;
    s.add("state-machine", ipow(O6, d), [d](uint64_t i) { S06 x; for (int k : seq(i, O6, d)) x.step(k); transition(d); }, [d](uint64_t i) { std::string t; for (int k : seq(i, O6, d)) t += std::string(o06[k]) + "; "; return t; });
    // every node type: status with 0, 1, 2 inputs, enabled and disabled, connected to a good, missing and disabled source
    struct T { NodeType t; const char *n; };
    static const T ty[] = {{NodeType::kNull, "null"}, {NodeType::kReadImage, "read"}, {NodeType::kWriteImage, "write"}, {NodeType::kGrade, "grade"}, {NodeType::kLensDistort, "lens"}, {NodeType::kTransform, "transform"}, {NodeType::kMergeImage, "merge"}, {NodeType::kCropImage, "crop"}, {NodeType::kViewer, "viewer"}, {NodeType::kResampleImage, "resample"}};
    static const int NIN[] = {0, 1, 2, 3, 5, 20};
    s.add("status-by-type", 10 * 6 * 2 * 3 * 2 * 2, [](uint64_t i) {
        Digits d(i); int t = int(d(10)), nin = NIN[d(6)], en = int(d(2)), src = int(d(3)), again = int(d(2)), cached = int(d(2));
        G g; CacheP c = make_cache(cached ? 1 << 16 : 0);
        Node a = g.make(NodeType::kReadImage); g.s(a, "file_path", src == 1 ? g_suite->dir + "/nothing.exr" : fileA()); if (src == 2) g.i(a, "enable", 0);
        Node n = g.make(ty[t].t);
        if (!en) g.i(n, "enable", 0);
        std::string wf = g_suite->dir + sfmt("/s%d.exr", int(getpid()));
        if (ty[t].t == NodeType::kReadImage) g.s(n, "file_path", fileA());
        if (ty[t].t == NodeType::kWriteImage) g.s(n, "file_path", wf);
        if (ty[t].t == NodeType::kCropImage) { g.i(n, "window_max_x", 2); g.i(n, "window_max_y", 2); }
        if (ty[t].t == NodeType::kResampleImage) g.i(n, "factor", 1);
        for (int k = 0; k < nin; k++) g.con(a, n, k);
        for (int k = 0; k <= again; k++) {
            REQUIRE(g.exec(n, c) == ExecuteStatus::kSuccess, "execution failed");
            int want;
            switch (ty[t].t) {
            case NodeType::kReadImage: want = en ? 1 : 2; break;
            case NodeType::kMergeImage: want = en && nin >= 2 ? 1 : 2; break;
            case NodeType::kWriteImage: want = en ? (nin ? 1 : 2) : -1; break;
            default: want = nin ? 1 : 2;
            }
            int got = int(g.g.node_status(n));
            REQUIRE(want < 0 || got == want, "status %s, expected %s", status_name(NodeStatus(got)), status_name(NodeStatus(want)));
            bool used = nin && ty[t].t != NodeType::kReadImage && !(ty[t].t == NodeType::kWriteImage && !en) && !(ty[t].t == NodeType::kMergeImage && !en);
            int sg = int(g.g.node_status(a)), sw = src == 0 ? 1 : 2;
            if (used) REQUIRE(sg == sw, "status of the source is %s, expected %s", status_name(NodeStatus(sg)), status_name(NodeStatus(sw)));
            if (!nin) REQUIRE(sg == 255, "status of an unused node is %s", status_name(NodeStatus(sg)));
            REQUIRE(int(g.g.state()) == 1 && int(g.g.execute_status()) == 1, "graph state %d, status %d", int(g.g.state()), int(g.g.execute_status()));
        }
        // every kind of edit makes a clean graph dirty
        auto dirty = [&](const char *what) { REQUIRE(int(g.g.state()) == 0, "clean graph after %s", what); g.exec(n, c); REQUIRE(int(g.g.state()) == 1, "not clean after execution"); };
        g.i(n, "enable", !en); dirty("setting an integer attribute");
        g.i(n, "enable", en); dirty("setting an integer attribute");
        g.f(a, "x", 0); g.exec(n, c);
        g.s(a, "file_path", fileA() + "x"); dirty("setting a text attribute");
        g.con(a, n, 0); dirty("connecting");
        g.g.disconnect_input(n, 0); dirty("disconnecting");
        Node q = g.make(NodeType::kNull); dirty("creating a node");
        g.g.delete_node(q); dirty("deleting a node");
        state(i);
    }, [](uint64_t i) { Digits d(i); int t = int(d(10)), nin = int(d(6)), en = int(d(2)), src = int(d(3)); return sfmt("%s node, %d inputs, enable %d, source %s", ty[t].n, NIN[nin], en, src == 0 ? "good" : src == 1 ? "missing" : "disabled"); });
    // every attribute edit makes a clean graph dirty, on the executed node and above it
    struct E { const attrs::T *t; const attrs::A *a; };
    static std::vector<E> es; for (auto &t : attrs::types()) for (auto &a : t.attrs) es.push_back({&t, &a});
    s.add("attribute-edits", es.size() * 2 * 2, [](uint64_t i) {
        Digits d(i); bool above = d(2), failed = d(2); auto &e = es[d.i]; G g; Node n = g.make(e.t->type), v = g.make(NodeType::kViewer), src = g.read(fileA()); g.con(src, n); if (above) g.con(n, v);
        if (e.t->type == NodeType::kWriteImage) { g.s(n, "file_path", g_suite->dir + sfmt("/ae%d.exr", int(getpid()))); }
        Node ex = above ? v : n, w = g.make(NodeType::kWriteImage); g.s(w, "file_path", g_suite->dir + "/no/folder/w.exr"); g.con(src, w);
        g.exec(ex); REQUIRE(int(g.g.state()) == 1, "not clean after an execution");
        if (e.a->type == 'f') { g.f(n, e.a->name, float(e.a->num) + 0.25f); } else if (e.a->type == 'i') g.i(n, e.a->name, int(e.a->num) == 1 ? 0 : 1); else g.s(n, e.a->name, g_suite->dir + sfmt("/ae%d.exr", int(getpid())) + (e.t->type == NodeType::kWriteImage ? ".exr" : ""));
        REQUIRE(int(g.g.state()) == 0, "clean after an edit of %s.%s", e.t->name, e.a->name);
        if (failed) { REQUIRE(g.exec(w) == ExecuteStatus::kError, "writing into a folder that does not exist succeeded"); REQUIRE(int(g.g.state()) == 0, "clean after a failed execution that followed an edit"); }
        g.exec(ex); REQUIRE(int(g.g.state()) == 1, "not clean after an execution"); state(i);
    }, [](uint64_t i) { Digits d(i); bool above = d(2), failed = d(2); auto &e = es[d.i]; return sfmt("edit %s.%s of %s node%s", e.t->name, e.a->name, above ? "an upstream" : "the executed", failed ? ", then a failed execution" : ""); });
}
Register r06("C06", build06);
}
