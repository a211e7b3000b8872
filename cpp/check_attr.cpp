// C07 attributes.
#include "attrs.h"
#include <array>
#include <climits>
#include <cfloat>
using namespace mc;
using attrs::A; using attrs::T;
namespace {
struct V { uint32_t f = 0; int i = 0; std::string s; };          // the float as bits
uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
const std::vector<float> FV = {0.0f, -0.0f, 1.0f, -1.0f, 0.1f, 123456.789f, FLT_MAX, -FLT_MAX, FLT_MIN, 1.4e-45f, INFINITY, -INFINITY, NAN};
const std::vector<int> IV = {0, 1, -1, 2, 255, 256, INT_MAX, INT_MIN, 65536, 7};
const std::vector<std::string> &SV() {
    static const std::vector<std::string> v = {"", "a", "/some/path.####.exr", "sRGB", "Linear", " lead and trail ", "\xc3\xa9\xe6\xbc\xa2\xf0\x9f\x98\x80", std::string("nul\0inside", 10), std::string(5000, 'x'), "line\nbreak\ttab\"quote'\\", "$HOME/~", "123"};
    return v;
}
size_t values(char t) { return t == 'f' ? FV.size() : t == 'i' ? IV.size() : SV().size(); }
struct M { const T *t; std::vector<V> v; bool exists = true;
    M(const T &ty) : t(&ty) { for (auto &a : ty.attrs) { V x; x.f = bits(float(a.num)); x.i = int(a.num); x.s = a.str; v.push_back(x); } } };
void write(ocg::Graph &g, const Node &n, const A &a, size_t k, V *m) {
    transition();
    if (a.type == 'f') { g.set_node_attr_f32(n, a.name, FV[k]); if (m) m->f = bits(FV[k]); }
    else if (a.type == 'i') { g.set_node_attr_i32(n, a.name, IV[k]); if (m) m->i = IV[k]; }
    else { g.set_node_attr_str(n, a.name, rust::Str(SV()[k].data(), SV()[k].size())); if (m) m->s = SV()[k]; }
}
std::string vstr(const A &a, size_t k) { return a.type == 'f' ? sfmt("%s=%g", a.name, FV[k]) : a.type == 'i' ? sfmt("%s=%d", a.name, IV[k]) : sfmt("%s=text%zu", a.name, k); }
std::string sget(ocg::Graph &g, const Node &n, const char *name) { auto s = g.get_node_attr_str(n, name); return std::string(s.data(), s.size()); }
bool there(ocg::Graph &g, const Node &n, const std::string &name) { return g.node_attr_exists(n, rust::Str(name.data(), name.size())) == ocg::AttrState::kExists; }
void verify(ocg::Graph &g, const Node &n, const M &m, const char *who) {
    uint64_t h = uint64_t(m.t->type);
    for (size_t k = 0; k < m.t->attrs.size(); k++) {
        const A &a = m.t->attrs[k];
        bool ex = m.exists;
        REQUIRE(there(g, n, a.name) == ex, "%s %s: attribute %s reported %s", who, m.t->name, a.name, ex ? "missing" : "present");
        uint32_t f = bits(g.get_node_attr_f32(n, a.name)); int i = g.get_node_attr_i32(n, a.name); std::string s = sget(g, n, a.name);
        uint32_t wf = ex && a.type == 'f' ? m.v[k].f : 0; int wi = ex && a.type == 'i' ? m.v[k].i : 0; std::string ws = ex && a.type == 's' ? m.v[k].s : "";
        float gf, xf; memcpy(&gf, &f, 4); memcpy(&xf, &wf, 4);
        REQUIRE(f == wf || (std::isnan(gf) && std::isnan(xf)), "%s %s: %s reads as float %g, expected %g", who, m.t->name, a.name, gf, xf);
        REQUIRE(i == wi, "%s %s: %s reads as integer %d, expected %d", who, m.t->name, a.name, i, wi);
        REQUIRE(s == ws, "%s %s: %s reads as text \"%.60s\", expected \"%.60s\"", who, m.t->name, a.name, s.c_str(), ws.c_str());
        h = mix(mix(h, f), i); h = fnv(s.data(), s.size(), h);
    }
    state(h);
}
std::vector<std::string> &unknown_names() {
    static std::vector<std::string> v;
    if (v.empty()) {
        std::set<std::string> all;
        for (auto &t : attrs::types()) for (auto &a : t.attrs) {
            std::string n = a.name; all.insert(n); all.insert(n + "_"); all.insert(n + "x"); all.insert(" " + n); all.insert(n + " "); all.insert(n.substr(0, n.size() - 1)); all.insert(n.substr(1));
            std::string u = n; u[0] = toupper(u[0]); all.insert(u); all.insert(n + std::string(1, '\0'));
        }
        for (const char *x : {"", "x", "frame", "name", "id", "status", "node_type", "window", "bake", "\xc3\xa9"}) all.insert(x);
        all.insert(std::string(3000, 'a'));
        v.assign(all.begin(), all.end());
    }
    return v;
}
const A *find(const T &t, const std::string &n) { for (auto &a : t.attrs) if (n == a.name) return &a; return nullptr; }

void build(Suite &s) {
    s.assumptions = {"not-a-number values are compared as not-a-number; other values bit for bit"};
    static const auto &TY = attrs::types();
    s.add("defaults", TY.size() * 3, [](uint64_t i) {
        Digits d(i); auto &t = d.pick(TY); int how = int(d(3));
        ocg::Graph g; Node n = how == 0 ? g.create_node(t.type) : how == 1 ? g.create_node(t.type, "some name") : g.create_node(t.type, uint64_t(42));
        verify(g, n, M(t), "new"); transition();
        Node other(t.type, n.get_id() + 1); M gone(t); gone.exists = false;
        verify(g, other, gone, "non-existing");
    }, [](uint64_t i) { Digits d(i); auto &t = d.pick(TY); return sfmt("new %s node, created in way %d", t.name, int(d(3))); });
    // every ordered pair of writes to a node, with a twin node of the same type beside it
    static std::vector<std::array<int, 3>> pairs;
    pairs.clear();
    for (int t = 0; t < int(TY.size()); t++) for (int a = 0; a < int(TY[t].attrs.size()); a++) for (int b = 0; b < int(TY[t].attrs.size()); b++) pairs.push_back({t, a, b});
    int per = 13;
    s.add("every-pair-of-writes", pairs.size() * 13 * per, [=](uint64_t i) {
        Digits d(i); auto p = d.pick(pairs); int va = int(d(13)), vb = int(d(per));
        auto &t = TY[p[0]]; const A &a = t.attrs[p[1]], &b = t.attrs[p[2]];
        size_t ka = va % values(a.type), kb = vb % values(b.type);
        if (va >= int(values(a.type))) return;
        ocg::Graph g, g2; Node n = g.create_node(t.type, uint64_t(1)), twin = g.create_node(t.type, uint64_t(2)), far = g2.create_node(t.type, uint64_t(1));
        M m(t), same(t);
        write(g, n, a, ka, &m.v[p[1]]); verify(g, n, m, "written");
        write(g, n, b, kb, &m.v[p[2]]);
        verify(g, n, m, "written"); verify(g, twin, same, "other"); verify(g2, far, same, "other graph's");
        CacheP c = make_cache(0); std::vector<double> fr{1};
        if (t.type != NodeType::kWriteImage && t.type != NodeType::kResampleImage && t.type != NodeType::kCropImage && t.type != NodeType::kViewer) { g.execute(n, fr, c); transition(); verify(g, n, m, "executed"); verify(g, twin, same, "other"); }
    }, [=](uint64_t i) { Digits d(i); auto p = d.pick(pairs); int va = int(d(13)), vb = int(d(per)); auto &t = TY[p[0]]; const A &a = t.attrs[p[1]], &b = t.attrs[p[2]];
        size_t ka = va % values(a.type), kb = vb % values(b.type); return sfmt("%s: %s then %s", t.name, vstr(a, ka).c_str(), vstr(b, kb).c_str()); });
    // writes by unknown names and with the wrong type
    uint64_t un = unknown_names().size();
    s.add("unknown-names-and-types", TY.size() * un * 3, [=](uint64_t i) {
        Digits d(i); auto &t = d.pick(TY); const std::string &name = unknown_names()[d(un)]; int how = int(d(3));
        const char types[] = {'f', 'i', 's'};
        ocg::Graph g; Node n = g.create_node(t.type, uint64_t(1)); M m(t);
        // distinct values in every attribute first
        int k = 1; for (size_t x = 0; x < t.attrs.size(); x++) {
            const A &a = t.attrs[x]; transition(); V &v = m.v[x];
            if (a.type == 'f') { v.f = bits(0.5f + k); g.set_node_attr_f32(n, a.name, 0.5f + k); } else if (a.type == 'i') { v.i = 100 + k; g.set_node_attr_i32(n, a.name, v.i); } else { v.s = sfmt("t%d", k); g.set_node_attr_str(n, a.name, v.s); }
            k++;
        }
        verify(g, n, m, "filled");
        const A *a = find(t, name);
        REQUIRE(there(g, n, name) == (a != nullptr), "%s reports attribute \"%.40s\" %s", t.name, name.c_str(), a ? "missing" : "present");
        rust::Str nm(name.data(), name.size());
        if (a && a->type == types[how]) return;
        transition();
        if (how == 0) g.set_node_attr_f32(n, nm, 77.0f); else if (how == 1) g.set_node_attr_i32(n, nm, 77); else g.set_node_attr_str(n, nm, "77");
        REQUIRE(there(g, n, name) == (a != nullptr), "after a write %s reports attribute \"%.40s\" %s", t.name, name.c_str(), a ? "missing" : "present");
        if (how == 0) REQUIRE(bits(g.get_node_attr_f32(n, nm)) == 0, "float read of \"%.40s\" is not zero", name.c_str());
        if (how == 1) REQUIRE(g.get_node_attr_i32(n, nm) == 0, "integer read of \"%.40s\" is not zero", name.c_str());
        if (how == 2) REQUIRE(g.get_node_attr_str(n, nm).empty(), "text read of \"%.40s\" is not empty", name.c_str());
        verify(g, n, m, "unrelated write to");
        Node gone(t.type, uint64_t(9));
        if (how == 0) g.set_node_attr_f32(gone, nm, 5.0f); else if (how == 1) g.set_node_attr_i32(gone, nm, 5); else g.set_node_attr_str(gone, nm, "5");
        verify(g, n, m, "write to a missing node changed");
    }, [=](uint64_t i) { Digits d(i); auto &t = d.pick(TY); const std::string &name = unknown_names()[d(un)]; const char *h[] = {"float", "integer", "text"}; return sfmt("%s: write \"%.40s\" as %s", t.name, name.c_str(), h[d(3)]); });
    // histories over three nodes in two graphs: writes, executions, deletion and creation
    struct Op { int node, attr, val, kind; };         // kind 0 write 1 delete 2 create 3 execute 4 connect
    static const std::vector<std::array<int, 4>> trios = {{3, 3, 3, 0}, {5, 5, 5, 0}, {4, 4, 4, 0}, {1, 1, 1, 0}, {6, 5, 6, 0}, {7, 9, 7, 0}, {8, 8, 8, 0}, {2, 2, 2, 0}, {6, 6, 6, 0}, {9, 9, 9, 0}, {7, 7, 7, 0}, {3, 5, 1, 0}};
    auto alphabet = [](const std::array<int, 4> &tr) {
        std::vector<Op> v;
        for (int n = 0; n < 3; n++) {
            int cnt = int(TY[tr[n]].attrs.size());
            std::set<int> pick{cnt - 1, cnt / 2, 1};
            for (int a : pick) { v.push_back({n, a, 2, 0}); if (n != 1) v.push_back({n, a, 4, 0}); }
            v.push_back({n, 0, 0, 1}); v.push_back({n, 0, 0, 2}); if (n != 1) v.push_back({n, 0, 0, 3});
        }
        v.push_back({0, 0, 0, 4});
        return v;
    };
    unsigned depth = s.thorough ? 4 : 3;
    for (size_t q = 0; q < trios.size(); q++) {
        auto tr = trios[q]; auto al = alphabet(tr);
        auto dsc = [=](uint64_t i) { std::string r = sfmt("nodes %s, %s, %s (other graph):", TY[tr[0]].name, TY[tr[1]].name, TY[tr[2]].name);
            for (int o : seq(i, al.size(), depth)) { auto &x = al[o]; const char *k[] = {"", " delete", " create", " execute", " connect"}; r += x.kind ? sfmt("%s n%d;", k[x.kind], x.node) : sfmt(" n%d.%s;", x.node, vstr(TY[tr[x.node]].attrs[x.attr], x.val % values(TY[tr[x.node]].attrs[x.attr].type)).c_str()); } return r; };
        s.add(sfmt("histories-%s-%s", TY[tr[0]].name, TY[tr[1]].name), ipow(al.size(), depth), [=](uint64_t i) {
            ocg::Graph g[2]; std::vector<Node> n; std::vector<M> m;
            for (int k = 0; k < 3; k++) { n.push_back(g[k == 2].create_node(TY[tr[k]].type, uint64_t(k == 2 ? 1 : k + 1))); m.push_back(M(TY[tr[k]])); }
            CacheP c = make_cache(1 << 16); std::vector<double> fr{1};
            for (int o : seq(i, al.size(), depth)) {
                auto &x = al[o]; auto &gr = g[x.node == 2];
                transition();
                if (x.kind == 0) { const A &a = TY[tr[x.node]].attrs[x.attr]; size_t v = x.val % values(a.type); bool ex = m[x.node].exists; V dummy; write(gr, n[x.node], a, v, ex ? &m[x.node].v[x.attr] : &dummy); }
                else if (x.kind == 1) { gr.delete_node(n[x.node]); m[x.node].exists = false; }
                else if (x.kind == 2) { if (!m[x.node].exists) { n[x.node] = gr.create_node(TY[tr[x.node]].type, n[x.node].get_id()); m[x.node] = M(TY[tr[x.node]]); } }
                else if (x.kind == 3) { if (TY[tr[x.node]].type != NodeType::kWriteImage) gr.execute(n[x.node], fr, c); }
                else if (m[0].exists && m[1].exists) gr.connect(n[0], n[1], 0);
                for (int k = 0; k < 3; k++) verify(g[k == 2], n[k], m[k], sfmt("n%d", k).c_str());
            }
        }, dsc);
    }
}
Register r("C07", build);
}
