// C01, C02: the image cache against a list-based reference cache.
#include "recipe.h"
#include <list>
using namespace mc;

namespace {
struct RefEntry { uint64_t key; int tag; size_t size; };
// Reference: front = least recently used.
struct RefCache {
    std::list<RefEntry> l; size_t cap = 0;
    size_t used() const { size_t u = 0; for (auto &e : l) u += e.size; return u; }
    void shrink(size_t target) { while (!l.empty() && used() > target) l.pop_front(); }
    void insert(uint64_t k, int tag, size_t size) {
        if (cap == 0) return;
        l.remove_if([&](const RefEntry &e) { return e.key == k; });
        if (size > cap) return;
        shrink(cap - size);
        l.push_back({k, tag, size});
    }
    RefEntry *get(uint64_t k) {
        for (auto it = l.begin(); it != l.end(); ++it) if (it->key == k) { l.splice(l.end(), l, it); return &l.back(); }
        return nullptr;
    }
    void set_cap(size_t c) { shrink(c); cap = c; }
    void evict_bytes(size_t n) { size_t u = used(); shrink(n >= u ? 0 : u - n); }
    uint64_t fp() const { uint64_t h = mix(7, cap); for (auto &e : l) { h = mix(h, e.key); h = mix(h, e.size); } return h; }
};
struct RealCache {
    ocg::Cache c; rust::Box<ocg::internal::CacheImpl> *box = nullptr;
    std::unique_ptr<rust::Box<ocg::internal::CacheImpl>> b;
    void *p;
    RealCache(size_t cap) {
        b.reset(new rust::Box<ocg::internal::CacheImpl>(ocg::internal::create_cache_box_with_capacity(cap)));
        p = &**b;
    }
    size_t used() { return (*b)->used_bytes(); }
    size_t count() { return (*b)->len(); }
    size_t cap() { return (*b)->capacity_bytes(); }
    void set_cap(size_t v) { (*b)->set_capacity_bytes(v); }
};
const bool ACC = true;
// acct: judge accounting (C01); otherwise contents and order (C02)
void compare(bool acct, RealCache &r, RefCache &m, const char *op) {
    if (acct) {
        REQUIRE(r.used() == m.used(), "after %s: used bytes %zu, images held total %zu", op, r.used(), m.used());
        REQUIRE(r.count() == m.l.size(), "after %s: count %zu, images held %zu", op, r.count(), m.l.size());
        REQUIRE(r.cap() == m.cap, "after %s: capacity %zu, was set to %zu", op, r.cap(), m.cap);
        REQUIRE(r.used() <= r.cap(), "after %s: used %zu exceeds the capacity %zu", op, r.used(), r.cap());
    }
    state(m.fp());
}
void check_get(RealCache &r, RefCache &m, uint64_t k, const char *when) {
    int64_t v = ocg_mc_cache_get(r.p, k);
    RefEntry *e = m.get(k);
    int64_t want = e ? int64_t(e->tag) * 256 + int64_t(e->size) : -1;
    REQUIRE(v == want, "%s: lookup of key %llu gave %lld, expected %lld (tag*256+size; -1 absent, -2 inconsistent)", when, (unsigned long long)k, (long long)v, (long long)want);
}
struct Op { int kind; uint64_t a; size_t b; };   // 0 insert(key a,size b) 1 get 2 evict 3 evict_bytes 4 evict_all 5 set_cap
std::string op_str(const Op &o) {
    switch (o.kind) {
        case 0: return sfmt("store(key %llu, %zu bytes)", (unsigned long long)o.a, o.b);
        case 1: return sfmt("lookup(key %llu)", (unsigned long long)o.a);
        case 2: return "evict()";
        case 3: return sfmt("evict_bytes(%zu)", o.b);
        case 4: return "evict_all()";
        case 6: return "ask for the counts and the debug text";
        default: return sfmt("set_capacity(%zu)", o.b);
    }
}
void apply(bool acct, RealCache &r, RefCache &m, const Op &o, int step) {
    transition();
    int tag = int((uint64_t(step) * 7 + (o.a % 1000) * 3 + 1) % 120 + 1);
    switch (o.kind) {
        case 0: ocg_mc_cache_insert(r.p, o.a, tag, int(o.b)); m.insert(o.a, tag, o.b); break;
        case 1: if (acct) { ocg_mc_cache_get(r.p, o.a); m.get(o.a); } else check_get(r, m, o.a, "history"); break;
        case 2: ocg_mc_cache_evict(r.p); if (!m.l.empty()) m.l.pop_front(); break;
        case 3: ocg_mc_cache_evict_bytes(r.p, o.b); m.evict_bytes(o.b); break;
        case 4: ocg_mc_cache_evict_all(r.p); m.l.clear(); break;
        case 5: r.set_cap(o.b); m.set_cap(o.b); break;
        case 6: (void)(*r.b)->data_debug_string(); (void)r.used(); (void)r.count(); (void)r.cap(); break;
    }
    compare(acct, r, m, acct ? op_str(o).c_str() : "");
}
void finish(bool acct, RealCache &r, RefCache &m, bool drain, const std::vector<uint64_t> &keys) {
    if (acct) {
        // what is accounted for is really there: drain and count down to zero
        size_t n = 0;
        while (r.count() > 0) { REQUIRE(n++ < 100000, "eviction does not empty the cache"); ocg_mc_cache_evict(r.p); if (!m.l.empty()) m.l.pop_front(); compare(acct, r, m, "final evict()"); }
        REQUIRE(r.used() == 0, "empty cache reports %zu bytes used", r.used());
        return;
    }
    if (drain) {
        while (!m.l.empty()) {
            uint64_t k = m.l.front().key;
            ocg_mc_cache_evict(r.p); m.l.pop_front();
            check_get(r, m, k, "after evicting the least recently used image");
            REQUIRE(r.count() == m.l.size(), "evict() left %zu images, expected %zu", r.count(), m.l.size());
        }
    } else for (uint64_t k : keys) check_get(r, m, k, "at the end");
}
std::vector<Op> alphabet(const std::vector<uint64_t> &keys, const std::vector<size_t> &sizes, const std::vector<size_t> &caps, const std::vector<size_t> &ev) {
    std::vector<Op> a;
    for (auto k : keys) for (auto s : sizes) a.push_back({0, k, s});
    for (auto k : keys) a.push_back({1, k, 0});
    a.push_back({2, 0, 0});
    for (auto n : ev) a.push_back({3, 0, n});
    a.push_back({4, 0, 0});
    for (auto c : caps) a.push_back({5, 0, c});
    return a;
}
void add_seq(Suite &s, bool acct, const std::string &name, std::vector<uint64_t> keys, std::vector<Op> ops, unsigned depth, std::vector<size_t> caps0) {
    uint64_t n = ops.size(), per = ipow(n, depth);
    int ends = acct ? 1 : 2;
    auto dec = [=](uint64_t i) { return std::make_tuple(caps0[i / ends / per % caps0.size()], int(i % ends), seq(i / ends % per, n, depth)); };
    s.add(name, per * caps0.size() * ends, [=](uint64_t i) {
        size_t c0; int e; std::vector<int> q; std::tie(c0, e, q) = dec(i);
        RealCache r(c0); RefCache m; m.cap = c0;
        for (size_t k = 0; k < q.size(); k++) { note("step %zu of capacity %zu history", k, c0); apply(acct, r, m, ops[q[k]], int(k)); }
        finish(acct, r, m, e == 1, keys);
    }, [=](uint64_t i) {
        size_t c0; int e; std::vector<int> q; std::tie(c0, e, q) = dec(i);
        std::string d = sfmt("capacity %zu:", c0);
        for (int x : q) d += " " + op_str(ops[x]) + ";";
        return d + (acct ? "" : e ? " then evict one by one" : " then look up every key");
    });
}
void build(Suite &s, bool acct) {
    s.assumptions = {"images held in the cache are 8-bit strips of 1..9 bytes or LUTs and reader images; sizes are taken from the image itself",
                     "single-threaded use of one cache (the library's cache is not shared between threads)"};
    if (have_hook()) {
        std::vector<uint64_t> k3 = {11, 0, ~0ull};
        auto ops = alphabet(k3, {1, 2, 3}, {0, 2, 4, 6}, {1, 2, 7});
        add_seq(s, acct, "small-alphabet", k3, ops, s.thorough ? 5 : 4, {0, 3, 4, 6});
        // fewer operations, longer
        std::vector<uint64_t> k4 = {1, 2, 3, 4};
        std::vector<Op> o2;
        for (uint64_t k : k4) { o2.push_back({0, k, size_t(k)}); o2.push_back({1, k, 0}); }
        o2.push_back({5, 0, 3}); o2.push_back({5, 0, 8});
        add_seq(s, acct, "store-lookup-long", k4, o2, s.thorough ? 7 : 6, {6});
        // questions asked in between
        std::vector<Op> o3;
        for (uint64_t k : k3) { o3.push_back({0, k, 2}); o3.push_back({1, k, 0}); }
        o3.push_back({6, 0, 0}); o3.push_back({2, 0, 0}); o3.push_back({5, 0, 4}); o3.push_back({5, 0, 6});
        add_seq(s, acct, "asked-in-between", k3, o3, s.thorough ? 6 : 5, {4, 6});
        // many entries: n stored, one touched, then shrink to c / store a large one
        int N = s.thorough ? 120 : 70;
        auto run = [=](uint64_t i, std::string *d) {
            Digits g(i); size_t n = 1 + g(N), touch = g(8), mode = g(3);
            size_t t = touch * n / 8, cap = n * (n + 1) / 2;   // sizes 1..n fit exactly
            if (d) { *d = sfmt("capacity %zu, store keys 1..%zu of 1..%zu bytes, look up key %zu, then %s", cap, n, n, t + 1, mode == 0 ? "shrink in steps" : mode == 1 ? "store growing images" : "replace every key by a different size"); return; }
            RealCache r(cap); RefCache m; m.cap = cap;
            std::vector<uint64_t> keys;
            auto size = [](size_t k) { return 1 + k % 100; };
            size_t full = 0; for (size_t k = 0; k < n; k++) full += size(k);
            r.set_cap(full); m.set_cap(full);
            for (size_t k = 0; k < n; k++) { apply(acct, r, m, {0, k + 1, size(k)}, int(k)); keys.push_back(k + 1); }
            REQUIRE(r.count() == n, "%zu images that fit exactly were stored, %zu are held", n, r.count());
            apply(acct, r, m, {1, t + 1, 0}, 0);
            for (size_t k = 0; k < 12; k++) {
                if (mode == 0) apply(acct, r, m, {5, 0, m.used() > k * 3 + 1 ? m.used() - k * 3 - 1 : 0}, int(k));
                else if (mode == 1) apply(acct, r, m, {0, 1000 + k, std::min<size_t>(200, full * (k + 1) / 12 + 1)}, int(k));
                else apply(acct, r, m, {0, 1 + k * n / 12, size(k * 5 + 3)}, int(k + 50));
            }
            finish(acct, r, m, (i & 1), keys);
        };
        s.add("many-entries", uint64_t(N) * 8 * 3, [=](uint64_t i) { run(i, nullptr); }, [=](uint64_t i) { std::string d; run(i, &d); return d; });
        // Every word of up to W operations, repeated R times: long regular histories.
        {
            std::vector<uint64_t> keys = {1, 2, 3, 4};
            std::vector<Op> o;
            for (uint64_t k : keys) { o.push_back({0, k, size_t(k)}); o.push_back({1, k, 0}); }
            o.push_back({5, 0, 6}); o.push_back({5, 0, 9}); o.push_back({3, 0, 2});
            unsigned W = s.thorough ? 4 : 3; int R = s.thorough ? 300 : 150; uint64_t n = o.size(), per = ipow(n, W);
            auto prep = [=](uint64_t i, std::string *d) {
                Digits g(i); int drain = int(g(2)); auto q = seq(g.i % per, n, W);
                if (d) { *d = "capacity 7, store all keys, then repeatedly:"; for (int x : q) *d += " " + op_str(o[x]) + ";"; return; }
                RealCache r(7); RefCache m; m.cap = 7; int t = 0;
                for (uint64_t k : keys) apply(acct, r, m, {0, k, size_t(k)}, t++);
                for (int k = 0; k < R; k++) { note("round %d", k); for (int x : q) apply(acct, r, m, o[x], t++); }
                for (uint64_t k : {4, 3, 1}) apply(acct, r, m, {1, k, 0}, t++);
                finish(acct, r, m, drain, keys);
            };
            s.add("repeated-words", per * 2, [=](uint64_t i) { prep(i, nullptr); }, [=](uint64_t i) { std::string d; prep(i, &d); return d; });
        }
        // Hundreds to thousands of entries: touched in an order, then removed in one go.
        {
            static const std::vector<size_t> NS = {60, 64, 65, 100, 101, 128, 129, 130, 200, 255, 256, 257, 300, 513, 700, 1025, 1100, 2050, 4100};
            const uint64_t total = (s.thorough ? NS.size() : NS.size() - 1) * 5 * 6;
            auto prep = [=](uint64_t i, std::string *d) {
                Digits g(i); int touch = int(g(5)), act = int(g(6)); size_t n = NS[g.i];
                static const char *T[] = {"nothing", "every key upwards", "every key downwards", "every third key", "the first key"};
                static const char *A[] = {"shrink to the last image", "capacity 0", "evict the bytes of all but two", "store an image of the whole capacity", "evict all", "capacity to a third, then store half as many again"};
                if (d) { *d = sfmt("store %zu images of 1..3 bytes, look up %s, %s", n, T[touch], A[act]); return; }
                size_t full = 0; for (size_t k = 0; k < n; k++) full += 1 + k % 3;
                RealCache r(full); RefCache m; m.cap = full; std::vector<uint64_t> keys; int t = 0;
                // the model's list is walked per operation: apply directly where nothing can be evicted
                for (size_t k = 0; k < n; k++) { int tag = int(k % 100 + 1); ocg_mc_cache_insert(r.p, k + 1, tag, int(1 + k % 3)); m.l.push_back({k + 1, tag, 1 + k % 3}); keys.push_back(k + 1); }
                transition(n); compare(acct, r, m, "storing images that fit exactly");
                if (touch == 1) for (size_t k = 0; k < n; k++) apply(acct, r, m, {1, k + 1, 0}, t++);
                if (touch == 2) for (size_t k = n; k--;) apply(acct, r, m, {1, k + 1, 0}, t++);
                if (touch == 3) for (size_t k = 0; k < n; k += 3) apply(acct, r, m, {1, k + 1, 0}, t++);
                if (touch == 4) apply(acct, r, m, {1, 1, 0}, t++);
                if (act == 0) apply(acct, r, m, {5, 0, m.l.back().size}, t++);
                if (act == 1) apply(acct, r, m, {5, 0, 0}, t++);
                if (act == 2) { size_t keep = m.l.back().size + std::prev(m.l.end(), 2)->size; apply(acct, r, m, {3, 0, m.used() - keep}, t++); }
                if (act == 3) apply(acct, r, m, {0, 99999, full}, t++);
                if (act == 4) apply(acct, r, m, {4, 0, 0}, t++);
                if (act == 5) { apply(acct, r, m, {5, 0, full / 3}, t++); for (size_t k = 0; k < n / 2; k++) apply(acct, r, m, {0, 100000 + k, 1 + k % 2}, t++); }
                if (!acct && act == 5) for (size_t k = 0; k < n / 2; k++) keys.push_back(100000 + k);
                finish(acct, r, m, act == 5 && touch < 2, keys);
            };
            s.add("large-populations", total, [=](uint64_t i) { prep(i, nullptr); }, [=](uint64_t i) { std::string d; prep(i, &d); return d; });
        }
        // Capacities beyond what 32 bits hold.
        {
            std::vector<uint64_t> keys = {1, 2, 3};
            std::vector<Op> o;
            for (uint64_t k : keys) o.push_back({0, k, 3});
            o.push_back({1, 1, 0}); o.push_back({1, 2, 0}); o.push_back({2, 0, 0});
            std::vector<size_t> big = {4, size_t(1) << 31, (size_t(1) << 31) + 4, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 4, (size_t(1) << 53) + 1, size_t(1) << 63, ~size_t(0)};
            for (auto b : big) o.push_back({5, 0, b});
            o.push_back({3, 0, ~size_t(0)}); o.push_back({3, 0, size_t(1) << 32});
            add_seq(s, acct, "huge-capacities", keys, o, s.thorough ? 4 : 3, {4, size_t(1) << 32, (size_t(1) << 32) + 4, ~size_t(0)});
        }
    }
    // Through the public interface: LUT queries and reader executions are get-or-store.
    struct Q { int kind; int a; size_t size; const char *name; };
    static const std::vector<Q> qs = {
        {0, 2, 96, "transform LUT edge 2"}, {0, 3, 324, "transform LUT edge 3"},
        {1, 2, 8, "1-channel operations LUT edge 2"}, {1, 5, 20, "1-channel operations LUT edge 5"},
        {2, 0, 36, "read 3x1"}, {2, 1, 60, "read 5x1"},
        {3, 0, 36, "fail to write what reads 3x1"}, {4, 0, 0, "execute a cycle and an unknown node"}};
    static const std::vector<size_t> caps = {0, 40, 100, 400, 560};
    std::string dir = s.dir;
    s.fixture = [=]() {
        if (acct) rec::write_files();
        write_file({dir + "/a.exr", {0, 0, 3, 1}, {0, 0, 3, 1}, 3, 0, pattern({0, 0, 3, 1}, 3, 1)});
        write_file({dir + "/b.exr", {0, 0, 5, 1}, {0, 0, 5, 1}, 3, 0, pattern({0, 0, 5, 1}, 3, 2)});
    };
    unsigned depth = s.thorough ? 6 : 5; uint64_t n = qs.size() + caps.size();
    auto opname = [](int q) { return q < int(qs.size()) ? std::string(qs[q].name) : sfmt("set_capacity(%zu)", caps[q - qs.size()]); };
    s.add("public-interface", ipow(n, depth), [=](uint64_t i) {
        auto q = seq(i, n, depth);
        CacheP c = make_cache(560); RefCache m; m.cap = 560;
        G g; Node gr = g.make(NodeType::kGrade); g.f(gr, "multiply_r", 0.5f); g.exec(gr);
        auto stream = g.out();
        Node ra = g.read(dir + "/a.exr"), rb = g.read(dir + "/b.exr"), w = g.make(NodeType::kWriteImage), n1 = g.make(NodeType::kNull), n2 = g.make(NodeType::kNull);
        g.s(w, "file_path", dir + "/no/such/folder/w.exr"); g.con(ra, w); g.con(n1, n2); g.con(n2, n1);
        for (int o : q) {
            std::string name = opname(o);
            note("%s", name.c_str()); transition();
            if (o >= int(qs.size())) { c->set_capacity_bytes(caps[o - qs.size()]); m.set_cap(caps[o - qs.size()]); }
            else {
                const Q &x = qs[o];
                std::vector<float> px;
                if (x.kind == 3) REQUIRE(g.exec(w, c) == ExecuteStatus::kError, "writing into a folder that does not exist succeeded");
                else if (x.kind == 4) { REQUIRE(g.exec(n1, c) == ExecuteStatus::kError, "a cycle was executed"); REQUIRE(g.exec(Node(NodeType::kReadImage, uint64_t(77)), c) == ExecuteStatus::kError, "an unknown node was executed"); }
                else if (x.kind == 2) { g.exec(x.a ? rb : ra, c); px = snap(g.out(), false).px(); }
                else {
                    auto img = x.kind == 0 ? ocg::get_color_transform_3dlut("sRGB", "Linear", x.a, c) : ocg::get_color_ops_lut(stream, x.a, 1, c);
                    auto sl = img.pixel_block->as_slice_f32(); px.assign(sl.data(), sl.data() + sl.size());
                }
                if (!acct && x.kind < 3) {
                    static std::map<int, std::vector<float>> first;   // same process: what an empty cache gave
                    if (x.kind == 2) { auto w = pattern(x.a ? Win{0, 0, 5, 1} : Win{0, 0, 3, 1}, 3, x.a ? 2 : 1); REQUIRE(px == w, "%s returned other pixels than the file's", name.c_str()); }
                    else {
                        if (!first.count(o)) {
                            CacheP z = make_cache(0);
                            auto img = x.kind == 0 ? ocg::get_color_transform_3dlut("sRGB", "Linear", x.a, z) : ocg::get_color_ops_lut(stream, x.a, 1, z);
                            auto sl = img.pixel_block->as_slice_f32(); first[o].assign(sl.data(), sl.data() + sl.size());
                        }
                        REQUIRE(px == first[o], "%s returned other values than without a cache", name.c_str());
                    }
                }
                uint64_t key = x.kind == 3 ? 4 : uint64_t(o);      // the failing writer reads the same file as qs[4]
                if (x.size && !m.get(key)) m.insert(key, 0, x.size);
            }
            size_t used = c->used_bytes(), cnt = c->count();
            if (acct) {
                REQUIRE(used <= c->capacity_bytes(), "after %s: used %zu exceeds the capacity %zu", name.c_str(), used, c->capacity_bytes());
                REQUIRE(c->capacity_bytes() == m.cap, "after %s: capacity %zu", name.c_str(), c->capacity_bytes());
                REQUIRE(cnt == m.l.size() && used == m.used(), "after %s: %zu images of %zu bytes, expected %zu of %zu", name.c_str(), cnt, used, m.l.size(), m.used());
            } else REQUIRE(cnt == m.l.size() && used == m.used(), "after %s: the cache holds %zu images of %zu bytes; least-recently-used order gives %zu of %zu", name.c_str(), cnt, used, m.l.size(), m.used());
            state(m.fp() ^ 0x55);
        }
    }, [=](uint64_t i) { std::string d = "capacity 560:"; for (int o : seq(i, n, depth)) d += " " + opname(o) + ";"; return d; });
    // Which images an execution stores: those of the nodes whose use_cache is on, each at its size.
    if (!acct) return;
    struct Case { int scene, cfg, target, frame; };
    static std::vector<Case> cs; static std::vector<std::vector<rec::Config>> cfgs;
    for (size_t k = 0; k < rec::scenes().size(); k++) {
        auto &sc = rec::scenes()[k]; cfgs.push_back(rec::singles(sc));
        if (s.thorough) for (auto &d : rec::doubles(sc, 2)) cfgs.back().push_back(d);
        for (size_t c = 0; c < cfgs.back().size(); c++) for (int t : sc.targets) for (size_t f = 0; f < sc.frames.size(); f++) cs.push_back({int(k), int(c), t, int(f)});
    }
    s.add("what-executions-store", cs.size(), [=](uint64_t i) {
        auto &c = cs[i]; auto &sc = rec::scenes()[c.scene]; rec::Recipe r = rec::make(sc, cfgs[c.scene][c.cfg]); double frame = sc.frames[c.frame];
        std::vector<int> cached;
        for (size_t k = 0; k < r.n.size(); k++) switch (r.n[k].type) { case NodeType::kReadImage: case NodeType::kCropImage: case NodeType::kMergeImage: case NodeType::kResampleImage: case NodeType::kViewer: cached.push_back(int(k)); break; default: break; }
        for (int on = -1; on < int(cached.size()); on++) {
            for (int k : cached) r.n[k].attrs["use_cache"] = rec::I(on >= 0 && cached[on] == k);
            note("use_cache of %s", on < 0 ? "no node" : sfmt("node %d only", cached[on]).c_str());
            rec::Built b; b.build(r); CacheP c1 = make_cache(1 << 20);
            for (int round = 0; round < 2; round++) {
                auto st = b.exec(c.target, c1, frame); size_t cnt = c1->count(), used = c1->used_bytes();
                state(mix(mix(r.fp(), cnt), used));
                if (on < 0) { REQUIRE(cnt == 0 && used == 0, "no node caches, but the cache holds %zu images of %zu bytes", cnt, used); continue; }
                int k = cached[on]; REQUIRE(cnt <= 1, "only node %d caches, but the cache holds %zu images", k, cnt);
                std::set<int> up; rec::upstream(r, c.target, up);
                if (!up.count(k)) REQUIRE(cnt == 0, "node %d was not part of the execution, but an image was stored", k);
                auto &res = rec::fresh_memo(r, k, frame); const Snap &o = res.snap;
                size_t bytes = size_t(o.w) * o.h * o.nch * dt_bytes(o.dt);
                if (cnt) REQUIRE(used == bytes, "node %d's image of %zu bytes is counted as %zu", k, bytes, used);
                auto at = [&](const char *a, int d) { auto f = r.n[k].attrs.find(a); return f == r.n[k].attrs.end() ? d : f->second.i; };
                bool produces = at("enable", 1) == 1 && (r.n[k].type != NodeType::kViewer || at("bake_option", 0) != 0) && (r.n[k].type != NodeType::kResampleImage || at("factor", 1) != 0);
                if (k == c.target && st == ExecuteStatus::kSuccess && produces && int(b.g.node_status(b.h[k])) == 1)
                    REQUIRE(cnt == 1, "node %d caches and was evaluated, but its image is not in the cache", k);
            }
        }
    }, [=](uint64_t i) { auto &c = cs[i]; auto &sc = rec::scenes()[c.scene]; return sc.name + " " + rec::str(sc, cfgs[c.scene][c.cfg]) + sfmt(", node %d, frame %g", c.target, sc.frames[c.frame]); });
}
Register r1("C01", [](Suite &s) { build(s, true); });
Register r2("C02", [](Suite &s) { build(s, false); });
}
