// C25 executing a list of frames.
#include "recipe.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
namespace {
using namespace rec;
// Recipes; `dir` is where the writers put their files.
struct Sc { const char *name; int node; Recipe r; int blocked; };   // blocked: frame whose output path is a directory
std::vector<Sc> scs(const std::string &dir) {
    std::vector<Sc> v; auto file = [](int i) { return S(cat::files()[i].f.path); };
    auto rd = [](Recipe &r) { return r.add(NodeType::kReadImage, {{"file_path", S(seq_path())}}); };
    { Recipe r; int a = rd(r); v.push_back({"reader", a, r, 0}); }
    { Recipe r; int a = rd(r), g = r.add(NodeType::kGrade, {{"multiply_r", F(0.5f)}}, {a}), w = r.add(NodeType::kViewer, {{"bake_option", I(3)}, {"bake_pixel_data_type", I(0)}}, {g}); v.push_back({"reader-grade-viewer", w, r, 0}); }
    { Recipe r; int a = rd(r), b = r.add(NodeType::kReadImage, {{"file_path", file(1)}}), m = r.add(NodeType::kMergeImage, {{"mix", F(0.5f)}}, {a, b}), c = r.add(NodeType::kCropImage, {{"window_max_x", I(4)}, {"window_max_y", I(3)}}, {m}); v.push_back({"merge-crop", c, r, 0}); }
    { Recipe r; int a = rd(r), w = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/o.####.exr")}}, {a}); v.push_back({"writer", w, r, 0}); }
    { Recipe r; int a = rd(r), w = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/o.exr")}}, {a}), g = r.add(NodeType::kGrade, {{"offset_g", F(0.25f)}}, {w}), x = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/p.##.tif")}}, {g}); v.push_back({"writer-grade-writer", x, r, 0}); }
    { Recipe r; int a = rd(r), w = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/b.####.exr")}}, {a}), g = r.add(NodeType::kGrade, {{"offset_g", F(0.25f)}}, {w}); v.push_back({"writer-fails-at-frame-2", g, r, 2}); }
    { Recipe r; int a = rd(r), n = r.add(NodeType::kNull), w = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/o.##.exr")}}, {a}), m = r.add(NodeType::kMergeImage, {}, {w, n}), x = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/b.####.exr")}}, {m}); v.push_back({"second-writer-fails-at-frame-2", x, r, 2}); }
    { Recipe r; int a = rd(r), s = r.add(NodeType::kResampleImage, {{"factor", I(1)}}, {a}), t = r.add(NodeType::kTransform, {{"translate_x", F(1)}}, {s}), w = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/##/o.exr")}, {"enable", I(0)}}, {t}); v.push_back({"disabled-writer", w, r, 0}); }
    { Recipe r; int a = rd(r), w = r.add(NodeType::kWriteImage, {{"file_path", S(dir + "/o.##.exr")}, {"pixel_data_type", I(1)}}, {a}), b = r.add(NodeType::kReadImage, {{"file_path", S(dir + "/o.01.exr")}, {"use_cache", I(0)}}), m = r.add(NodeType::kMergeImage, {{"mode", I(2)}}, {w, b}); v.push_back({"reads-what-it-may-have-written", m, r, 0}); }
    return v;
}
const int NS = 9;
struct Fr { double v; long n; };
const std::vector<Fr> FR = {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {1.4, 1}, {1.6, 2}, {-1, -1}, {0.2, 0}, {2.75, 3}};
const std::vector<int> INTS = {0, 1, 2, 3, 6};      // whole frames of FR
const std::vector<size_t> CAP = {0, 200, 500, 1000000};

struct File { bool ok; ImgFile f; };
typedef std::map<std::string, File> Files;
Files files(const std::string &dir) {
    Files m; DIR *d = opendir(dir.c_str()); if (!d) return m;
    while (auto *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; File f; f.f.path = dir + "/" + n; struct stat st; f.ok = stat(f.f.path.c_str(), &st) == 0 && S_ISREG(st.st_mode) && load_file(f.f); m[n] = f; }
    closedir(d); return m;
}
std::string compare(const Files &a, const Files &b) {
    for (auto &x : a) if (!b.count(x.first)) return x.first + " should not exist";
    for (auto &x : b) {
        auto it = a.find(x.first); if (it == a.end()) return x.first + " is missing"; const ImgFile &p = it->second.f, &q = x.second.f;
        if (it->second.ok != x.second.ok) return x.first + " is not an image";
        if (x.second.ok && !(p.disp == q.disp && p.data == q.data && p.nch == q.nch && p.dt == q.dt && p.px.size() == q.px.size() && !memcmp(p.px.data(), q.px.data(), p.px.size() * 4))) return x.first + " holds another image";
    }
    return "";
}
std::string scratch(const char *tag) { std::string d = g_suite->dir + sfmt("/%s.%d", tag, int(getpid())); mkdir(d.c_str(), 0755); return d; }
void clean(const std::string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (auto *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; n = d + "/" + n; if (unlink(n.c_str()) && rmdir(n.c_str())) {} } closedir(h); }

struct Run {
    std::string dir; Built b; CacheP c; int node;
    Run(const char *tag, int sc, size_t cap) : dir(scratch(tag)) { clean(dir); mkdir((dir + "/b.0002.exr").c_str(), 0755); auto s = scs(dir)[sc]; b.build(s.r); c = make_cache(cap); node = s.node; }
    ~Run() { clean(dir); rmdir(dir.c_str()); }
    template <class T> ExecuteStatus go(std::vector<T> f) { transition(f.size()); return b.g.execute(b.h[node], f, c); }
    std::map<int, int> statuses() { std::map<int, int> m; for (size_t i = 0; i < b.h.size(); i++) m[int(i)] = int(b.g.node_status(b.h[i])); return m; }
};
void same(Run &x, Run &y, ExecuteStatus sx, ExecuteStatus sy, const char *what) {
    REQUIRE(sx == sy, "%s: execution status %d, one by one %d", what, int(sx), int(sy));
    REQUIRE((sx != ExecuteStatus::kSuccess || x.b.g.state() == y.b.g.state()) && x.b.g.execute_status() == y.b.g.execute_status(), "%s: graph state or status differs", what);
    auto a = x.b.g.output_stream(), b = y.b.g.output_stream();
    std::string e = diff(snap(a), snap(b), false); REQUIRE(e.empty(), "%s: output differs: %s", what, e.c_str());
    REQUIRE(x.statuses() == y.statuses(), "%s: node statuses differ", what);
    REQUIRE(x.c->used_bytes() == y.c->used_bytes() && x.c->count() == y.c->count(), "%s: cache holds %zu bytes in %d, one by one %zu in %d", what, x.c->used_bytes(), int(x.c->count()), y.c->used_bytes(), int(y.c->count()));
    e = compare(files(x.dir), files(y.dir)); REQUIRE(e.empty(), "%s: %s", what, e.c_str());
}
struct Case { int sc; size_t cap; std::vector<int> fr; uint64_t split; };
std::string str(const Case &c) { std::string l; for (size_t k = 0; k < c.fr.size(); k++) l += sfmt("%s%g", k == 0 ? "" : (c.split >> (k - 1) & 1) ? " | " : ",", FR[c.fr[k]].v); return sfmt("%s, frames %s, cache of %zu bytes", scs("")[c.sc].name, l.c_str(), c.cap); }
void run(const Case &c) {
    Run one("one", c.sc, c.cap), lst("list", c.sc, c.cap); int blocked = scs("")[c.sc].blocked;
    // one by one, stopping where a list stops
    std::vector<std::vector<double>> groups(1);
    for (size_t k = 0; k < c.fr.size(); k++) { if (k && (c.split >> (k - 1) & 1)) groups.push_back({}); groups.back().push_back(FR[c.fr[k]].v); }
    ExecuteStatus so = ExecuteStatus::kSuccess, sl = so; long last = 0; std::set<long> done; bool whole = true;
    for (auto &g : groups) {
        for (double f : g) {
            so = one.go(std::vector<double>{f}); long n = 0; for (auto &q : FR) if (q.v == f) n = q.n;
            if (blocked && n == blocked) { REQUIRE(so == ExecuteStatus::kError, "frame %g could not be written, but the status is %d", f, int(so)); break; }
            REQUIRE(so == ExecuteStatus::kSuccess, "frame %g: execution status %d", f, int(so)); last = n; done.insert(n);
        }
        sl = lst.go(g);
        if (g.empty()) { REQUIRE(sl == ExecuteStatus::kSuccess, "an empty list gives status %d", int(sl)); return; }
        same(lst, one, sl, so, "the list");
        bool ints = true; for (double f : g) ints &= f == std::floor(f); whole &= ints;
    }
    if (whole) {
        Run in("int", c.sc, c.cap); ExecuteStatus si{}; for (auto &g : groups) { std::vector<int32_t> v; for (double f : g) v.push_back(int32_t(f)); si = in.go(v); }
        same(in, one, si, so, "the list of whole numbers");
    }
    // a graph that has only evaluated the last frame
    if (so == ExecuteStatus::kSuccess && c.sc != 8) {
        Run f("fresh", c.sc, 0); auto sf = f.go(std::vector<double>{double(last)}); REQUIRE(sf == so, "fresh graph: status %d", int(sf));
        auto a = lst.b.g.output_stream(), b = f.b.g.output_stream(); std::string e = diff(snap(a), snap(b), false); REQUIRE(e.empty(), "differs from frame %ld alone: %s", last, e.c_str());
        REQUIRE(lst.statuses() == f.statuses(), "node statuses differ from frame %ld alone", last);
        auto mine = files(lst.dir), theirs = files(f.dir);
        for (auto &x : theirs) { Files p, q; if (mine.count(x.first)) p[x.first] = mine[x.first]; q[x.first] = x.second; e = compare(p, q); REQUIRE(e.empty(), "written file differs from frame %ld alone: %s", last, e.c_str()); }
    }
    // what is cached shows in what later frames evict
    for (double f : {3.0, 1.0, 2.0}) { one.go(std::vector<double>{f}); lst.go(std::vector<double>{f}); REQUIRE(one.c->used_bytes() == lst.c->used_bytes() && one.c->count() == lst.c->count(), "cache contents differ: later frame %g leaves %zu bytes in %d, one by one %zu in %d", f, lst.c->used_bytes(), int(lst.c->count()), one.c->used_bytes(), int(one.c->count())); }
    trace(); state(mix(mix(c.sc, c.cap), mix(lst.c->used_bytes(), done.size())));
}
void build(Suite &s) {
    bool th = s.thorough;
    s.assumptions = {"frames are finite numbers", "a list stops at the first frame that cannot be evaluated"};
    s.fixture = [] { rec::write_files(); };
    static const std::vector<int> FEW = {0, 1, 3, 5, 6};
    for (unsigned n = 1; n <= (th ? 4u : 3u); n++) {
        bool few = n > (th ? 3u : 2u); uint64_t F = few ? FEW.size() : FR.size(), lists = ipow(F, n), sp = ipow(2, n - 1);
        auto dec = [=](uint64_t i) { Digits d(i); Case c; c.sc = int(d(NS)); c.cap = CAP[d(CAP.size())]; c.split = d(sp); for (int k : seq(d.i, F, n)) c.fr.push_back(few ? FEW[k] : k); return c; };
        s.add(sfmt("lists-of-%u", n), lists * sp * NS * CAP.size(), [=](uint64_t i) { run(dec(i)); }, [=](uint64_t i) { return str(dec(i)); });
    }
    {
        unsigned n = th ? 5 : 4; uint64_t F = 4, lists = ipow(F, n);
        auto dec = [=](uint64_t i) { Digits d(i); Case c; c.sc = int(d(NS)); c.cap = CAP[d(CAP.size())]; c.split = 0; for (int k : seq(d.i, F, n)) c.fr.push_back(INTS[k]); return c; };
        s.add(sfmt("lists-of-%u-whole", n), lists * NS * CAP.size(), [=](uint64_t i) { run(dec(i)); }, [=](uint64_t i) { return str(dec(i)); });
    }
    {   // long lists: periodic, and ending in a frame of their own
        static const std::vector<int> LEN = {8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 400, 1025};
        size_t nl = th ? LEN.size() : LEN.size() - 2;
        auto dec = [=](uint64_t i) { Digits d(i); Case c; c.sc = int(d(NS)); c.cap = CAP[1 + d(2)]; int pat = int(d(2)); c.split = 0; int n = LEN[d.i]; for (int k = 0; k < n; k++) c.fr.push_back(k == n - 1 ? 2 : pat ? 0 : k % 2 ? 3 : 0); return c; };
        s.add("long-lists", nl * NS * 2 * 2, [=](uint64_t i) { run(dec(i)); }, [=](uint64_t i) { auto c = dec(i); return sfmt("%s, %zu frames, the last one of its own, cache of %zu bytes", scs("")[c.sc].name, c.fr.size(), c.cap); });
        static const std::vector<int> MANY = {3, 10, 33, 65, 100, 129, 257, 301, 513, 1030};
        s.add("many-distinct-frames", (th ? MANY.size() : MANY.size() - 1) * 7 * 2, [](uint64_t i) {
            Digits d(i); int kind = int(d(7)); bool ints = d(2); int n = MANY[d.i];
            std::string dir = scratch("many"); clean(dir);
            G g; Node a = g.make(NodeType::kNull), w = g.make(NodeType::kWriteImage); g.con(a, w); g.s(w, "file_path", dir + "/f.#####.exr"); CacheP c = make_cache(10000);
            std::vector<double> f; for (int k = 0; k < n; k++) f.push_back(kind == 0 ? 1 + k : kind == 1 ? 20000 - 3 * k : kind == 2 ? (k % 2 ? -k : k) * 7 : kind == 3 ? (1 << 24) - 2 + k : kind == 4 ? INT32_MAX - k : kind == 5 ? INT32_MIN + k : 65534 + k);
            std::vector<int32_t> v(f.begin(), f.end());
            auto st = ints ? g.g.execute(w, v, c) : g.g.execute(w, f, c); transition(n);
            REQUIRE(st == ExecuteStatus::kSuccess, "status %d", int(st));
            std::set<std::string> want, got; for (int x : v) want.insert(sfmt("f.%05d.exr", x));
            if (DIR *h = opendir(dir.c_str())) { while (auto *e = readdir(h)) if (e->d_name[0] != '.') got.insert(e->d_name); closedir(h); }
            for (auto &x : want) REQUIRE(got.count(x), "%s was not written (%zu of %zu files are there)", x.c_str(), got.size(), want.size());
            REQUIRE(got.size() == want.size(), "%zu files written for %zu frames", got.size(), want.size());
            clean(dir); rmdir(dir.c_str()); state(i);
        }, [](uint64_t i) { Digits d(i); int kind = int(d(7)); bool ints = d(2); return sfmt("%d %s frames, kind %d, written one file each", MANY[d.i], ints ? "whole" : "real", kind); });
    }
    {   // lists longer than 16 bits can count: only three frames have a file, the last one is one
        static const std::vector<int> VAST = {32768, 65535, 65536, 65537, 100000, 131073};
        s.add("vast-lists", VAST.size() * 2, [](uint64_t i) {
            Digits d(i); bool ints = d(2); int n = VAST[d.i]; std::string dir = scratch("vast"); clean(dir);
            std::vector<int> have = {1, n / 2, n}; Win w{0, 0, 3, 2};
            for (size_t k = 0; k < have.size(); k++) { ImgFile f{dir + sfmt("/v.%d.exr", have[k]), w, w, 3, 0, pattern(w, 3, 40 + int(k))}; write_file(f); }
            G g; Node r = g.make(NodeType::kReadImage); g.s(r, "file_path", dir + "/v.#.exr"); CacheP c = make_cache(1000000);
            std::vector<double> f(n); for (int k = 0; k < n; k++) f[k] = k + 1; std::vector<int32_t> v(f.begin(), f.end());
            auto st = ints ? g.g.execute(r, v, c) : g.g.execute(r, f, c); transition(n);
            REQUIRE(st == ExecuteStatus::kSuccess, "status %d", int(st));
            auto o = g.g.output_stream(); Snap got = snap(o);
            CacheP c2 = make_cache(1000000); std::vector<double> last = {double(n)}; REQUIRE(g.g.execute(r, last, c2) == ExecuteStatus::kSuccess, "the last frame alone failed");
            auto o2 = g.g.output_stream(); std::string e = diff(got, snap(o2), true); REQUIRE(e.empty(), "differs from the last frame alone: %s", e.c_str());
            REQUIRE(got.w == 3 && got.h == 2, "the output is not the last frame's file");
            clean(dir); rmdir(dir.c_str()); state(i);
        }, [](uint64_t i) { Digits d(i); bool ints = d(2); return sfmt("a reader at %s frames 1 to %d, of which three have a file", ints ? "whole" : "real", VAST[d.i]); });
    }
    // nothing to evaluate
    s.add("empty", NS * 3 * (FR.size() + 1), [](uint64_t i) {
        Digits d(i); int sc = int(d(NS)), kind = int(d(3)), prev = int(d.i) - 1; if (scs("")[sc].blocked && prev >= 0 && FR[prev].n == 2) return;
        Run r("empty", sc, 100000);
        if (prev >= 0) REQUIRE(r.go(std::vector<double>{FR[prev].v}) == ExecuteStatus::kSuccess, "frame %g", FR[prev].v);
        auto before = r.statuses(); auto o = r.b.g.output_stream(); Snap was = snap(o); size_t used = r.c->used_bytes(); auto had = files(r.dir); clean(r.dir); mkdir((r.dir + "/b.0002.exr").c_str(), 0755); auto none = files(r.dir);
        ExecuteStatus st = kind == 0 ? r.go(std::vector<double>{}) : kind == 1 ? r.go(std::vector<int32_t>{}) : (r.go(std::vector<double>{}), r.go(std::vector<int32_t>{}));
        REQUIRE(st == ExecuteStatus::kSuccess, "an empty list gives status %d", int(st));
        auto o2 = r.b.g.output_stream(); std::string e = diff(snap(o2), was, true); REQUIRE(e.empty(), "an empty list changes the output: %s", e.c_str());
        REQUIRE(r.statuses() == before && r.c->used_bytes() == used, "an empty list changes statuses or the cache");
        e = compare(files(r.dir), none); REQUIRE(e.empty(), "an empty list writes: %s", e.c_str());
    }, [](uint64_t i) { Digits d(i); int sc = int(d(NS)), kind = int(d(3)), prev = int(d.i) - 1; return sfmt("%s, empty list (%d) after %s", scs("")[sc].name, kind, prev < 0 ? "nothing" : sfmt("frame %g", FR[prev].v).c_str()); });
    // a node that cannot be executed: the same error for every list
    s.add("cannot-start", 2 * ipow(4, 3), [](uint64_t i) {
        Digits d(i); int kind = int(d(2)); std::vector<double> f; for (int k : seq(d.i, 4, 3)) if (k) f.push_back(k); if (f.empty()) return;
        G g; Node a = g.read(seq_path()), n = g.make(NodeType::kNull), m = g.make(NodeType::kNull); g.con(n, m); CacheP c = make_cache(10000);
        if (kind == 0) { g.g.delete_node(m); } else g.con(m, n);
        auto st = g.g.execute(m, f, c); std::vector<int32_t> v(f.begin(), f.end()); auto si = g.g.execute(m, v, c);
        REQUIRE(st == ExecuteStatus::kError && si == st, "status %d and %d, expected an error", int(st), int(si)); (void)a;
    }, [](uint64_t i) { return sfmt("%s (%llu)", i % 2 ? "cycle" : "deleted node", (unsigned long long)i); });
}
Register r("C25", build);
}
