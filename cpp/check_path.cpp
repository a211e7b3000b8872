// C19 frame numbers in file paths.
#include "cat.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
namespace {
// Reference expansion, on text.
std::string expand(const std::string &s, long frame) {
    size_t a = s.find('#');
    if (a == std::string::npos) return s;
    size_t b = a; while (b < s.size() && s[b] == '#') b++;
    std::string digits = std::to_string(frame < 0 ? -frame : frame), sign = frame < 0 ? "-" : "";
    while (digits.size() + sign.size() < b - a) digits.insert(digits.begin(), '0');
    return s.substr(0, a) + sign + digits + s.substr(b);
}
const std::vector<long> &frames() {
    static std::vector<long> v = {0, 1, -1, 7, 10, 99, -10, -99, 101, 12345, -12345, 99999999, 2147483647, -2147483648L};
    return v;
}
void check_expand(const std::string &s) {
    char out[512];
    for (long f : frames()) {
        size_t n = ocg_mc_expand(s.data(), s.size(), int32_t(f), out, sizeof out); transition();
        std::string got(out, std::min(n, sizeof out)), want = expand(s, f);
        REQUIRE(got == want, "'%s' at frame %ld becomes '%s', expected '%s'", s.c_str(), f, got.c_str(), want.c_str());
        state(fnv(got.data(), got.size()));
    }
}
const std::vector<std::string> &alphabet() { static std::vector<std::string> v = {"#", "a", ".", "0", "-", "/", "\xc3\xa9"}; return v; }
std::string word(uint64_t i, int len) { std::string r; for (int k : seq(i, alphabet().size(), len)) r += alphabet()[k]; return r; }

// Patterns and frames for the public part.
const std::vector<std::string> &patterns() {
    static std::vector<std::string> v = {"p.#.exr", "p.##.exr", "p.####.exr", "p####.exr", "####.exr", "p.#.##.exr", "p.##.#.exr", "p.exr", "#/p.exr", "##/p.##.exr", "p.############.exr", "p 1.##.exr", "p-##.exr", "p.0#.exr", "\xc3\xa9.##.exr", "p.%04d.exr", "p.@@.exr", "p.#x.exr"};
    return v;
}
struct Fr { double v; long n; };
const std::vector<Fr> &fr() {
    static std::vector<Fr> v = {{1, 1}, {0, 0}, {2, 2}, {-1, -1}, {10, 10}, {100, 100}, {-12, -12}, {1.4, 1}, {1.6, 2}, {-0.4, 0}, {-1.6, -2}, {0.6, 1}, {9.999, 10}, {99.6, 100}, {12345, 12345}, {-12345.25, -12345}, {40000, 40000}, {70001, 70001}, {-65535, -65535}, {16777217, 16777217}, {123456789.25, 123456789}, {2147483646.75, 2147483647}, {-2147483648.0, -2147483648L}};
    return v;
}
std::string root() { return g_suite->dir + "/seq"; }
const std::map<std::string, int> &names() {     // every file a pattern can name, with its own colour
    static std::map<std::string, int> m;
    if (m.empty()) for (auto &p : patterns()) for (auto &f : fr()) { std::string n = expand(p, f.n); if (!m.count(n)) { int k = int(m.size()); m[n] = k; } }
    return m;
}
void mkparent(const std::string &path) { std::string d = path.substr(0, path.rfind('/')); mkdir(d.c_str(), 0755); }
void write_one(const std::string &path, int k) {
    mkparent(path);
    ImgFile f{path, {0, 0, 2, 1}, {0, 0, 2, 1}, 3, 0, {}};
    for (int i = 0; i < 6; i++) f.px.push_back(float(k) + i * 0.125f);
    write_file(f);
}
int color_of(const Snap &s) { return s.w == 2 && s.h == 1 && s.nch == 3 ? int(std::lround(s.px()[0])) : -1; }
void list(const std::string &dir, const std::string &pre, std::set<std::string> &out) {
    DIR *d = opendir(dir.c_str()); if (!d) return;
    while (auto *e = readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        struct stat st; if (stat((dir + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) list(dir + "/" + n, pre + n + "/", out); else out.insert(pre + n);
    }
    closedir(d);
}
void wipe(const std::string &dir) {
    std::set<std::string> f; list(dir, "", f);
    for (auto &n : f) unlink((dir + "/" + n).c_str());
    DIR *d = opendir(dir.c_str()); if (d) { std::vector<std::string> sub; while (auto *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") sub.push_back(n); } closedir(d); for (auto &n : sub) rmdir((dir + "/" + n).c_str()); }
    rmdir(dir.c_str());
}
void build(Suite &s) {
    bool th = s.thorough;
    s.assumptions = {"paths contain no shell variables or '~' except in the part that checks them", "frames are within 32-bit range; which of its two neighbours a frame half-way between them uses is not judged, only that readers and writers agree"};
    s.fixture = [] { mkdir(root().c_str(), 0755); for (auto &n : names()) write_one(root() + "/" + n.first, n.second); };
    const int top = th ? 8 : 6;
    if (ocg_mc_expand) {
        for (int len = 0; len <= top; len++)
            s.add(sfmt("expand-length-%d", len), ipow(alphabet().size(), len), [=](uint64_t i) { check_expand(word(i, len)); }, [=](uint64_t i) { return "'" + word(i, len) + "' at every frame"; });
        // longer runs: prefix, run length, middle, second run, suffix
        static const std::vector<std::string> pre = {"", "/", "a", "/dir.d/sh-0", "\xc3\xa9"}, mid = {"", "x", ".", "0", "-"}, suf = {"", ".exr", "0", "/a#"};
        auto mk = [](uint64_t i) { Digits d(i); std::string r = d.pick(pre); r += std::string(d(41), '#'); r += d.pick(mid); r += std::string(d(4), '#'); return r + d.pick(suf); };
        s.add("expand-long-runs", pre.size() * 41 * mid.size() * 4 * suf.size(), [=](uint64_t i) { check_expand(mk(i)); }, [=](uint64_t i) { return "'" + mk(i) + "' at every frame"; });
    }
    // readers: the file read is the one named
    s.add("read", patterns().size() * fr().size() * 3, [](uint64_t i) {
        Digits d(i); auto &p = d.pick(patterns()); auto &f = d.pick(fr()); int how = int(d(3));
        G g; Node n = g.read(root() + "/" + p, how != 2); auto c = make_cache(how ? 1 << 20 : 0);
        for (int rep = 0; rep < 2; rep++) {
            REQUIRE(g.exec(n, c, f.v) == ExecuteStatus::kSuccess, "execution did not succeed");
            Snap got = snap(g.out(), false); int want = names().at(expand(p, f.n));
            REQUIRE(color_of(got) == want, "read the wrong file (image %d, expected %d)", color_of(got), want);
            state(fp(got));
        }
    }, [](uint64_t i) { Digits d(i); auto &p = d.pick(patterns()); auto &f = d.pick(fr()); return sfmt("reader of '%s' at frame %g, expected '%s'", p.c_str(), f.v, expand(p, f.n).c_str()); });
    // two patterns, a history of frames through one cache
    const int depth = th ? 4 : 3; const uint64_t NF = 6;
    s.add("read-history", patterns().size() * ipow(NF, depth), [=](uint64_t i) {
        Digits d(i); auto &p = d.pick(patterns()); auto q = seq(d.i, NF, depth);
        G g; Node n = g.read(root() + "/" + p); auto c = make_cache(1 << 20);
        for (int k : q) {
            auto &f = fr()[k * 2]; REQUIRE(g.exec(n, c, f.v) == ExecuteStatus::kSuccess, "execution did not succeed");
            Snap got = snap(g.out(), false); int want = names().at(expand(p, f.n));
            REQUIRE(color_of(got) == want, "frame %g read the wrong file (image %d, expected %d)", f.v, color_of(got), want);
        }
    }, [=](uint64_t i) { Digits d(i); auto &p = d.pick(patterns()); auto q = seq(d.i, NF, depth); std::string r = "reader of '" + p + "' at frames"; for (int k : q) r += sfmt(" %g", fr()[k * 2].v); return r; });
    // writers: the file written is the one named, and only that one
    auto wdir = [](uint64_t i) { return g_suite->dir + sfmt("/w%llu", (unsigned long long)i); };
    s.add("write", patterns().size() * fr().size(), [=](uint64_t i) {
        Digits d(i); auto &p = d.pick(patterns()); auto &f = d.pick(fr()); std::string dir = wdir(i), want = expand(p, f.n);
        mkdir(dir.c_str(), 0755); mkparent(dir + "/" + want);
        G g; Node n = g.read(root() + "/" + p), w = g.make(NodeType::kWriteImage); g.s(w, "file_path", dir + "/" + p); g.con(n, w);
        auto st = g.exec(w, f.v); std::set<std::string> got; list(dir, "", got);
        std::string all; for (auto &x : got) all += " '" + x + "'";
        ImgFile o; o.path = dir + "/" + want; bool ok = load_file(o); int k = ok ? int(std::lround(o.px[0])) : -1;
        wipe(dir);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        REQUIRE(got == std::set<std::string>{want}, "wrote%s, expected '%s'", all.c_str(), want.c_str());
        REQUIRE(ok && k == names().at(want), "the file holds image %d, expected %d", k, names().at(want));
    }, [](uint64_t i) { Digits d(i); auto &p = d.pick(patterns()); auto &f = d.pick(fr()); return sfmt("writer to '%s' at frame %g", p.c_str(), f.v); });
    // several frames in one execution
    static std::vector<std::vector<int>> lists; lists.clear();
    for (int len = 1; len <= (th ? 4 : 3); len++) for (uint64_t i = 0; i < ipow(5, len); i++) lists.push_back(seq(i, 5, len));
    s.add("write-list", patterns().size() * lists.size(), [=](uint64_t i) {
        Digits d(i); auto &p = d.pick(patterns()); auto &q = d.pick(lists); std::string dir = wdir(i + 1000000);
        mkdir(dir.c_str(), 0755); std::map<std::string, int> want; std::vector<double> fl;
        for (int k : q) { auto &f = fr()[k * 2]; fl.push_back(f.v); std::string n = expand(p, f.n); want[n] = names().at(n); mkparent(dir + "/" + n); }
        G g; Node n = g.read(root() + "/" + p), w = g.make(NodeType::kWriteImage); g.s(w, "file_path", dir + "/" + p); g.con(n, w);
        auto c = make_cache(1 << 20); auto st = g.g.execute(w, fl, c); transition();
        std::map<std::string, int> got; std::set<std::string> fs; list(dir, "", fs);
        for (auto &x : fs) { ImgFile o; o.path = dir + "/" + x; got[x] = load_file(o) ? int(std::lround(o.px[0])) : -1; }
        wipe(dir);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        std::string a, b; for (auto &x : got) a += sfmt(" '%s'=%d", x.first.c_str(), x.second); for (auto &x : want) b += sfmt(" '%s'=%d", x.first.c_str(), x.second);
        REQUIRE(got == want, "files and their images are%s, expected%s", a.c_str(), b.c_str());
    }, [=](uint64_t i) { Digits d(i); auto &p = d.pick(patterns()); auto &q = d.pick(lists); std::string r = "writer to '" + p + "' for frames"; for (int k : q) r += sfmt(" %g", fr()[k * 2].v); return r; });
    // environment variables
    struct E { const char *path, *want; };
    static const std::vector<E> env = {{"$OCG_MC_DIR/p.##.exr", "p.##.exr"}, {"${OCG_MC_DIR}/p.#.exr", "p.#.exr"}, {"$OCG_MC_PAT", "p.##.exr"}, {"~/p.##.exr", "p.##.exr"}, {"$OCG_MC_DIR/$OCG_MC_HASH.exr", "p.##.exr"}};
    s.add("environment", env.size() * fr().size(), [](uint64_t i) {
        Digits d(i); auto &e = d.pick(env); auto &f = d.pick(fr());
        setenv("OCG_MC_DIR", root().c_str(), 1); setenv("OCG_MC_PAT", (root() + "/p.##.exr").c_str(), 1); setenv("OCG_MC_HASH", "p.##", 1);
        const char *h = getenv("HOME"); std::string home = h ? h : ""; setenv("HOME", root().c_str(), 1);
        G g; Node n = g.read(e.path); auto st = g.exec(n, f.v); Snap got = snap(g.out(), false);
        if (h) setenv("HOME", home.c_str(), 1); else unsetenv("HOME");
        int want = names().at(expand(e.want, f.n));
        REQUIRE(st == ExecuteStatus::kSuccess && color_of(got) == want, "read the wrong file (image %d, expected %d)", color_of(got), want);
    }, [](uint64_t i) { Digits d(i); auto &e = d.pick(env); auto &f = d.pick(fr()); return sfmt("reader of '%s' at frame %g, expected '%s'", e.path, f.v, expand(e.want, f.n).c_str()); });
    s.add("environment-write", env.size() * fr().size(), [=](uint64_t i) {
        Digits d(i); auto &e = d.pick(env); auto &f = d.pick(fr()); std::string dir = wdir(i + 2000000), want = expand(e.want, f.n); mkdir(dir.c_str(), 0755);
        setenv("OCG_MC_DIR", dir.c_str(), 1); setenv("OCG_MC_PAT", (dir + "/p.##.exr").c_str(), 1); setenv("OCG_MC_HASH", "p.##", 1);
        const char *h = getenv("HOME"); std::string home = h ? h : ""; setenv("HOME", dir.c_str(), 1);
        G g; Node n = g.read(root() + "/" + e.want), w = g.make(NodeType::kWriteImage); g.s(w, "file_path", e.path); g.con(n, w); auto st = g.exec(w, f.v);
        if (h) setenv("HOME", home.c_str(), 1); else unsetenv("HOME");
        std::set<std::string> got; list(dir, "", got); std::string all; for (auto &x : got) all += " '" + x + "'";
        ImgFile o; o.path = dir + "/" + want; bool ok = load_file(o); int k = ok ? int(std::lround(o.px[0])) : -1; wipe(dir);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        REQUIRE(got == std::set<std::string>{want}, "wrote%s, expected '%s'", all.c_str(), want.c_str());
        REQUIRE(ok && k == names().at(want), "the file holds image %d, expected %d", k, names().at(want));
    }, [](uint64_t i) { Digits d(i); auto &e = d.pick(env); auto &f = d.pick(fr()); return sfmt("writer to '%s' at frame %g, expected '%s'", e.path, f.v, expand(e.want, f.n).c_str()); });
    // frames half-way between two numbers: either, but readers and writers agree
    s.add("half-way", 26 * 3, [=](uint64_t i) {
        Digits d(i); int k = int(d(26)) - 13; std::string pat = std::vector<std::string>{"h.#.exr", "h.####.exr", "h-##.exr"}[d(3)], dir = wdir(i + 3000000), in = dir + "/in", out = dir + "/out"; double f = k + 0.5;
        mkdir(dir.c_str(), 0755); mkdir(in.c_str(), 0755); mkdir(out.c_str(), 0755);
        for (int v = k - 1; v <= k + 2; v++) write_one(in + "/" + expand(pat, v), v + 100);
        G g; Node n = g.read(in + "/" + pat), w = g.make(NodeType::kWriteImage); g.s(w, "file_path", out + "/" + pat); g.con(n, w);
        auto st = g.exec(w, f); int read = color_of(snap(g.out(), false)) - 100; std::set<std::string> got; list(out, "", got); std::string all; for (auto &x : got) all += " '" + x + "'";
        wipe(in); wipe(out); wipe(dir);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        REQUIRE(read == k || read == k + 1, "the reader takes frame %d", read);
        REQUIRE(got == std::set<std::string>{expand(pat, read)}, "the reader takes frame %d, the writer writes%s", read, all.c_str());
    }, [](uint64_t i) { Digits d(i); return sfmt("frame %g read and written", int(d(26)) - 12.5); });
    // a '$' that no variable name follows stays
    static const std::vector<std::string> al = {"$", "\xc3\xa9", "\xe6\xbc\xa2", "#", "/", "."};
    auto word = [](uint64_t i) { std::string t; for (int k : seq(i, al.size(), 5)) t += al[k]; return t; };
    s.add("no-variable", ipow(al.size(), 5), [=](uint64_t i) {
        std::string p = "/x" + word(i); if (!ocg_mc_expand || p.find("$$") != std::string::npos) return;
        for (auto &f : fr()) { transition(); char out[1024]; size_t n = ocg_mc_expand(p.data(), p.size(), int32_t(f.n), out, sizeof out); REQUIRE(std::string(out, n) == expand(p, f.n), "frame %g: became '%s', expected '%s'", f.v, std::string(out, n).c_str(), expand(p, f.n).c_str()); state(fnv(out, n)); }
    }, [=](uint64_t i) { return "'/x" + word(i) + "'"; });
    static const std::vector<std::string> uv = {"/$OCG_MC_NONE.##.exr", "/${OCG_MC_NONE}.##.exr", "/~/$OCG_MC_NONE.##.exr", "/$OCG_MC_SOME/$OCG_MC_NONE.##.exr", "/$OCG_MC_NONE/$OCG_MC_SOME.##.exr", "~/$OCG_MC_NONE.##.exr", "~/${OCG_MC_NONE}/##.exr", "$OCG_MC_NONE/##.exr"};
    s.add("unknown-variable", fr().size() * uv.size(), [](uint64_t i) {
        Digits d(i); auto &f = d.pick(fr()); std::string u = d.pick(uv); unsetenv("OCG_MC_NONE"); setenv("OCG_MC_SOME", "some", 1); std::string p = (u[0] == '/' ? root() : "") + u, want = expand(p, f.n);
        if (ocg_mc_expand) { char out[1024]; size_t n = ocg_mc_expand(p.data(), p.size(), int32_t(f.n), out, sizeof out); REQUIRE(std::string(out, n) == want, "became '%s', expected '%s'", std::string(out, n).c_str(), want.c_str()); }
        G g; Node n = g.read(p); REQUIRE(g.exec(n, f.v) == ExecuteStatus::kSuccess, "execution did not succeed");
        REQUIRE(g.g.node_status(n) == NodeStatus::kWarning, "status %s", status_name(g.g.node_status(n)));
    }, [](uint64_t i) { Digits d(i); double f = d.pick(fr()).v; return sfmt("'%s', with an unknown variable, at frame %g", d.pick(uv).c_str(), f); });
}
Register r("C19", build);
}
