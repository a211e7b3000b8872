// C23: configuration search path, clamping, byte budget, fallback.
#include "api.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

static long g_pages = 0, g_page_size = 0;
extern "C" long __real_sysconf(int name);
extern "C" long __wrap_sysconf(int name) {
    if (g_pages && name == _SC_PHYS_PAGES) return g_pages;
    if (g_page_size && (name == _SC_PAGE_SIZE || name == _SC_PAGESIZE)) return g_page_size;
    return __real_sysconf(name);
}
namespace {
struct Content { const char *name; std::string text; double percent; };  // percent as configured; default 0
std::string yaml(const std::string &p) { return "cache:\n  ram_capacity_percent: " + p + "\nthreading:\n  num_threads: 4\n"; }
const std::vector<Content> &contents() {
    static std::vector<Content> c;
    if (c.empty()) {
        for (const char *p : {"0.0", "0.5", "1", "1.0", "12.5", "25.0", "33.3", "50", "75.0", "99.9", "99.99", "100", "100.0"}) c.push_back({p, yaml(p), atof(p)});
        for (const char *p : {"-0.5", "-1", "-50.0", "-100.0", "-1e30", "-.inf"}) c.push_back({p, yaml(p), 0});
        for (const char *p : {"100.1", "101", "150.0", "1000", "1e30", ".inf"}) c.push_back({p, yaml(p), 100});
        c.push_back({"reordered with comments", "# config\nthreading:\n  num_threads: 0   # all\n\ncache: {ram_capacity_percent: 40.0}\n", 40});
        c.push_back({"extra sections", "other: [1, 2]\ncache:\n  ram_capacity_percent: 60.0\n  more: x\nthreading:\n  num_threads: -1\n", 60});
        c.push_back({"json", "{\"cache\": {\"ram_capacity_percent\": 20}, \"threading\": {\"num_threads\": 1}}", 20});
        c.push_back({"empty", "", 0});
        c.push_back({"only a comment", "# nothing\n", 0});
        c.push_back({"text instead of a number", yaml("lots"), 0});
        c.push_back({"null percent", yaml("~"), 0});
        c.push_back({"list", "- 1\n- 2\n", 0});
        c.push_back({"unclosed", "cache: {ram_capacity_percent: 50.0\nthreading: [", 0});
        c.push_back({"tabs", "cache:\n\tram_capacity_percent: 50.0\n", 0});
        c.push_back({"no cache section", "threading:\n  num_threads: 4\n", 0});
        c.push_back({"not UTF-8", std::string("cache:\n  ram_capacity_percent: 50.0\n# \xff\xfe\n"), 0});
        c.push_back({"binary", std::string("\0\1\2\3\x7f", 5), 0});
        c.push_back({"two documents", yaml("50.0") + "---\n" + yaml("10.0"), 0});
        c.push_back({"duplicate section", yaml("50.0") + "cache:\n  ram_capacity_percent: 10.0\n", 0});
    }
    return c;
}
struct Mem { long pages, size; };
const std::vector<Mem> mems = {{1, 4096}, {262144, 4096}, {1048575, 4096}, {8388608, 4096}, {16777216, 16384}, {268435456, 4096}};
void judge(ocg::Config &c, double percent, Mem m, const char *what) {
    transition(2);
    double share = std::max(0.0, std::min(1.0, percent / 100.0));
    float p = c.cache_ram_capacity_percent();
    REQUIRE(std::fabs(p - share) <= 1e-6, "%s: share of memory %.9g, expected %.9g", what, p, share);
    double want = share * double(m.pages) * double(m.size), got = double(c.cache_ram_capacity_bytes());
    REQUIRE(std::fabs(got - want) <= want * 1e-5 + 1, "%s: budget %.0f bytes of %ld x %ld, expected %.0f", what, got, m.pages, m.size, want);
    state(mix(mix(uint64_t(share * 1e6), m.pages), m.size));
}
// kinds of search path entries
enum { EMPTY, A30, B70, BROKEN, MISSING, NAME_IS_DIR, DANGLING, LINK_B, KINDS };
const char *kind_name[] = {"empty dir", "dir with 30%", "dir with 70%", "dir with malformed file", "missing dir", "dir where the name is a directory", "dir with dangling link", "dir with link to 70%"};

void build(Suite &s) {
    s.assumptions = {"the system memory size is what sysconf reports (replaced by a stand-in)", "the file name is matched in each directory of OPENCOMPGRAPH_CONFIG_PATH"};
    std::string dir = s.dir;
    s.fixture = [=]() {
        auto put = [](const std::string &p, const std::string &t) { std::ofstream f(p, std::ios::binary); f << t; };
        for (size_t i = 0; i < contents().size(); i++) { std::string d = dir + sfmt("/c%zu", i); mkdir(d.c_str(), 0755); put(d + "/conf.yaml", contents()[i].text); }
        for (int k = 0; k < KINDS; k++) for (const char *v : {"", " x"}) {
            if (k == MISSING) continue;
            std::string d = dir + sfmt("/k%d%s", k, v); mkdir(d.c_str(), 0755);
            for (const char *n : {"/conf.yaml", "/open_comp_graph.yaml"}) {
                if (k == A30) put(d + n, yaml("30.0"));
                if (k == B70) put(d + n, yaml("70.0"));
                if (k == BROKEN) put(d + n, "cache: {");
                if (k == NAME_IS_DIR) mkdir((d + n).c_str(), 0755);
                if (k == DANGLING) symlink((dir + "/nowhere").c_str(), (d + n).c_str());
                if (k == LINK_B) symlink((dir + sfmt("/k%d", B70) + n).c_str(), (d + n).c_str());
            }
            put(d + "/other.yaml", yaml("5.0"));
            put(d + "/conf.yaml.bak", yaml("6.0"));
        }
    };
    size_t nc = contents().size();
    s.add("contents", nc * mems.size(), [=](uint64_t i) {
        Digits d(i); size_t c = d(nc); Mem m = d.pick(mems);
        g_pages = m.pages; g_page_size = m.size;
        setenv("OPENCOMPGRAPH_CONFIG_PATH", (dir + sfmt("/c%zu", c)).c_str(), 1);
        note("file content: %s", contents()[c].name);
        ocg::Config conf("conf.yaml");
        judge(conf, contents()[c].percent, m, contents()[c].name);
        g_pages = g_page_size = 0;
    }, [=](uint64_t i) { Digits d(i); size_t c = d(nc); Mem m = d.pick(mems); return sfmt("config file content '%s', memory %ld pages of %ld", contents()[c].name, m.pages, m.size); });
    // every percentage in steps of 0.25
    s.add("percent-sweep", 600, [=](uint64_t i) {
        double p = -12.5 + 0.25 * double(i);
        std::string d = dir + sfmt("/sweep%d", int(getpid())); mkdir(d.c_str(), 0755);
        { std::ofstream f(d + "/conf.yaml"); f << yaml(sfmt("%.2f", p)); }
        Mem m = {4194304, 4096}; g_pages = m.pages; g_page_size = m.size;
        setenv("OPENCOMPGRAPH_CONFIG_PATH", d.c_str(), 1);
        ocg::Config conf("conf.yaml");
        judge(conf, p, m, sfmt("%.2f percent", p).c_str());
        g_pages = g_page_size = 0;
    }, [=](uint64_t i) { return sfmt("%.2f percent", -12.5 + 0.25 * double(i)); });
    unsigned len = s.thorough ? 5 : 4;
    for (unsigned n = 0; n <= len; n++) {
        uint64_t per = ipow(KINDS, n);
        s.add(sfmt("search-path-%u", n), per * 4, [=](uint64_t i) {
            auto q = seq(i / 4, KINDS, n); int v = i % 4;
            // v: 0 plain name, 1 default file name, 2 directories with a space and a trailing slash, 3 relative directories
            std::string path; double want = 0; bool found = false;
            for (unsigned k = 0; k < n; k++) {
                int e = q[k];
                if (k) path += ":";
                if (v == 3) path += e == MISSING ? std::string("no/such/dir") : sfmt("./k%d", e); else path += e == MISSING ? dir + "/no/such/dir" : dir + sfmt("/k%d%s", e, v == 2 ? " x/" : "");
                if (!found && (e == A30 || e == B70 || e == BROKEN || e == LINK_B)) { found = true; want = e == A30 ? 30 : e == BROKEN ? 0 : 70; }
            }
            if (v == 3 && chdir(dir.c_str())) fail("fixture");
            if (n == 0 && v != 2) unsetenv("OPENCOMPGRAPH_CONFIG_PATH"); else setenv("OPENCOMPGRAPH_CONFIG_PATH", path.c_str(), 1);
            Mem m = {2097152, 4096}; g_pages = m.pages; g_page_size = m.size;
            note("search path %s", path.c_str());
            if (v == 1) { ocg::Config c; judge(c, want, m, path.c_str()); }
            else { ocg::Config c("conf.yaml"); judge(c, want, m, path.c_str()); }
            if (v == 0) { ocg::Config c("no_such_file.yaml"); judge(c, 0, m, "missing file name"); }
            g_pages = g_page_size = 0;
        }, [=](uint64_t i) { std::string d = sfmt("variant %d, search path:", int(i % 4)); for (int e : seq(i / 4, KINDS, n)) d += sfmt(" [%s]", kind_name[e]); return d; });
    }
}
Register r("C23", build);
}
