#include "core.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <OpenImageIO/imageio.h>

namespace mc {
Suite *g_suite = nullptr;

static const size_t kTable = size_t(1) << 23;
static const int kViolRoom = 4000, kMaxWorkers = 16;
static int kMaxViol = getenv("OCG_MC_ALL") ? kViolRoom : 25;      // OCG_MC_ALL: report every violation (for the author)

struct Viol { uint64_t part, index; char msg[1500]; };
struct Shared {
    std::atomic<uint64_t> next, done, states, transitions, traces, cases_done;
    std::atomic<int> nviol, stop;
    std::atomic<uint64_t> known[64];
    Viol viol[kViolRoom];
    struct Slot { std::atomic<int> active; uint64_t part, index; char note[600]; } slot[kMaxWorkers];
};
static Shared *S;
static std::atomic<uint64_t> *table;
static int my_slot = -1;

uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
std::string sfmt(const char *f, ...) {
    char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
void note(const char *f, ...) {
    if (my_slot < 0) return;
    va_list a; va_start(a, f); vsnprintf(S->slot[my_slot].note, sizeof S->slot[0].note, f, a); va_end(a);
}
void fail(const char *f, ...) {
    char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    throw Fail{b, ""};
}
void fail_key(const std::string &key, const std::string &msg) { throw Fail{msg, key}; }
// "known: property=<id> key=<key> <what fails>" lines of the known-findings file.
static std::vector<std::pair<std::string, std::string>> g_known;
static void load_known(const std::string &path, const std::string &id) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return;
    char b[2000];
    while (fgets(b, sizeof b, f)) {
        std::string l(b), pre = "known: property=" + id + " key="; while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        if (l.compare(0, pre.size(), pre)) continue;
        size_t sp = l.find(' ', pre.size()); if (sp == std::string::npos) sp = l.size();
        g_known.push_back({l.substr(pre.size(), sp - pre.size()), sp < l.size() ? l.substr(sp + 1) : ""});
    }
    fclose(f);
}
static const int kMaxKnown = 64;
void state(uint64_t fp) {
    if (!fp) fp = 1;
    uint64_t h = fp * 0x9E3779B97F4A7C15ull;
    size_t i = h >> (64 - 23);
    for (int k = 0; k < 64; k++, i = (i + 1) & (kTable - 1)) {
        uint64_t cur = table[i].load(std::memory_order_relaxed);
        if (cur == fp) return;
        if (cur == 0) {
            if (table[i].compare_exchange_strong(cur, fp)) { S->states++; return; }
            if (cur == fp) return;
        }
    }
}
void transition(uint64_t n) { S->transitions += n; }
void trace(uint64_t n) { S->traces += n; }

static std::map<std::string, Builder> &builders() { static std::map<std::string, Builder> b; return b; }
Register::Register(const char *id, Builder b) { builders()[id] = b; }

static void *shm(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
    return p;
}
static void add_viol(uint64_t part, uint64_t index, const std::string &msg) {
    int k = S->nviol++;
    if (k >= kMaxViol) { S->stop = 1; return; }
    S->viol[k].part = part; S->viol[k].index = index;
    snprintf(S->viol[k].msg, sizeof S->viol[k].msg, "%s", msg.c_str());
    if (k + 1 >= kMaxViol) S->stop = 1;
}
static void case_timer(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void run_case(Suite &s, uint64_t p, uint64_t i) {
    S->slot[my_slot].part = p; S->slot[my_slot].index = i; S->slot[my_slot].note[0] = 0;
    S->slot[my_slot].active = 1;
    case_timer(s.thorough ? 240 : 90);
    try { s.parts[p].run(i); S->cases_done++; }
    catch (Fail &f) {
        int hit = -1;
        if (!f.key.empty()) for (size_t k = 0; k < g_known.size() && k < size_t(kMaxKnown); k++) if (g_known[k].first == f.key) hit = int(k);
        if (hit >= 0) S->known[hit]++; else add_viol(p, i, f.msg);
        S->cases_done++;
    }
    case_timer(0);
    S->slot[my_slot].active = 0;
}
static std::string errfile(Suite &s, int w) { return s.dir + sfmt("/stderr.%d", w); }
static void worker_setup(Suite &s, int w) {
    my_slot = w;
    struct rlimit rl = {rlim_t(3400) << 20, rlim_t(3400) << 20};
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n);
    int e = open(errfile(s, w).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(e, 2); close(e);
    OIIO::attribute("exr_threads", -1);
}
static std::vector<uint64_t> g_start;
static uint64_t g_total;
static void worker(Suite &s, int w) {
    worker_setup(s, w);
    uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, g_total / 2000));
    unsigned n = 0;
    while (!S->stop) {
        uint64_t b = S->next.fetch_add(chunk);
        if (b >= g_total) break;
        for (uint64_t k = b; k < std::min(b + chunk, g_total) && !S->stop; k++) {
            size_t p = std::upper_bound(g_start.begin(), g_start.end(), k) - g_start.begin() - 1;
            run_case(s, p, k - g_start[p]);
            if (++n % 256 == 0) {
                struct stat st;
                if (fstat(2, &st) == 0 && st.st_size > (1 << 20)) ftruncate(2, 0);
            }
        }
    }
}
static std::string tail(const std::string &path) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return "";
    fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, std::max(0L, n - 260), SEEK_SET);
    char b[701]; size_t r = fread(b, 1, 700, f); b[r] = 0; fclose(f);
    std::string t(b); for (auto &c : t) if (c == '\n') c = ' ';
    return t;
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += sfmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}
static std::string safe_describe(Part &p, uint64_t i) {
    try { return p.describe ? p.describe(i) : sfmt("case %llu", (unsigned long long)i); }
    catch (Fail &f) { return "?"; }
}
static int run_child(std::function<void()> f, std::string errf) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(e, 2);
        OIIO::attribute("threads", 1);
        try { f(); } catch (Fail &x) { fprintf(stderr, "%s\n", x.msg.c_str()); _exit(9); }
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    return st;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void rm_rf(const std::string &d) {
    if (d.compare(0, 11, "/tmp/ocgmc.") != 0) return;
    pid_t pid = fork();
    if (pid == 0) { execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)0); _exit(1); }
    int st; waitpid(pid, &st, 0);
}

int main_(int argc, char **argv) {
    double t0 = now();
    std::string id, tier = "quick", out, replay, known; int seed = 1, nw = 8; std::string only;
    bool hook = true;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val();
        else if (a == "--seed") seed = atoi(val().c_str());
        else if (a == "--evidence") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--workers") nw = atoi(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--known") known = val();
        else if (a == "--no-hook") hook = false;
        else if (a == "--list") { for (auto &b : builders()) printf("%s\n", b.first.c_str()); return 0; }
        else id = a;
    }
    if (!builders().count(id)) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 2; }
    signal(SIGPIPE, SIG_IGN);
    if (!known.empty()) load_known(known, id);
    umask(022);
    S = (Shared *)shm(sizeof(Shared)); new (S) Shared();
    memset((void *)S, 0, sizeof *S);
    table = (std::atomic<uint64_t> *)shm(kTable * sizeof(uint64_t));
    char tmpl[] = "/tmp/ocgmc.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    Suite s; g_suite = &s;
    s.id = id; s.thorough = tier == "thorough"; s.dir = tmpl;
    builders()[id](s);
    if (!only.empty()) {
        std::vector<Part> keep;
        for (auto &p : s.parts) if (p.name == only) keep.push_back(p);
        s.parts = keep;
    }
    int rc = 0;
    std::string fixture_err;
    if (s.fixture) {
        int st = run_child(s.fixture, s.dir + "/stderr.fix");
        if (st != 0) { fprintf(stderr, "fixture failed (%d): %s\n", st, tail(s.dir + "/stderr.fix").c_str()); rm_rf(s.dir); return 2; }
    }
    if (!replay.empty()) {
        size_t c = replay.rfind(':');
        std::string pn = replay.substr(0, c); uint64_t ix = strtoull(replay.substr(c + 1).c_str(), 0, 10);
        for (size_t p = 0; p < s.parts.size(); p++) if (s.parts[p].name == pn && ix < s.parts[p].count) {
            printf("case: %s\n", safe_describe(s.parts[p], ix).c_str()); fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                my_slot = 0; OIIO::attribute("threads", 1);
                alarm(300);
                try { s.parts[p].run(ix); } catch (Fail &f) { printf("FAILED: %s\n", f.msg.c_str()); fflush(stdout); _exit(1); }
                printf("held\n"); fflush(stdout); _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            if (WIFSIGNALED(st)) printf("died by signal %d; last step: %s\n", WTERMSIG(st), S->slot[0].note);
            rm_rf(s.dir);
            return st == 0 ? 0 : 1;
        }
        fprintf(stderr, "no such case\n"); rm_rf(s.dir); return 2;
    }
    g_start.clear(); g_total = 0;
    for (auto &p : s.parts) { g_start.push_back(g_total); g_total += p.count; }
    std::map<pid_t, int> kids;
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { worker(s, w); fflush(nullptr); _exit(0); }
        kids[pid] = w;
    };
    if (nw > kMaxWorkers) nw = kMaxWorkers;
    for (int w = 0; w < nw; w++) spawn(w);
    bool sick = false;
    while (!kids.empty()) {
        int st; pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        auto it = kids.find(pid); if (it == kids.end()) continue;
        int w = it->second; kids.erase(it);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        auto &sl = S->slot[w];
        if (sl.active) {
            std::string how = WIFSIGNALED(st)
                ? (WTERMSIG(st) == SIGPROF ? std::string("did not finish within the time limit (hang)") : sfmt("aborted the process (signal %d)", WTERMSIG(st)))
                : sfmt("exited the process (%d)", WEXITSTATUS(st));
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { sick = true; continue; }
            add_viol(sl.part, sl.index, how + "; last step: " + sl.note + "; stderr: " + tail(errfile(s, w)));
            sl.active = 0;
            if (!S->stop) spawn(w);
        } else { sick = true; fprintf(stderr, "worker %d ended outside a case (status %d): %s\n", w, st, tail(errfile(s, w)).c_str()); }
    }
    int nv = std::min<int>(S->nviol, kMaxViol);
    if (sick && nv == 0) { rm_rf(s.dir); fprintf(stderr, "workers failed\n"); return 2; }
    // replay files and verdict
    std::string evdir = out.empty() ? "." : out.substr(0, out.rfind('/'));
    for (int k = 0; k < nv; k++) {
        Viol &v = S->viol[k]; Part &p = s.parts[v.part];
        std::string path = sfmt("%s/%s-replay-%d.txt", evdir.c_str(), id.c_str(), k);
        FILE *f = fopen(path.c_str(), "w");
        if (f) {
            fprintf(f, "property %s\npart %s case %llu\n%s\n\n%s\n\nreplay: tools/check.py %s --tier %s --replay '%s:%llu'\n", id.c_str(), p.name.c_str(),
                    (unsigned long long)v.index, safe_describe(p, v.index).c_str(), v.msg, id.c_str(), tier.c_str(), p.name.c_str(), (unsigned long long)v.index);
            fclose(f);
        }
        if (k < 5 || kMaxViol > 25) printf("  %s:%llu  %s\n    %s\n", p.name.c_str(), (unsigned long long)v.index, safe_describe(p, v.index).c_str(), v.msg);
        if (k == 0) printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
        rc = 1;
    }
    for (size_t k = 0; k < g_known.size() && k < size_t(kMaxKnown); k++)
        if (S->known[k]) printf("KNOWN-FINDING: property=%s %s (%llu cases)\n", id.c_str(), g_known[k].second.c_str(), (unsigned long long)S->known[k]);
    double wall = now() - t0;
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); rm_rf(s.dir); return 2; }
        fprintf(f, "{\"property\": %s, \"tier\": %s, \"seed\": %d, \"level\": \"model_checking\",\n \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu,\n",
                jstr(id).c_str(), jstr(tier).c_str(), seed, (unsigned long long)S->states, (unsigned long long)S->transitions, (unsigned long long)(S->cases_done - S->nviol));
        fprintf(f, "  \"cases_enumerated\": %llu, \"cases_run\": %llu, \"hook\": %s, \"exhaustive\": %s,\n  \"parts\": [", (unsigned long long)g_total, (unsigned long long)S->cases_done,
                hook ? "true" : "false", (S->cases_done == g_total) ? "true" : "false");
        for (size_t p = 0; p < s.parts.size(); p++) fprintf(f, "%s{\"name\": %s, \"cases\": %llu}", p ? ", " : "", jstr(s.parts[p].name).c_str(), (unsigned long long)s.parts[p].count);
        fprintf(f, "],\n  \"samples\": [");
        bool first = true;
        for (auto &p : s.parts) for (uint64_t i : {p.count / 3, p.count - 1}) {
            fprintf(f, "%s\n   %s", first ? "" : ",", jstr(p.name + ": " + safe_describe(p, i)).c_str()); first = false;
        }
        fprintf(f, "]},\n \"assumptions\": [");
        for (size_t i = 0; i < s.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(s.assumptions[i]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", wall, (int)S->nviol);
        fclose(f);
    }
    printf("%s %s: %llu cases (%llu run), %llu states, %llu transitions, %d violations, %.1f s\n", id.c_str(), tier.c_str(), (unsigned long long)g_total,
           (unsigned long long)S->cases_done, (unsigned long long)S->states, (unsigned long long)S->transitions, (int)S->nviol, wall);
    rm_rf(s.dir);
    if (rc == 0 && S->cases_done != g_total) { fprintf(stderr, "not all cases were run\n"); return 2; }
    return rc;
}
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
