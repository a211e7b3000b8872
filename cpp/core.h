// Exhaustive enumeration runner: a check is a list of parts, a part is a finite indexed
// space of cases; every case is run on the real library in forked workers.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace mc {

struct Fail { std::string msg; std::string key; };   // key: identifies a finding that may be listed in known_findings.txt

struct Part {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;
    std::function<std::string(uint64_t)> describe;
};

struct Suite {
    std::string id;
    bool thorough = false;
    std::string dir;                 // scratch directory, removed at the end
    std::vector<Part> parts;
    std::vector<std::string> assumptions;
    std::function<void()> fixture;   // runs once in a child process before the workers
    void add(const std::string &name, uint64_t count, std::function<void(uint64_t)> run,
             std::function<std::string(uint64_t)> describe) {
        if (count) parts.push_back({name, count, run, describe});
    }
};

extern Suite *g_suite;

// counters (shared between workers)
void state(uint64_t fingerprint);
void transition(uint64_t n = 1);
void trace(uint64_t n = 1);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // breadcrumb, kept if the worker dies
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void fail_key(const std::string &key, const std::string &msg) __attribute__((noreturn));
std::string sfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }

#define REQUIRE(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

// Mixed-radix index decoding.
struct Digits {
    uint64_t i;
    explicit Digits(uint64_t x) : i(x) {}
    uint64_t operator()(uint64_t n) { uint64_t d = i % n; i /= n; return d; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[(*this)(v.size())]; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
// All sequences of length 0..depth over an alphabet of n symbols, as one index space:
// sequences of exactly `depth`; every shorter history is a prefix and is checked on the way.
inline std::vector<int> seq(uint64_t i, uint64_t n, unsigned depth) {
    std::vector<int> r(depth);
    for (unsigned k = 0; k < depth; k++) { r[depth - 1 - k] = int(i % n); i /= n; }
    return r;
}

typedef void (*Builder)(Suite &);
struct Register { Register(const char *id, Builder b); };
}
