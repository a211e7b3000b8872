// Thin layer over the library's public C++ API: graphs, snapshots of result streams.
#pragma once
#include "core.h"
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <rust/cxx.h>
#include <opencompgraph.h>

namespace ocg = open_comp_graph;
using ocg::Node;
using ocg::NodeType;
using ocg::NodeStatus;
using ocg::ExecuteStatus;
using ocg::GraphState;
using ocg::DataType;

extern "C" {
void ocg_mc_cache_insert(void *c, uint64_t key, uint8_t tag, int32_t width) __attribute__((weak));
int64_t ocg_mc_cache_get(void *c, uint64_t key) __attribute__((weak));
bool ocg_mc_cache_evict(void *c) __attribute__((weak));
void ocg_mc_cache_evict_bytes(void *c, size_t n) __attribute__((weak));
void ocg_mc_cache_evict_all(void *c) __attribute__((weak));
size_t ocg_mc_expand(const char *s, size_t len, int32_t frame, char *out, size_t cap) __attribute__((weak));
int64_t ocg_mc_convert(const void *src, int32_t w, int32_t h, int32_t n, int32_t from, int32_t to, void *out, size_t cap) __attribute__((weak));
}
inline bool have_hook() { return ocg_mc_cache_insert && ocg_mc_cache_get && ocg_mc_cache_evict && ocg_mc_cache_evict_bytes && ocg_mc_cache_evict_all && ocg_mc_expand; }

typedef std::shared_ptr<ocg::Cache> CacheP;
inline CacheP make_cache(size_t bytes) {
    auto c = std::make_shared<ocg::Cache>();
    c->set_capacity_bytes(bytes);
    return c;
}

struct Win { int x0, y0, x1, y1;
    bool operator==(const Win &o) const { return x0 == o.x0 && y0 == o.y0 && x1 == o.x1 && y1 == o.y1; }
    bool operator!=(const Win &o) const { return !(*this == o); }
    int w() const { return x1 - x0; }
    int h() const { return y1 - y0; }
    bool has(int x, int y) const { return x >= x0 && x < x1 && y >= y0 && y < y1; }
    std::string str() const { return mc::sfmt("(%d,%d)-(%d,%d)", x0, y0, x1, y1); }
};
inline Win unite(Win a, Win b) { return {std::min(a.x0, b.x0), std::min(a.y0, b.y0), std::max(a.x1, b.x1), std::max(a.y1, b.y1)}; }

inline int dt_bytes(int dt) { return dt == 0 ? 4 : dt == 1 ? 2 : dt == 2 ? 1 : dt == 3 ? 2 : 0; }
inline const char *dt_name(int dt) { return dt == 0 ? "f32" : dt == 1 ? "f16" : dt == 2 ? "u8" : dt == 3 ? "u16" : "?"; }
float half_to_float(uint16_t h);
uint16_t float_to_half(float f);

// Everything a caller can observe about a result stream.
struct Snap {
    int state = 0; uint64_t hash = 0;
    Win disp{}, data{};
    std::string cs; float gamma = 0, aspect = 0; int orient = 0, unassoc = 0; float dither = 0;
    size_t ndef = 0, nops = 0; uint64_t opshash = 0;
    int w = 0, h = 0, nch = 0, dt = 0;
    std::vector<uint8_t> bytes;
    std::vector<float> matrix, defprobe, opprobe;
    std::vector<float> px() const;    // decoded values, w*h*nch
};
Snap snap(ocg::StreamData &s, bool probes = true);
inline Snap snap(ocg::StreamData &&s, bool probes = true) { return snap(s, probes); }
// First difference, "" if equal. Ignores the hashes unless asked.
std::string diff(const Snap &a, const Snap &b, bool with_hash = false);
uint64_t fp(const Snap &s);

// Apply a stream's pending deformers to positions (stride 3) / its colour ops to pixels.
std::vector<float> deform(ocg::StreamData &s, std::vector<float> pos, Win disp, Win data);
std::vector<float> color_ops(ocg::StreamData &s, std::vector<float> px, int nch);

inline const char *status_name(NodeStatus s) {
    switch (int(s)) { case 0: return "Error"; case 1: return "Valid"; case 2: return "Warning"; case 3: return "NonExistent"; case 255: return "Uninitialized"; }
    return "?";
}

// Graph with small conveniences.
struct G {
    ocg::Graph g;
    uint64_t next_id = 1000;
    Node make(NodeType t) { mc::transition(); return g.create_node(t, next_id++); }
    void f(const Node &n, const char *a, float v) { mc::transition(); g.set_node_attr_f32(n, a, v); }
    void i(const Node &n, const char *a, int v) { mc::transition(); g.set_node_attr_i32(n, a, v); }
    void s(const Node &n, const char *a, const std::string &v) { mc::transition(); g.set_node_attr_str(n, a, v); }
    void con(const Node &src, const Node &dst, int n = 0) { mc::transition(); g.connect(src, dst, uint8_t(n)); }
    Node read(const std::string &path, bool use_cache = true) {
        Node n = make(NodeType::kReadImage); s(n, "file_path", path); if (!use_cache) i(n, "use_cache", 0); return n;
    }
    ExecuteStatus exec(const Node &n, CacheP &c, double frame = 1) {
        mc::transition(); std::vector<double> fr{frame}; return g.execute(n, fr, c);
    }
    ExecuteStatus exec(const Node &n, double frame = 1) { CacheP c = make_cache(0); return exec(n, c, frame); }
    ocg::StreamData out() { return g.output_stream(); }
    Snap snap_of(const Node &n, double frame = 1) {
        auto st = exec(n, frame);
        REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed (%d)", int(st));
        return snap(out());
    }
};

// Write an image file with the image library directly (float values converted to `dt`).
struct ImgFile { std::string path; Win disp, data; int nch, dt; std::vector<float> px; };
void write_file(const ImgFile &f, const char *colorspace = nullptr);
// Read a file with the image library directly: the oracle for what a file holds.
bool load_file(ImgFile &f, std::string *colorspace = nullptr);
// Distinct, exactly representable test values: value of channel c at (x,y) for seed k, in 0..1.
float pat(int x, int y, int c, int k);
std::vector<float> pattern(Win data, int nch, int k);
