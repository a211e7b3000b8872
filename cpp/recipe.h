// A recipe is a complete description of a graph: node types, attributes, connections.
// Scenes are base recipes with knobs (attributes and connections that take several values).
#pragma once
#include "cat.h"
namespace rec {
struct Val { char t; float f = 0; int i = 0; std::string s; bool operator==(const Val &o) const { return t == o.t && f == o.f && i == o.i && s == o.s; } std::string str() const; };
Val F(float f); Val I(int i); Val S(const std::string &s);
struct RNode { NodeType type; std::map<std::string, Val> attrs; std::map<int, int> in; };
struct Recipe {
    std::vector<RNode> n;
    int add(NodeType t, std::vector<std::pair<const char *, Val>> a = {}, std::vector<int> in = {});
    uint64_t fp() const;
};
struct Built {
    ocg::Graph g; std::vector<Node> h; Recipe r;
    // order: 0 as listed, 1 reversed, attributes and connections included
    void build(const Recipe &rc, uint64_t id_base = 100, int order = 0);
    void become(const Recipe &rc);           // edit attributes and connections until it is rc
    ExecuteStatus exec(int node, CacheP &c, double frame);
};
struct Knob { int node; std::string attr; std::vector<Val> vals; int slot = -1; std::vector<int> srcs; };   // attr, or input slot: source (-1 none)
struct Scene { std::string name; Recipe base; std::vector<Knob> knobs; std::vector<int> targets; std::vector<double> frames; };
struct Config { std::vector<std::pair<int, int>> set; };      // knob -> value
Recipe make(const Scene &s, const Config &c);
std::string str(const Scene &s, const Config &c);
const std::vector<Scene> &scenes();
std::vector<Config> singles(const Scene &s, int max_vals = 1000);   // base and every single change
std::vector<Config> doubles(const Scene &s, int max_vals = 1000);   // every pair of changes
void write_files();                        // catalogue and image sequence
std::string seq_path(), signed_path();
void upstream(const Recipe &r, int n, std::set<int> &out);
// Result of a recipe in a new graph with a cache of no capacity.
struct Result { ExecuteStatus st; Snap snap; std::map<int, int> status; };
std::vector<std::string> alike();      // paths (some with frame padding) of files whose names look alike
Result fresh(const Recipe &r, int node, double frame);
const Result &fresh_memo(const Recipe &r, int node, double frame);
Result result_of(Built &b, int node, ExecuteStatus st);
std::string compare(const Result &got, const Result &want, bool with_hash = false);
}
