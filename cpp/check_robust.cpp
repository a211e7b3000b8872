// C26 no call aborts; every output stream is well formed; the library stays usable.
#include "recipe.h"
#include "attrs.h"
#include <unistd.h>
#include <climits>
#include <cmath>
#include <algorithm>
#include <unordered_map>
#include <sys/stat.h>
#include <opencompgraph/colorlutimage.h>
using namespace mc;
using namespace rec;
namespace {
// Values an attribute can take. Options keep to their documented values; image sizes stay within memory.
std::vector<Val> hostile(NodeType t, const attrs::A &a) {
    std::vector<Val> v; std::string n = a.name;
    auto ints = [&](std::initializer_list<int> l) { for (int x : l) v.push_back(I(x)); };
    auto range = [&](int lo, int hi) { for (int x = lo; x <= hi; x++) v.push_back(I(x)); };
    if (a.type == 'i') {
        if (n == "bake_option") range(0, 3);
        else if (n == "bake_pixel_data_type") { range(0, 3); ints({255}); }
        else if (n == "mode" || n == "crop_on_write") range(0, 2);
        else if (n == "direction") range(0, 1);
        else if (n == "pixel_data_type") { range(0, 3); ints({255}); }
        else if (n == "factor") { range(-40, 6); ints({INT_MIN, INT_MIN + 1, -65536, -256}); }
        else if (n.compare(0, 7, "window_") == 0) { range(-6, 8); ints({-4096, -256, -100, 64, 255, 256, 4096}); }
        else if (n == "exr_compression") range(0, 10);
        else if (n == "jpeg_subsampling") range(0, 4);
        else ints({INT_MIN, -65536, -256, -2, -1, 0, 1, 2, 3, 9, 10, 11, 45, 99, 100, 101, 255, 256, 65536, INT_MAX});
    } else if (a.type == 'f') {
        for (float x : {0.0f, -0.0f, 1.0f, -1.0f, 1e-45f, 1e-38f, 1e-6f, 0.5f, 2.0f, -7.5f, 90.0f, 360.0f, INFINITY, -INFINITY, NAN}) {
            if (t == NodeType::kLensDistort && std::isfinite(x) && std::fabs(x) > 8) continue;
            if (t == NodeType::kTransform && n.compare(0, 5, "scale") == 0 && std::isfinite(x) && std::fabs(x) > 8) continue;
            v.push_back(F(x));
        }
        if (t == NodeType::kGrade || t == NodeType::kMergeImage) for (float x : {1e4f, 1e9f, 1e20f, 3.4e38f, -3.4e38f}) v.push_back(F(x));
    } else for (const char *x : {"", " ", "/", ".", "..", "#", "%", "%d", "%4d", "%s", "%n", "%%", "####", "####################", "sRGB", "linear", "Rec709", "no such space", "a/b/c.exr", "x.unknownext", ".exr", "noext", "\xc3\xa9.png", "nowhere/%04d.png"}) v.push_back(S(x));
    return v;
}
// all words of 0..n letters, by number
uint64_t words_count(uint64_t n, unsigned len) { uint64_t t = 0; for (unsigned k = 0; k <= len; k++) t += ipow(n, k); return t; }
std::vector<int> words_seq(uint64_t i, uint64_t n) { unsigned l = 0; while (i >= ipow(n, l)) i -= ipow(n, l++); std::vector<int> v; for (unsigned k = 0; k < l; k++) { v.push_back(int(i % n)); i /= n; } return v; }
void enter() { std::string wd = g_suite->dir + "/robust" + std::to_string(getpid()); mkdir(wd.c_str(), 0755); REQUIRE(chdir(wd.c_str()) == 0, "scratch folder"); }
void well_formed(const Snap &s) {
    REQUIRE(s.w >= 0 && s.h >= 0 && s.nch >= 1 && s.nch <= 4, "size %d x %d x %d", s.w, s.h, s.nch);
    REQUIRE(s.dt >= 0 && s.dt <= 3, "pixel data type %d", s.dt);
    REQUIRE(s.bytes.size() == size_t(s.w) * s.h * s.nch * dt_bytes(s.dt), "%d x %d x %d pixels of type %s in %zu bytes", s.w, s.h, s.nch, dt_name(s.dt), s.bytes.size());
    REQUIRE(s.data.w() == s.w && s.data.h() == s.h, "data window %s of %d x %d pixels", s.data.str().c_str(), s.w, s.h);
    REQUIRE(s.disp.w() >= 0 && s.disp.h() >= 0, "display window %s", s.disp.str().c_str());
}
// A known good graph: reader, grade, transform, merge, viewer; evaluated before anything else in the process and after each case.
uint64_t healthy() {
    static std::unique_ptr<Built> b;
    Recipe r; int a = r.add(NodeType::kReadImage, {{"file_path", S(cat::files()[0].f.path)}}), g = r.add(NodeType::kGrade, {{"gain_g", F(0.5f)}}, {a}), t = r.add(NodeType::kTransform, {{"translate_x", F(1)}}, {g}),
        c = r.add(NodeType::kReadImage, {{"file_path", S(cat::files()[1].f.path)}}), m = r.add(NodeType::kMergeImage, {}, {t, c}), v = r.add(NodeType::kViewer, {{"bake_option", I(3)}}, {m});
    if (!b) { b.reset(new Built); b->build(r); }
    auto cache = make_cache(0); auto st = b->exec(v, cache, 1); REQUIRE(st == ExecuteStatus::kSuccess, "the reference graph fails to execute"); auto o = b->g.output_stream(); return fp(snap(o));
}
void still_healthy() { static uint64_t want = healthy(); REQUIRE(healthy() == want, "the reference graph evaluates to something else afterwards"); }
struct C { NodeType t; const char *tn; attrs::A a; Val v; };
struct P { C x, y; };
int put(Recipe &r, NodeType t, int in) {
    int n = -1;
    if (in) n = r.add(NodeType::kReadImage, {{"file_path", S(cat::files()[in == 2 ? 2 : 0].f.path)}});
    if (in == 3) { n = r.add(NodeType::kGrade, {{"gain_g", F(0.5f)}}, {n}); n = r.add(NodeType::kTransform, {{"translate_x", F(1)}}, {n}); }
    int m = t == NodeType::kMergeImage && in ? r.add(NodeType::kReadImage, {{"file_path", S(cat::files()[1].f.path)}}) : -1;
    std::vector<int> inp; if (n >= 0 && t != NodeType::kReadImage) inp.push_back(n); if (m >= 0) inp.push_back(m);
    int x = r.add(t, {}, inp); auto &at = r.n[x].attrs;
    if (t == NodeType::kCropImage) { at["window_max_x"] = I(3); at["window_max_y"] = I(3); at["black_outside"] = I(in % 2); }
    if (t == NodeType::kViewer) at["bake_option"] = I(3);
    if (t == NodeType::kLensDistort) at["distortion"] = F(0.125f);
    if (t == NodeType::kWriteImage) at["file_path"] = S(in % 2 ? "x.exr" : in ? "x.jpg" : "x.png");
    if (t == NodeType::kReadImage) at["file_path"] = S(cat::files()[in].f.path);
    return x;
}
int follow(Recipe &r, int x, int down) {
    if (down == 1) return r.add(NodeType::kViewer, {{"bake_option", I(3)}, {"bake_pixel_data_type", I(2)}}, {x});
    if (down == 2) return r.add(NodeType::kCropImage, {{"window_max_x", I(3)}, {"window_max_y", I(3)}}, {x});
    if (down == 3) { int y = r.add(NodeType::kReadImage, {{"file_path", S(cat::files()[1].f.path)}}); return r.add(NodeType::kMergeImage, {}, {y, x}); }
    if (down == 4) return r.add(NodeType::kResampleImage, {{"factor", I(-1)}, {"interpolate", I(1)}}, {x});
    return x;
}
void run(const Recipe &r, int x) {
    enter(); still_healthy();
    Built b; b.build(r); auto cache = make_cache(1 << 20);
    for (double f : {1.0, 1.0, 2.0}) {
        auto st = b.exec(x, cache, f); REQUIRE(st == ExecuteStatus::kSuccess || st == ExecuteStatus::kError, "execution status %d", int(st));
        auto o = b.g.output_stream(); Snap s = snap(o); well_formed(s); state(fp(s));
        auto img = ocg::get_color_ops_lut(o, 2, 3, cache); (void)img; transition();
    }
    (void)b.g.data_debug_string(); (void)cache->data_debug_string();
    still_healthy();
}
void build(Suite &s) {
    s.fixture = rec::write_files;
    s.assumptions = {"option values outside their documented range, numbers that ask for images beyond the memory of the machine and buffers of a length that is no whole number of elements are outside this property", "an abort inside the image library is outside this property"};
    static std::vector<C> cs; cs.clear();
    for (auto &t : attrs::types()) for (auto &a : t.attrs) for (auto &v : hostile(t.type, a)) cs.push_back({t.type, t.name, a, v});
    s.add("attributes", cs.size() * 4 * 5, [](uint64_t i) {
        Digits d(i); int in = int(d(4)), down = int(d(5)); auto &c = d.pick(cs);
        Recipe r; int x = put(r, c.t, in); r.n[x].attrs[c.a.name] = c.v; run(r, follow(r, x, down));
    }, [](uint64_t i) { Digits d(i); int in = int(d(4)), down = int(d(5)); auto &c = d.pick(cs); return sfmt("%s %s=%s, input %d, followed by %d", c.tn, c.a.name, c.v.str().c_str(), in, down); });
    // pairs of attributes of one node, reduced value sets, baked and not
    static std::vector<P> ps; ps.clear();
    for (auto &t : attrs::types()) {
        if (t.type == NodeType::kNull || t.type == NodeType::kReadImage) continue;
        auto few = [&](const attrs::A &a) {
            std::vector<Val> v; std::string n = a.name;
            if (a.type == 'f') { for (float x : {0.0f, -1.0f, 1e-38f, 2.0f, INFINITY, NAN}) v.push_back(F(x)); if (s.thorough) for (float x : {-0.0f, 1.0f, -INFINITY, 1e-45f, -7.5f}) v.push_back(F(x)); }
            else if (n.compare(0, 7, "window_") == 0) for (int x : {-5, -1, 0, 2, 9, 300}) v.push_back(I(x));
            else if (n == "factor") for (int x : {-40, -1, 0, 1, 4}) v.push_back(I(x));
            else if (a.type == 's' && n != "file_path") v = {S("sRGB"), S(""), S("no such space")};
            else if (a.type == 's') v = {S(""), S("noext"), S("y.exr"), S("y.png"), S("y.jpg"), S("y.tif"), S("y.hdr"), S("nowhere/y.png")};
            else { auto h = hostile(t.type, a); size_t step = std::max<size_t>(1, (h.size() + 5) / 6); for (size_t k = 0; k < h.size(); k += step) v.push_back(h[k]); v.push_back(h.back()); }
            return v;
        };
        for (size_t i = 0; i < t.attrs.size(); i++) for (size_t j = i + 1; j < t.attrs.size(); j++) {
            auto &a = t.attrs[i], &b = t.attrs[j];
            if (t.type == NodeType::kGrade && !s.thorough) { auto sfx = [](const char *n) { return n[strlen(n) - 1]; }; if (a.type == 'f' && b.type == 'f' && sfx(a.name) != 'g' && sfx(b.name) != 'g' && sfx(a.name) != sfx(b.name)) continue; }
            for (auto &x : few(a)) for (auto &y : few(b)) ps.push_back({{t.type, t.name, a, x}, {t.type, t.name, b, y}});
        }
    }
    s.add("attribute-pairs", ps.size() * 4, [](uint64_t i) {
        Digits d(i); bool baked = d(2), pend = d(2); auto &c = d.pick(ps); Recipe r; int x = put(r, c.x.t, pend ? 3 : 1);
        r.n[x].attrs[c.x.a.name] = c.x.v; r.n[x].attrs[c.y.a.name] = c.y.v; run(r, follow(r, x, baked));
    }, [](uint64_t i) { Digits d(i); bool baked = d(2), pend = d(2); auto &c = d.pick(ps); return sfmt("%s %s=%s %s=%s%s%s", c.x.tn, c.x.a.name, c.x.v.str().c_str(), c.y.a.name, c.y.v.str().c_str(), pend ? ", pending operations upstream" : "", baked ? ", baked" : ""); });
    // frames
    static const std::vector<double> fr = {0, -0.0, 0.5, -0.5, 1, 1.5, -1, 1e9, 2147483646.5, 2147483647, 2147483648.0, -2147483648.0, -2147483649.0, 1e18, -1e18, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, NAN};
    static const std::vector<const char *> pat = {"f.exr", "f.#.exr", "f.####.exr", "f.%d.exr", "f.%04d.exr", "f.%12d.exr", "#", "%d", "%"};
    s.add("frames", fr.size() * fr.size() * pat.size() * 2, [](uint64_t i) {
        Digits d(i); double a = d.pick(fr), b = d.pick(fr); std::string p = d.pick(pat); bool write = d(2);
        enter(); still_healthy(); Built g; Recipe r; int n = r.add(NodeType::kReadImage, {{"file_path", S(write ? cat::files()[0].f.path : p)}}), x = write ? r.add(NodeType::kWriteImage, {{"file_path", S(p)}}, {n}) : n;
        g.build(r); auto cache = make_cache(1 << 20); std::vector<double> l = {a, b};
        transition(); auto st = g.g.execute(g.h[x], l, cache); REQUIRE(st == ExecuteStatus::kSuccess || st == ExecuteStatus::kError, "execution status %d", int(st));
        auto o = g.g.output_stream(); Snap sn = snap(o); well_formed(sn); state(fp(sn)); still_healthy();
        if (system("rm -f -- ./*") != 0) fail("scratch folder");
    }, [](uint64_t i) { Digits d(i); double a = d.pick(fr), b = d.pick(fr); std::string p = d.pick(pat); return sfmt("%s '%s' at frames %g, %g", d(2) ? "writing" : "reading", p.c_str(), a, b); });
    // texts: every short text over characters of one to four bytes, frame padding, and what path expansion reacts to
    static const std::vector<std::string> al = {"#", "a", "\xc3\xa9", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "$", "{", "}", "~", "/", ".", "%", "-", " "};
    unsigned tl = s.thorough ? 4 : 3;
    auto text = [](uint64_t i) { std::string t; for (int k : words_seq(i, al.size())) t += al[k]; return t; };
    s.add("texts", words_count(al.size(), tl), [=](uint64_t i) {
        std::string t = text(i); enter(); mkdir("w", 0755);
        for (const char *ext : {"", ".exr"}) for (double f : {-3.0, 1234567.0}) {
            Built g; Recipe r; int n = r.add(NodeType::kReadImage, {{"file_path", S(t + ext)}}), m = r.add(NodeType::kNull, {}, {n}), x = r.add(NodeType::kWriteImage, {{"file_path", S("w/" + t + ext)}}, {m});
            g.build(r); auto cache = make_cache(1 << 20);
            for (int e : {m, x}) { transition(); auto st = g.exec(e, cache, f); REQUIRE(st == ExecuteStatus::kSuccess || (e == x && st == ExecuteStatus::kError), "execution status %d", int(st)); auto o = g.g.output_stream(); Snap sn = snap(o); well_formed(sn); state(fp(sn)); }
            REQUIRE(std::string(g.g.get_node_attr_str(g.h[n], "file_path")) == t + ext, "the text is not read back");
        }
        ocg::Graph g; Node a = g.create_node(NodeType::kGrade, t.c_str()); transition(4); REQUIRE(g.node_exists(a), "no node of that name");
        (void)g.node_attr_exists(a, t); g.set_node_attr_f32(a, t, 1); g.set_node_attr_i32(a, t, 1); g.set_node_attr_str(a, t, t); (void)g.get_node_attr_f32(a, t); (void)g.get_node_attr_i32(a, t); (void)std::string(g.get_node_attr_str(a, t));
        still_healthy();
        if (system("rm -rf -- ./*") != 0) fail("scratch folder");
    }, [=](uint64_t i) { return "'" + text(i) + "' as path, name and attribute"; });
    // sequences of calls, valid and not
    static const int NC = 34; unsigned depth = s.thorough ? 4 : 3;
    s.add("call-sequences", ipow(NC, depth), [=](uint64_t i) {
        enter(); still_healthy();
        ocg::Graph g; auto cache = make_cache(1 << 16);
        Node a = g.create_node(NodeType::kReadImage, uint64_t(1)), b = g.create_node(NodeType::kGrade, uint64_t(2)), m = g.create_node(NodeType::kMergeImage, uint64_t(3)), v = g.create_node(NodeType::kViewer, uint64_t(4));
        Node gone(NodeType::kGrade, 99), zero;
        g.set_node_attr_str(a, "file_path", cat::files()[0].f.path); g.set_node_attr_i32(v, "bake_option", 3); g.connect(a, b, 0); g.connect(b, m, 0); g.connect(a, m, 1); g.connect(m, v, 0);
        bool third = true;      // node 3 exists
        std::vector<double> one = {1}, none, many = {1, 2, -3, 1}; std::vector<int32_t> whole = {1, -5};
        for (int k : seq(i, NC, depth)) {
            note("call %d", k); transition(); ExecuteStatus st = ExecuteStatus::kSuccess;
            switch (k) {
            case 0: g.delete_node(gone); break;
            case 1: g.delete_node(uint64_t(0)); break;
            case 2: g.delete_node(b); break;
            case 3: g.delete_node(a); break;
            case 4: if (third) g.delete_node(m); third = false; break;
            case 5: if (!third) m = g.create_node(NodeType::kMergeImage, uint64_t(3)); third = true; break;
            case 6: g.connect(gone, v, 0); break;
            case 7: g.connect(a, gone, 0); break;
            case 8: g.connect(v, v, 0); break;
            case 9: g.connect(a, v, 255); break;
            case 10: g.connect(v, b, 0); break;
            case 11: g.connect(a, m, 7); break;
            case 12: g.disconnect_input(v, 0); break;
            case 13: g.disconnect_input(v, 255); break;
            case 14: g.disconnect_input(gone, 0); break;
            case 15: g.connect(m, v, 0); break;
            case 16: st = g.execute(v, one, cache); break;
            case 17: st = g.execute(gone, one, cache); break;
            case 18: st = g.execute(zero, none, cache); break;
            case 19: st = g.execute(m, many, cache); break;
            case 20: st = g.execute(b, whole, cache); break;
            case 21: g.set_node_attr_f32(gone, "mix", 1); g.set_node_attr_str(gone, "", ""); g.set_node_attr_i32(gone, "enable", 1); break;
            case 22: g.set_node_attr_f32(m, "mode", 1); g.set_node_attr_i32(m, "mix", 1); g.set_node_attr_str(m, "mode", "x"); break;
            case 23: g.set_node_attr_str(a, "file_path", ""); break;
            case 24: (void)g.get_node_attr_f32(gone, "mix"); (void)g.get_node_attr_i32(gone, "x"); (void)std::string(g.get_node_attr_str(gone, "file_path")); (void)std::string(g.get_node_attr_str(m, "mode")); break;
            case 25: cache->set_capacity_bytes(0); break;
            case 26: cache->set_capacity_bytes(SIZE_MAX); break;
            case 27: cache->set_capacity_bytes(300); break;
            case 28: { auto o = g.output_stream(); auto l = ocg::get_color_ops_lut(o, 2, 1, cache); (void)l; break; }
            case 29: (void)ocg::get_color_transform_3dlut("no", "such", 2, cache); break;
            case 30: g.create_node(NodeType::kCropImage); break;
            case 31: g.create_node(NodeType::kResampleImage, ""); break;
            case 32: (void)g.node_status(gone); (void)g.node_exists(gone); (void)g.node_attr_exists(gone, "x"); (void)g.node_attr_exists(v, ""); break;
            default: { auto o = g.output_stream(); std::vector<float> e; rust::Slice<float> sl(e.data(), 0); o.apply_deformers(sl, ocg::BBox2Df{0, 0, 0, 0}, ocg::BBox2Df{0, 0, 0, 0}); color_ops(o, {}, 4); }
            }
            REQUIRE(st == ExecuteStatus::kSuccess || st == ExecuteStatus::kError, "execution status %d", int(st));
            REQUIRE(cache->used_bytes() <= cache->capacity_bytes(), "cache over its capacity");
            auto o = g.output_stream(); Snap sn = snap(o); well_formed(sn); state(mix(fp(sn), int(g.state()) * 8 + int(g.execute_status())));
            REQUIRE(!g.data_debug_string().empty(), "no debug text");
        }
        still_healthy();
    }, [=](uint64_t i) { std::string t = "calls"; for (int k : seq(i, NC, depth)) t += sfmt(" %d", k); return t; });
}
Register r26("C26", build);

// ---------------------------------------------------------------- C27 names and identifiers
uint64_t id_of(const std::string &n) { transition(); return ocg::internal::generate_id_from_name(rust::Str(n.data(), n.size())); }
void distinct_names(const std::vector<std::string> &names) {
    std::unordered_map<uint64_t, const std::string *> m; m.reserve(names.size() * 2);
    for (auto &n : names) {
        uint64_t id = id_of(n); REQUIRE(id_of(n) == id, "the identifier of '%s' changes", n.c_str()); state(id);
        auto r = m.emplace(id, &n); REQUIRE(r.second || *r.first->second == n, "'%s' and '%s' have the same identifier", r.first->second->c_str(), n.c_str());
    }
}
void words(std::vector<std::string> &out, const std::string &alpha, int len) {
    uint64_t n = ipow(alpha.size(), len); for (uint64_t i = 0; i < n; i++) { std::string w; uint64_t q = i; for (int k = 0; k < len; k++) { w += alpha[q % alpha.size()]; q /= alpha.size(); } out.push_back(w); }
}
void build_names(Suite &s) {
    s.assumptions = {"names outside the enumerated ones are assumed to be told apart as well (identifiers have 64 bits)", "identifiers chosen by the library are random: a repetition among those created by the check has a probability below 1e-10"};
    static std::string printable; printable.clear(); for (int c = 32; c < 127; c++) printable += char(c);
    bool th = s.thorough;
    s.add("short-names", 1, [=](uint64_t) { std::vector<std::string> v; for (int l = 0; l <= (th ? 3 : 2); l++) words(v, printable, l); words(v, "abzABZ019_-. /", th ? 5 : 4); if (!th) words(v, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", 3); words(v, "aA0_", 8); words(v, "aB", 16); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); distinct_names(v); }, [](uint64_t) { return std::string("all pairs of short names"); });
    s.add("numbered-names", 1, [](uint64_t) { std::vector<std::string> v; for (const char *p : {"node", "Node", "node_", "read_image_", "a_rather_long_prefix_of_a_node_name_"}) for (int k = 0; k < 12000; k++) { v.push_back(p + std::to_string(k)); v.push_back(p + sfmt("%06d", k)); v.push_back(std::to_string(k) + p); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); distinct_names(v); }, [](uint64_t) { return std::string("all pairs of numbered names"); });
    s.add("long-names", 300, [](uint64_t i) {
        std::string base; for (uint64_t k = 0; k < i; k++) base += char('a' + k * 7 % 26); std::vector<std::string> v = {base};
        for (uint64_t k = 0; k < i; k++) { for (char c : {'A', '_', '0', ' '}) { std::string t = base; t[k] = c; v.push_back(t); } std::string t = base; t.erase(k, 1); v.push_back(t); t = base; t[k] = char(toupper(t[k])); v.push_back(t); for (uint64_t q = k + 1; q < std::min(i, k + 9); q++) { t = base; std::swap(t[k], t[q]); v.push_back(t); } }
        for (const char *x : {" ", "_", "0", "a", "\n", "\t", "\xc3\xa9"}) { v.push_back(base + x); v.push_back(x + base); }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); distinct_names(v);
    }, [](uint64_t i) { return sfmt("names of about %d characters that differ in one place", int(i)); });
    s.add("two-characters", 24 * (th ? 24 : 3), [=](uint64_t i) {
        Digits d(i); int len = 2 + int(d(24)), step = 1 + int(d(24)); std::vector<std::string> v; std::string base; for (int k = 0; k < len; k++) base += char('a' + k * 7 % 26);
        for (int k = 0; k + step < len; k++) for (char x : printable) for (char y : printable) { std::string t = base; t[k] = x; t[k + step] = y; v.push_back(t); }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); distinct_names(v);
    }, [](uint64_t i) { Digits d(i); int len = 2 + int(d(24)); return sfmt("names of %d characters that differ in two characters, %d apart", len, 1 + int(d(24))); });
    static const std::vector<std::string> nm = {"", " ", "a", "A", "a ", " a", "b", "node", "Node", "node1", "node2", "node_1", "node.1", "\xc3\xa9", "e\xcc\x81", "a very long name that goes on and on", "a very long name that goes on and on!"};
    s.add("named-nodes", nm.size() * nm.size() * 10, [](uint64_t i) {
        Digits d(i); const std::string &x = d.pick(nm), &y = d.pick(nm); NodeType t = attrs::types()[d(10)].type; if (x == y) return;
        ocg::Graph g; transition(4); Node a = g.create_node(t, x.c_str()), other(t, id_of(y));
        REQUIRE(a.get_id() == id_of(x), "node '%s' does not have the identifier of its name", x.c_str()); REQUIRE(a.get_node_type() == t, "node type"); REQUIRE(g.node_exists(a), "a named node does not exist");
        REQUIRE(!g.node_exists(other) && g.node_status(other) == NodeStatus::kNonExistent, "node '%s' exists although only '%s' was created", y.c_str(), x.c_str());
        Node b = g.create_node(NodeType::kGrade, y.c_str()); REQUIRE(g.node_exists(a) && g.node_exists(b) && a.get_id() != b.get_id(), "two names, one node");
        g.set_node_attr_f32(b, "mix", 0.25f); REQUIRE(g.get_node_attr_f32(b, "mix") == 0.25f, "attribute of the second node");
        if (t == NodeType::kGrade) REQUIRE(g.get_node_attr_f32(a, "mix") == 1.0f, "writing to '%s' changed '%s'", y.c_str(), x.c_str());
        REQUIRE(g.delete_node(b) && !g.node_exists(b) && g.node_exists(a), "deleting '%s'", y.c_str());
        state(mix(a.get_id(), b.get_id()));
    }, [](uint64_t i) { Digits d(i); auto &x = d.pick(nm), &y = d.pick(nm); return sfmt("%s '%s' and a Grade '%s'", attrs::types()[d(10)].name, x.c_str(), y.c_str()); });
    s.add("unnamed-nodes", 10, [](uint64_t i) {
        std::set<uint64_t> ids; std::vector<Node> ns; ocg::Graph g; NodeType t = attrs::types()[i].type;
        for (int k = 0; k < 3000; k++) { transition(); Node n = g.create_node(t); REQUIRE(ids.insert(n.get_id()).second, "identifier %llu was given twice", (unsigned long long)n.get_id()); REQUIRE(n.get_node_type() == t, "node type"); ns.push_back(n); }
        for (auto &n : ns) REQUIRE(g.node_exists(n) && g.node_status(n) == NodeStatus::kUninitialized, "node %llu does not exist", (unsigned long long)n.get_id());
        state(ids.size());
    }, [](uint64_t i) { return sfmt("3000 unnamed %s nodes", attrs::types()[i].name); });
    // no identifier is given twice among all unnamed nodes of many graphs
    s.add("unnamed-nodes-of-all-graphs", 1, [=](uint64_t) {
        std::vector<uint64_t> ids; const int graphs = th ? 20000 : 4000;
        for (int k = 0; k < graphs; k++) { ocg::Graph g; for (int j = 0; j < 100; j++) { transition(); ids.push_back(g.create_node(attrs::types()[j % 10].type).get_id()); } }
        std::sort(ids.begin(), ids.end()); auto d = std::adjacent_find(ids.begin(), ids.end());
        REQUIRE(d == ids.end(), "identifier %llu was given twice", (unsigned long long)*d); state(ids.size());
    }, [=](uint64_t) { return sfmt("100 unnamed nodes in each of %d graphs", th ? 20000 : 4000); });
}
Register r27("C27", build_names);
}
