// C28 metadata travels with the image: chains of every node over files of different pixel aspects.
#include "cat.h"
#include <OpenImageIO/imageio.h>
#include <unistd.h>
using namespace mc;
namespace {
typedef OIIO::TypeDesc TD;
struct Src { const char *file; float aspect; TD::BASETYPE t; Win disp, data; int orient; float gamma; };
const std::vector<Src> &srcs() {
    static const std::vector<Src> v = {{"m0.exr", 1, TD::FLOAT, {0, 0, 4, 4}, {0, 0, 4, 4}, 0, 1}, {"m1.exr", 2, TD::FLOAT, {0, 0, 4, 3}, {-1, 0, 6, 5}, 6, 1}, {"m2.exr", 0.5f, TD::HALF, {0, 0, 5, 3}, {1, 1, 3, 2}, 3, 1}, {"m3.exr", 1.25f, TD::HALF, {3, 2, 7, 6}, {3, 2, 7, 6}, 0, 1},
        {"m4.tga", 2, TD::UINT8, {0, 0, 4, 4}, {0, 0, 4, 4}, 0, 2}, {"m5.png", 4, TD::UINT16, {0, 0, 3, 5}, {0, 0, 3, 5}, 8, 1.5f}};
    return v;
}
std::string path(int i) { return g_suite->dir + "/" + srcs()[i].file; }
void write_all() {
    for (size_t i = 0; i < srcs().size(); i++) {
        auto &s = srcs()[i]; auto out = OIIO::ImageOutput::create(path(int(i))); OIIO::ImageSpec sp(s.data.w(), s.data.h(), 4, s.t);
        sp.x = s.data.x0; sp.y = s.data.y0; sp.full_x = s.disp.x0; sp.full_y = s.disp.y0; sp.full_width = s.disp.w(); sp.full_height = s.disp.h();
        sp.channelnames = {"R", "G", "B", "A"}; sp.alpha_channel = 3; sp.attribute("PixelAspectRatio", s.aspect);
        if (s.orient) sp.attribute("Orientation", s.orient);
        if (s.gamma != 1) { sp.attribute("oiio:Gamma", s.gamma); sp.attribute("oiio:ColorSpace", s.gamma == 2 ? "GammaCorrected2.0" : "GammaCorrected1.5"); }
        auto px = pattern(s.data, 4, int(i) + 1); if (!out->open(path(int(i)), sp) || !out->write_image(TD::FLOAT, px.data())) fail("fixture"); out->close();
    }
}
struct Step { const char *name; NodeType t; std::vector<std::pair<const char *, float>> a; int kind; };   // kind: 0 keeps the input's, 1 merge as foreground, 2 merge as background, 3 placeholder
const std::vector<Step> &steps() {
    static const std::vector<Step> v = {
        {"null", NodeType::kNull, {}, 0}, {"grade", NodeType::kGrade, {{"multiply_r", 0.5f}}, 0}, {"transform", NodeType::kTransform, {{"translate_x", 1.25f}, {"scale_y", 0.5f}}, 0}, {"lens", NodeType::kLensDistort, {{"distortion", 0.1f}}, 0},
        {"crop", NodeType::kCropImage, {{"window_max_x", 3}, {"window_max_y", 2}}, 0}, {"crop and reformat", NodeType::kCropImage, {{"window_max_x", 3}, {"window_max_y", 5}, {"reformat", 1}, {"black_outside", 1}}, 0}, {"disabled crop", NodeType::kCropImage, {{"enable", 0}}, 0},
        {"resample down", NodeType::kResampleImage, {{"factor", -1}}, 0}, {"resample up", NodeType::kResampleImage, {{"factor", 1}, {"interpolate", 1}}, 0},
        {"viewer", NodeType::kViewer, {}, 0}, {"viewer bakes colour space", NodeType::kViewer, {{"bake_option", 1}, {"bake_pixel_data_type", 2}}, 0}, {"viewer bakes grade", NodeType::kViewer, {{"bake_option", 2}}, 0}, {"viewer bakes all", NodeType::kViewer, {{"bake_option", 3}, {"bake_pixel_data_type", 0}}, 0}, {"viewer crops", NodeType::kViewer, {{"bake_option", 3}, {"crop_to_format", 1}}, 0},
        {"writer", NodeType::kWriteImage, {{"execute", 0}}, 0}, {"disabled grade", NodeType::kGrade, {{"enable", 0}}, 0}, {"disabled lens", NodeType::kLensDistort, {{"enable", 0}}, 0},
        {"merge over another", NodeType::kMergeImage, {}, 1}, {"merge under another", NodeType::kMergeImage, {{"mode", 2}}, 2}, {"add to another", NodeType::kMergeImage, {{"mode", 0}, {"mix", 0.5f}}, 1}, {"disabled merge", NodeType::kMergeImage, {{"enable", 0}}, 3}};
    return v;
}
bool is_int(const char *a) { static const std::set<std::string> f = {"multiply_r", "translate_x", "scale_y", "distortion", "mix"}; return !f.count(a); }
struct Meta { float aspect = 1, gamma = 1; int orient = 0, unassoc = 0; bool operator==(const Meta &o) const { return aspect == o.aspect && gamma == o.gamma && orient == o.orient && unassoc == o.unassoc; } std::string str() const { return sfmt("pixel aspect %g, gamma %g, orientation %d, unassociated alpha %d", aspect, gamma, orient, unassoc); } };
Meta of(const Snap &s) { Meta m; m.aspect = s.aspect; m.gamma = s.gamma; m.orient = s.orient; m.unassoc = s.unassoc; return m; }
// what the library's reader says about a file; the pixel aspect and gamma are also what the file holds
const Meta &read_meta(int src) {
    static std::map<int, Meta> memo; auto it = memo.find(src);
    if (it == memo.end()) { G g; Node n = g.read(path(src)); REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "execution did not succeed"); Meta m = of(snap(g.out(), false)); auto &s = srcs()[src];
        REQUIRE(m.aspect == s.aspect && std::fabs(m.gamma - s.gamma) < 1e-3f, "%s is read with %s, expected pixel aspect %g, gamma %g", s.file, m.str().c_str(), s.aspect, s.gamma); it = memo.emplace(src, m).first; }
    return it->second;
}
void run(int src, const std::vector<int> &q, int other, bool cached, bool srgb, bool write) {
    G g; CacheP c = make_cache(cached ? 1 << 20 : 0); Node n = g.read(path(src)); Meta want = read_meta(src); int from = src;
    for (int k : q) {
        auto &s = steps()[k]; Node m = g.make(s.t);
        for (auto &a : s.a) if (is_int(a.first)) g.i(m, a.first, int(a.second)); else g.f(m, a.first, a.second);
        if (s.t == NodeType::kViewer && srgb) g.s(m, "bake_color_space", "sRGB");
        if (s.kind == 0 || s.kind == 3) g.con(n, m); else { Node o = g.read(path(other)); g.con(n, m, s.kind == 1 ? 0 : 1); g.con(o, m, s.kind == 1 ? 1 : 0); }
        if (s.kind == 1) { want = read_meta(other); from = other; }
        if (s.kind == 3) { want = of(snap(ocg::StreamData(), false)); from = -1; }
        n = m;
    }
    for (int rep = 0; rep < (cached ? 3 : 1); rep++) {
        REQUIRE(g.exec(n, c) == ExecuteStatus::kSuccess, "execution did not succeed");
        Snap s = snap(g.out(), false);
        REQUIRE(of(s) == want, "%s%s; expected %s", rep ? "with a filled cache: " : "", of(s).str().c_str(), want.str().c_str());
        state(fp(s));
    }
    if (write) for (const char *ext : {"exr", "tga"}) {
        std::string p = g_suite->dir + sfmt("/meta%d.%s", int(getpid()), ext); Node w = g.make(NodeType::kWriteImage); g.s(w, "file_path", p); g.con(n, w);
        auto st = g.exec(w, c); float a = -1; int o = -1; { auto in = OIIO::ImageInput::open(p); if (in) { auto &sp = in->spec(); a = sp.get_float_attribute("PixelAspectRatio", 1.0f); o = sp.get_int_attribute("Orientation", 0); } } unlink(p.c_str());
        REQUIRE(st == ExecuteStatus::kSuccess && a == want.aspect, "the written %s file has pixel aspect %g, expected %g", ext, a, want.aspect);
        if (ext[0] == 'e' && from >= 0 && srcs()[from].orient) REQUIRE(o == srcs()[from].orient, "the written %s file has orientation %d, expected %d", ext, o, srcs()[from].orient);
    }
}
void build(Suite &s) {
    s.assumptions = {"metadata that the file formats here can carry: pixel aspect (EXR, TGA, PNG), gamma (TGA, PNG; not judged in written files, where the image library ties it to the colour space), orientation (EXR, PNG); alpha association at its default", "the meaning of the orientation values is not judged, only that they stay the same"};
    s.fixture = write_all;
    uint64_t n = steps().size();
    for (unsigned len = 0; len <= (s.thorough ? 4u : 3u); len++) {
        uint64_t per = ipow(n, len), ns = len > 3 ? 1 : srcs().size(), no = len > 3 ? 1 : 2;
        auto dec = [=](uint64_t i) { Digits d(i); int src = ns == 1 ? 1 : int(d(ns)), other = no == 1 ? 2 : d(2) ? 2 : 3; bool cached = d(2), srgb = d(2); return std::make_tuple(src, other, cached, srgb, len ? seq(d.i % per, n, len) : std::vector<int>{}); };
        s.add(sfmt("chains-of-%u", len), per * ns * no * 4, [=](uint64_t i) { int src, other; bool c, sr; std::vector<int> q; std::tie(src, other, c, sr, q) = dec(i); run(src, q, other, c, sr, len <= 2 && !sr); },
            [=](uint64_t i) { int src, other; bool c, sr; std::vector<int> q; std::tie(src, other, c, sr, q) = dec(i); std::string t = sfmt("file %s of pixel aspect %g", srcs()[src].file, srcs()[src].aspect); for (int k : q) t += std::string(", ") + steps()[k].name; return t + sfmt(" (other: %g)%s%s", srcs()[other].aspect, c ? ", cached" : "", sr ? ", sRGB" : ""); });
    }
}
Register r("C28", build);
}
