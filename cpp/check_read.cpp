// C17 reading image files.
#include "cat.h"
#include <OpenImageIO/imageio.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
typedef OIIO::TypeDesc TD;
namespace {
struct FT { const char *ext; TD::BASETYPE t; };
const std::vector<FT> &types() {
    static std::vector<FT> v = {{"exr", TD::HALF}, {"exr", TD::FLOAT}, {"exr", TD::UINT32}, {"tif", TD::UINT8}, {"tif", TD::UINT16}, {"tif", TD::HALF}, {"tif", TD::FLOAT}, {"tif", TD::DOUBLE}, {"tif", TD::INT8}, {"tif", TD::INT16}, {"tif", TD::UINT32},
        {"png", TD::UINT8}, {"png", TD::UINT16}, {"dpx", TD::UINT8}, {"dpx", TD::UINT16}, {"dpx", TD::FLOAT}, {"bmp", TD::UINT8}, {"tga", TD::UINT8}, {"hdr", TD::FLOAT}, {"sgi", TD::UINT8}, {"sgi", TD::UINT16}, {"ppm", TD::UINT8}, {"ppm", TD::UINT16}, {"jpg", TD::UINT8}, {"rla", TD::UINT8}, {"rla", TD::UINT16}, {"rla", TD::FLOAT}, {"iff", TD::UINT8}};
    return v;
}
// A file to generate; raw native values.
struct File {
    FT ft{}; int nch = 3; Win disp{}, data{}; int tile = 0; int special = 0; std::string comp; int meta = 0; float aspect = 0;
    std::string str() const { return sfmt("%s %s, %d channels, data %s display %s%s%s%s%s", ft.ext, TD(ft.t).c_str(), nch, data.str().c_str(), disp.str().c_str(), tile ? ", tiled" : "", comp.empty() ? "" : (", " + comp).c_str(), special ? ", special values" : "", meta ? sfmt(", metadata %d", meta).c_str() : ""); }
};
void put(std::vector<uint8_t> &b, const void *p, size_t n) { b.insert(b.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
std::vector<uint8_t> raw(const File &f) {
    std::vector<uint8_t> b;
    static const uint16_t sh[] = {0, 0x8000, 1, 0x83ff, 0x0400, 0x3c00, 0xbc00, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x3555, 0x7e00};
    static const float sf[] = {0.0f, -0.0f, 1e-40f, 1.0f, -1.0f, 3.4e38f, -3.4e38f, INFINITY, -INFINITY, 0.1f, 16777217.0f, 65519.0f, NAN};
    int k = 0;
    for (int y = f.data.y0; y < f.data.y1; y++) for (int x = f.data.x0; x < f.data.x1; x++) for (int c = 0; c < f.nch; c++, k++) {
        float v = pat(x, y, c, 21); unsigned h = unsigned(pat(x, y, c, 22) * 65536) * 40503u + k * 977u;
        switch (f.ft.t) {
        case TD::UINT8: { uint8_t q = f.special ? uint8_t(k * 7) : uint8_t(h >> 8); put(b, &q, 1); break; }
        case TD::INT8: { int8_t q = int8_t(h >> 8); put(b, &q, 1); break; }
        case TD::UINT16: { uint16_t q = f.special ? (k % 3 == 0 ? 0 : k % 3 == 1 ? 65535 : uint16_t(k * 257)) : uint16_t(h); put(b, &q, 2); break; }
        case TD::INT16: { int16_t q = int16_t(h); put(b, &q, 2); break; }
        case TD::UINT32: { uint32_t q = h * 2654435761u; put(b, &q, 4); break; }
        case TD::HALF: { uint16_t q = f.special ? sh[k % 13] : float_to_half(v * 3 - 0.5f); put(b, &q, 2); break; }
        case TD::DOUBLE: { double q = v * 3 - 0.5; put(b, &q, 8); break; }
        default: { float q = f.special ? sf[k % 13] : v * 3 - (f.ft.ext[0] == 'h' ? 0 : 0.5f); put(b, &q, 4); }
        }
    }
    return b;
}
bool write_raw(const File &f, const std::string &path) {
    auto out = OIIO::ImageOutput::create(path); if (!out) return false;
    OIIO::ImageSpec sp(f.data.w(), f.data.h(), f.nch, TD(f.ft.t));
    sp.x = f.data.x0; sp.y = f.data.y0; sp.full_x = f.disp.x0; sp.full_y = f.disp.y0; sp.full_width = f.disp.w(); sp.full_height = f.disp.h();
    if (f.tile) { sp.tile_width = sp.tile_height = f.tile; sp.tile_depth = 1; }
    if (!f.comp.empty()) sp.attribute("compression", f.comp);
    if (f.meta & 1) sp.attribute("PixelAspectRatio", 2.0f);
    if (f.aspect) sp.attribute("PixelAspectRatio", f.aspect);
    if (f.meta & 2) sp.attribute("oiio:ColorSpace", "sRGB");
    if (f.meta & 4) sp.attribute("oiio:Gamma", 2.5f);
    if (f.meta & 8) sp.attribute("oiio:UnassociatedAlpha", 1);
    if (f.meta & 16) sp.attribute("Compression", "none");
    if (!out->open(path, sp)) { out->geterror(); return false; }
    auto r = raw(f); bool ok = out->write_image(TD(f.ft.t), r.data()); ok = out->close() && ok;
    if (!ok) out->geterror();
    return ok;
}
// What the image library itself finds in the file.
struct Truth { bool ok = false; Win disp, data; int nch = 0, dt = 0, keep = 0; std::vector<uint8_t> bytes; std::string cs; float gamma, aspect; int unassoc; };
int dt_of(TD t) { return t == TD::FLOAT ? 0 : t == TD::HALF ? 1 : t == TD::UINT8 ? 2 : t == TD::UINT16 ? 3 : 255; }
Truth truth(const std::string &path) {
    Truth t; auto in = OIIO::ImageInput::open(path); if (!in) { OIIO::geterror(); return t; }
    OIIO::ImageSpec sp = in->spec();
    t.data = {sp.x, sp.y, sp.x + sp.width, sp.y + sp.height}; t.disp = {sp.full_x, sp.full_y, sp.full_x + sp.full_width, sp.full_y + sp.full_height};
    t.nch = sp.nchannels; t.keep = std::min(4, sp.nchannels); t.dt = dt_of(sp.format); TD rd = sp.format; if (t.dt == 255) { t.dt = 0; rd = TD::FLOAT; }
    t.cs = sp.get_string_attribute("oiio:ColorSpace", ""); t.gamma = sp.get_float_attribute("oiio:Gamma", 1.0f); t.aspect = sp.get_float_attribute("PixelAspectRatio", 1.0f); t.unassoc = sp.get_int_attribute("oiio:UnassociatedAlpha", 0) != 0;
    if (size_t(sp.width) * sp.height > (64u << 20)) { t.ok = false; t.keep = -1; return t; }
    t.bytes.assign(size_t(sp.width) * sp.height * t.keep * dt_bytes(t.dt), 0);
    t.ok = in->read_image(0, 0, 0, t.keep, rd, t.bytes.data());
    if (!t.ok) in->geterror();
    in->close();
    return t;
}
void check_placeholder(G &g, Node n, const Snap &s, CacheP &c, const char *why) {
    static Snap def = [] { G e; Node d = e.read("/nonexistent/x.exr"); e.exec(d); return snap(e.out()); }();
    REQUIRE(g.g.node_status(n) == NodeStatus::kWarning, "%s: status %s, expected Warning", why, status_name(g.g.node_status(n)));
    std::string e = diff(s, def, true); REQUIRE(e.empty(), "%s: not the placeholder image: %s", why, e.c_str());
    REQUIRE(c->used_bytes() == 0, "%s: %zu bytes were cached", why, size_t(c->used_bytes()));
}
void check_truth(const Truth &t, const Snap &s) {
    Win disp{0, 0, t.disp.w(), t.disp.h()}, data{t.data.x0 - t.disp.x0, t.data.y0 - t.disp.y0, t.data.x1 - t.disp.x0, t.data.y1 - t.disp.y0};
    REQUIRE(s.disp == disp, "display window %s, expected %s", s.disp.str().c_str(), disp.str().c_str());
    REQUIRE(s.data == data, "data window %s, expected %s", s.data.str().c_str(), data.str().c_str());
    REQUIRE(s.dt == t.dt, "pixel data type %s, expected %s", dt_name(s.dt), dt_name(t.dt));
    int nch = t.dt == 0 ? t.keep : 4;
    REQUIRE(s.w == data.w() && s.h == data.h() && s.nch == nch, "image is %dx%dx%d, expected %dx%dx%d", s.w, s.h, s.nch, data.w(), data.h(), nch);
    size_t b = dt_bytes(t.dt), n = size_t(s.w) * s.h;
    REQUIRE(s.bytes.size() == n * nch * b, "%zu bytes of pixels, expected %zu", s.bytes.size(), n * nch * b);
    static const uint8_t one1[1] = {255}, one3[2] = {255, 255}, oneh[2] = {0x00, 0x3c};
    for (size_t i = 0; i < n; i++) for (int c = 0; c < nch; c++) {
        const uint8_t *want = c < t.keep ? &t.bytes[(i * t.keep + c) * b] : t.dt == 2 ? one1 : t.dt == 3 ? one3 : oneh;
        REQUIRE(memcmp(&s.bytes[(i * nch + c) * b], want, b) == 0, "pixel (%d,%d) channel %d differs from the file", int(i % s.w), int(i / s.w), c);
    }
    REQUIRE(s.cs == t.cs, "colour space '%s', the file has '%s'", s.cs.c_str(), t.cs.c_str());
    REQUIRE(s.gamma == t.gamma && s.aspect == t.aspect && s.unassoc == t.unassoc, "metadata: gamma %g aspect %g unassociated %d, the file has %g %g %d", s.gamma, s.aspect, s.unassoc, t.gamma, t.aspect, t.unassoc);
    REQUIRE(s.ndef == 0 && s.nops == 0, "pending operations");
}
// Read `path` with the library, three ways, and compare.
void check_read(const std::string &path, const Truth &t, const char *why) {
    static const size_t caps[] = {1 << 26, 1 << 26, 0, 1, 17};
    for (int how = 0; how < (t.ok && t.nch >= 3 ? 4 : 5); how++) {
        G g; Node n = g.read(path, how != 1); auto c = make_cache(caps[how]);
        for (int rep = 0; rep < (how < 2 ? 2 : 1); rep++) {
            REQUIRE(g.exec(n, c) == ExecuteStatus::kSuccess, "execution did not succeed");
            Snap s = snap(g.out());
            if (!t.ok || t.nch < 3) check_placeholder(g, n, s, c, why);
            else { REQUIRE(g.g.node_status(n) == NodeStatus::kValid, "status %s, expected Valid", status_name(g.g.node_status(n))); check_truth(t, s); }
            state(fp(s));
        }
    }
}
std::string tmp(const char *ext) { return g_suite->dir + sfmt("/t%d.%s", int(getpid()), ext); }
void run_file(const File &f, bool must) {
    std::string p = tmp(f.ft.ext); unlink(p.c_str());
    bool w = write_raw(f, p); if (!w) { unlink(p.c_str()); REQUIRE(!must, "fixture: the image library cannot write %s", f.str().c_str()); return; }
    trace();
    Truth t = truth(p);
    // formats that store the values as they are
    if (must) { REQUIRE(t.ok, "fixture: cannot read back %s", f.str().c_str()); auto r = raw(f); size_t b = TD(f.ft.t).size();
        REQUIRE(t.disp == f.disp && t.data == f.data && t.nch == f.nch, "fixture: read back differs");
        if (b == size_t(dt_bytes(t.dt)) && dt_of(TD(f.ft.t)) < 4) for (size_t i = 0; i * f.nch * b < r.size(); i++) REQUIRE(memcmp(&r[i * f.nch * b], &t.bytes[i * t.keep * b], t.keep * b) == 0, "fixture: values differ"); }
    check_read(p, t, f.nch < 3 ? "fewer than three channels" : "unreadable file");
    unlink(p.c_str());
}
void build(Suite &s) {
    bool th = s.thorough;
    s.assumptions = {"the image library is trusted for decoding: it is the oracle for what a file holds", "image orientation metadata is not judged"};
    s.fixture = [] { mkdir((g_suite->dir + "/d.exr").c_str(), 0755); };
    auto add = [&](const char *name, std::vector<File> v, bool must) {
        auto p = std::make_shared<std::vector<File>>(std::move(v));
        s.add(name, p->size(), [p, must](uint64_t i) { run_file((*p)[i], must); }, [p](uint64_t i) { return (*p)[i].str(); });
    };
    const int M = th ? 6 : 3;
    std::vector<File> v;
    for (auto &t : types()) for (int nch = 1; nch <= 6; nch++) for (int w = 1; w <= M; w++) for (int h = 1; h <= M; h++) for (int sp = 0; sp < 2; sp++) { if ((t.t == TD::DOUBLE && nch > 4) || (t.ext[0] == 'd' && (nch == 2 || nch > 4))) continue; /* the image library itself cannot handle these */ File f; f.ft = t; f.nch = nch; f.disp = f.data = {0, 0, w, h}; f.special = sp; v.push_back(f); }
    add("formats", v, false);
    // window placements, every corner position
    v.clear();
    const int R = th ? 3 : 2;
    for (auto t : {TD::HALF, TD::FLOAT}) for (int nch : {3, 4}) for (int dx = -R; dx <= R; dx++) for (int dy = -R; dy <= R; dy++) for (int w = 1; w <= 3; w++) for (int h = 1; h <= 3; h++) for (int ox : {0, -5, 7}) for (int oy : {0, -3, 11}) {
        File f; f.ft = {"exr", t}; f.nch = nch; f.disp = {ox, oy, ox + 3, oy + 2}; f.data = {ox + dx, oy + dy, ox + dx + w, oy + dy + h}; v.push_back(f); }
    for (auto t : {TD::HALF, TD::FLOAT}) for (int nch : {3, 4}) for (int ox : {-100000, -5000, -300, 0, 300, 70000}) for (int oy : {-70000, -5000, -300, 0, 300, 100000}) for (int far : {0, 1}) {
        File f; f.ft = {"exr", t}; f.nch = nch; f.disp = {ox, oy, ox + (far ? 2048 : 3), oy + (far ? 1556 : 2)}; f.data = {ox + (far ? 1000 : 1), oy + (far ? 900 : 0), ox + (far ? 1005 : 3), oy + (far ? 903 : 2)}; v.push_back(f); }
    add("windows", v, true);
    v.clear();
    for (auto t : {TD::HALF, TD::FLOAT, TD::UINT32}) for (int nch : {3, 4, 5}) for (const char *c : {"none", "rle", "zip", "zips", "piz", "pxr24", "b44", "b44a", "dwaa", "dwab"}) for (int tile : {0, 16}) for (int big = 0; big < 2; big++) { File f; f.ft = {"exr", t}; f.nch = nch; f.comp = c; f.tile = tile; f.disp = f.data = big ? Win{0, 0, 37, 41} : Win{0, 0, 5, 3}; v.push_back(f); }
    for (auto t : {TD::UINT8, TD::UINT16, TD::FLOAT}) for (int nch : {3, 4, 5}) for (const char *c : {"none", "lzw", "zip", "packbits", "deflate"}) for (int tile : {0, 16}) for (int big = 0; big < 2; big++) { File f; f.ft = {"tif", t}; f.nch = nch; f.comp = c; f.tile = tile; f.disp = f.data = big ? Win{0, 0, 37, 41} : Win{0, 0, 5, 3}; v.push_back(f); }
    add("compressions", v, false);
    v.clear();
    for (auto &t : types()) for (int nch : {3, 4}) for (int m = 0; m < 32; m++) { File f; f.ft = t; f.nch = nch; f.disp = f.data = {0, 0, 3, 2}; f.meta = m; v.push_back(f); }
    for (auto &t : types()) for (float a : {0.1f, 0.45f, 0.5f, 0.9f, 1.0667f, 1.46f, 1.9f, 2.2f, 3.0f, 10.0f}) { File f; f.ft = t; f.nch = 4; f.disp = f.data = {0, 0, 3, 2}; f.aspect = a; v.push_back(f); }
    add("metadata", v, false);
    // several images in one file: the first one is read, at full size
    struct Multi { const char *ext; TD::BASETYPE t; int nch, n, mode, first; };
    static std::vector<Multi> mv; mv.clear();
    for (const char *x : {"exr", "tif"}) for (auto t : {TD::HALF, TD::FLOAT, TD::UINT8, TD::UINT16}) for (int nch : {3, 4}) for (int n : {2, 3, 4, 6}) for (int mode : {0, 1}) for (int first : {0, 1}) { if (n > 4 && mode) continue; if ((x[0] == 'e') != (t == TD::HALF || t == TD::FLOAT) && !(x[0] == 't' && t == TD::FLOAT)) continue; mv.push_back({x, t, nch, n, mode, first}); }
    s.add("several-images", mv.size(), [](uint64_t i) {
        auto &m = mv[i]; std::string p = tmp(m.ext); unlink(p.c_str()); auto out = OIIO::ImageOutput::create(p); REQUIRE(bool(out), "fixture");
        std::vector<File> fs; for (int k = 0; k < m.n; k++) { File f; f.ft = {m.ext, m.t}; f.nch = m.nch; int w = m.mode == 0 ? (m.first ? 9 - k : 3 + k) : 8 >> k; f.disp = f.data = {0, 0, w, m.mode == 0 ? 2 + k : 8 >> k}; fs.push_back(f); }
        std::vector<OIIO::ImageSpec> sp; for (auto &f : fs) { sp.emplace_back(f.data.w(), f.data.h(), f.nch, TD(f.ft.t)); if (m.mode == 1) { sp.back().tile_width = sp.back().tile_height = 16; sp.back().tile_depth = 1; } else sp.back().attribute("oiio:subimagename", sfmt("part%zu", sp.size())); }
        bool ok = m.mode == 0 && m.ext[0] == 'e' ? out->open(p, int(sp.size()), sp.data()) : out->open(p, sp[0]);
        for (size_t k = 0; ok && k < fs.size(); k++) { if (k && !(ok = out->open(p, sp[k], m.mode == 0 ? OIIO::ImageOutput::AppendSubimage : OIIO::ImageOutput::AppendMIPLevel))) break; auto r = raw(fs[k]); if (k) for (auto &b : r) b = uint8_t(b ^ 1); ok = out->write_image(TD(fs[k].ft.t), r.data()); }
        ok = out->close() && ok; if (!ok) { out->geterror(); unlink(p.c_str()); return; }
        Truth t = truth(p); REQUIRE(t.ok && t.data == fs[0].data, "fixture: first image"); check_read(p, t, "several images in one file"); unlink(p.c_str());
    }, [](uint64_t i) { auto &m = mv[i]; return sfmt("%d %s in one .%s file, %s, %d channels", m.n, m.mode ? "mip levels" : "images", m.ext, TD(m.t).c_str(), m.nch); });
    // every code value
    v.clear();
    { File f; f.ft = {"tif", TD::UINT8}; f.nch = 4; f.disp = f.data = {0, 0, 16, 16}; f.special = 1; v.push_back(f); f.ft = {"tif", TD::UINT16}; f.disp = f.data = {0, 0, 256, 256}; v.push_back(f); f.ft = {"exr", TD::HALF}; f.comp = "none"; v.push_back(f); f.ft = {"exr", TD::FLOAT}; v.push_back(f); f.nch = 3; v.push_back(f); f.disp = f.data = {0, 0, 700, 5}; v.push_back(f); f.ft = {"exr", TD::HALF}; v.push_back(f); }
    add("large", v, true);
    // every truncation of small files
    static std::vector<File> base; base.clear();
    for (auto &t : types()) for (int nch : {3, 4}) for (int c = 0; c < (t.ext[0] == 'e' || t.ext[0] == 't' ? 2 : 1); c++) { File f; f.ft = t; f.nch = nch; f.disp = f.data = {0, 0, 3, 2}; if (c) f.comp = "none"; base.push_back(f); }
    const uint64_t L = th ? 2400 : 900;
    auto trunc_desc = [](uint64_t i) { Digits d(i); auto &f = d.pick(base); return f.str() + sfmt(" truncated after %llu bytes", (unsigned long long)d.i); };
    s.add("truncated", base.size() * L, [](uint64_t i) {
        Digits d(i); auto &f = d.pick(base); std::string p = tmp(f.ft.ext);
        if (!write_raw(f, p)) { unlink(p.c_str()); return; }
        struct stat st; if (stat(p.c_str(), &st) || uint64_t(st.st_size) <= d.i) { unlink(p.c_str()); return; }
        if (truncate(p.c_str(), off_t(d.i))) fail("fixture: truncate");
        trace(); Truth t = truth(p); check_read(p, t, "truncated file"); unlink(p.c_str());
    }, trunc_desc);
    // truncations of tiled and larger files
    static std::vector<File> tiled; tiled.clear();
    for (const char *x : {"exr", "tif"}) for (auto t : {TD::HALF, TD::FLOAT, TD::UINT8, TD::UINT16}) for (int nch : {3, 4}) for (const char *c : {"none", "zip"}) for (int tile : {0, 16}) { if (x[0] == 'e' ? t == TD::UINT8 || t == TD::UINT16 : t == TD::HALF) continue; File f; f.ft = {x, t}; f.nch = nch; f.comp = c; f.tile = tile; f.disp = f.data = {0, 0, 40, 23}; tiled.push_back(f); }
    s.add("truncated-tiled", tiled.size() * 64, [](uint64_t i) {
        Digits d(i); auto &f = d.pick(tiled); std::string p = tmp(f.ft.ext); if (!write_raw(f, p)) { unlink(p.c_str()); return; }
        struct stat st; if (stat(p.c_str(), &st)) fail("fixture: stat"); if (truncate(p.c_str(), off_t(st.st_size * (d.i + 1) / 65))) fail("fixture: truncate");
        trace(); Truth t = truth(p); check_read(p, t, "truncated file"); unlink(p.c_str());
    }, [](uint64_t i) { Digits d(i); auto &f = d.pick(tiled); return f.str() + sfmt(" truncated to %llu/65", (unsigned long long)d.i + 1); });
    // one byte changed, at every position of small files
    static const std::vector<int> flips = {0x01, 0x80, 0xff};
    static std::vector<File> solid; solid.clear();        // formats whose decoder in the image library survives this itself
    for (auto &f : base) if (!strcmp(f.ft.ext, "png") || !strcmp(f.ft.ext, "tif")) solid.push_back(f);
    s.add("corrupted", solid.size() * L * (th ? 3 : 1), [](uint64_t i) {
        Digits d(i); auto &f = d.pick(solid); uint64_t at = d(g_suite->thorough ? 2400 : 900); int x = g_suite->thorough ? flips[d.i] : 0xff;
        std::string p = tmp(f.ft.ext); if (!write_raw(f, p)) { unlink(p.c_str()); return; }
        FILE *h = fopen(p.c_str(), "r+"); fseek(h, 0, SEEK_END); long n = ftell(h);
        if (long(at) >= n) { fclose(h); unlink(p.c_str()); return; }
        fseek(h, long(at), SEEK_SET); int c = fgetc(h); fseek(h, long(at), SEEK_SET); fputc(c ^ x, h); fclose(h);
        trace(); Truth t = truth(p); if (t.keep != -1) check_read(p, t, "corrupted file"); unlink(p.c_str());
    }, [](uint64_t i) { Digits d(i); auto &f = d.pick(solid); uint64_t at = d(g_suite->thorough ? 2400 : 900); return f.str() + sfmt(", byte %llu changed", (unsigned long long)at); });
    // things that are not images
    struct Odd { const char *what; std::function<std::string()> make; };
    static std::vector<Odd> odd; odd.clear();
    odd.push_back({"a directory named .exr", [] { return g_suite->dir + "/d.exr"; }});
    odd.push_back({"the empty path", [] { return std::string(); }});
    odd.push_back({"a missing file", [] { return g_suite->dir + "/none.exr"; }});
    odd.push_back({"a file in a missing directory", [] { return g_suite->dir + "/none/none.exr"; }});
    odd.push_back({"a file below a file", [] { std::string p = tmp("png"); FILE *f = fopen(p.c_str(), "w"); fclose(f); return p + "/x.png"; }});
    odd.push_back({"a dangling link", [] { std::string p = tmp("lnk.exr"); unlink(p.c_str()); if (symlink("nowhere.exr", p.c_str())) fail("fixture"); return p; }});
    odd.push_back({"a link to itself", [] { std::string p = tmp("loop.exr"); unlink(p.c_str()); if (symlink(p.c_str(), p.c_str())) fail("fixture"); return p; }});
    odd.push_back({"the null device", [] { return std::string("/dev/null"); }});
    odd.push_back({"a very long name", [] { return g_suite->dir + "/" + std::string(5000, 'x') + ".exr"; }});
    odd.push_back({"a name of dots", [] { return g_suite->dir + "/.."; }});
    for (const char *ext : {"exr", "png", "tif", "jpg", "dpx", "bmp", "txt", "hdr"}) for (int k = 0; k < 6; k++)
        odd.push_back({"other content", [ext, k] { std::string p = tmp(ext); FILE *f = fopen(p.c_str(), "w"); std::string c = k == 0 ? "" : k == 1 ? "x" : k == 2 ? "not an image\n" : k == 3 ? std::string(3000, '\0') : k == 4 ? std::string("\x89PNG\r\n\x1a\n", 8) : std::string("\x76\x2f\x31\x01\x02\0\0\0", 8); fwrite(c.data(), 1, c.size(), f); fclose(f); return p; }});
    s.add("not-images", odd.size(), [](uint64_t i) { std::string p = odd[i].make(); struct stat st; bool reg = stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); Truth t; if (reg) t = truth(p); check_read(p, t, odd[i].what); if (p.compare(0, g_suite->dir.size() + 2, g_suite->dir + "/t") == 0) unlink(p.c_str()); }, [](uint64_t i) { return sfmt("%s (%llu)", odd[i].what, (unsigned long long)i); });
    // content of one format under the name of another, and links
    s.add("misnamed", types().size() * types().size(), [](uint64_t i) {
        Digits d(i); auto &a = d.pick(types()); auto &b = d.pick(types()); File f; f.ft = a; f.nch = 3; f.disp = f.data = {0, 0, 4, 3};
        std::string p = tmp(a.ext), q = tmp((std::string("m.") + b.ext).c_str()); if (!write_raw(f, p)) { unlink(p.c_str()); return; }
        rename(p.c_str(), q.c_str()); Truth t = truth(q); check_read(q, t, "misnamed file"); unlink(q.c_str());
    }, [](uint64_t i) { Digits d(i); auto &a = d.pick(types()); auto &b = d.pick(types()); return sfmt("%s %s named .%s", a.ext, TD(a.t).c_str(), b.ext); });
    s.add("links", 4 * 4, [](uint64_t i) {
        Digits d(i); int how = int(d(4)); File f; f.ft = types()[d(4)]; f.nch = 4; f.disp = f.data = {0, 0, 4, 3};
        std::string p = tmp(f.ft.ext), sub = g_suite->dir + sfmt("/s%d", int(getpid())); if (!write_raw(f, p)) return; Truth t = truth(p); mkdir(sub.c_str(), 0755);
        std::string base = p.substr(p.rfind('/') + 1), q = how == 0 ? sub + "/a b." + f.ft.ext : how == 1 ? sub + "/../" + base : how == 2 ? sub + "/\xc3\xa9." + f.ft.ext : sub + "//./x." + f.ft.ext;
        if (how == 0 || how == 2) { if (symlink(p.c_str(), q.c_str())) fail("fixture"); } else if (how == 3) { if (link(p.c_str(), q.c_str())) fail("fixture"); }
        check_read(q, t, "link"); if (how != 1) unlink(q.c_str()); unlink(p.c_str()); rmdir(sub.c_str());
    }, [](uint64_t i) { return sfmt("path form %llu", (unsigned long long)i); });
}
Register r("C17", build);
}
