// C18 writing image files.
#include "cat.h"
#include <OpenImageIO/imageio.h>
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
typedef OIIO::TypeDesc TD;
namespace {
struct Fmt { const char *ext; bool srgb; int store[4]; bool windows; bool unassoc; int maxch; double rel; };   // store: type held for f32, f16, u8, u16
const std::vector<Fmt> &fmts() {
    static std::vector<Fmt> v = {
        {"exr", false, {0, 1, 1, 1}, true, false, 4, 0}, {"png", true, {2, 2, 2, 3}, false, true, 4, 0}, {"tif", false, {0, 0, 2, 3}, false, false, 4, 0}, {"dpx", false, {0, 0, 2, 3}, false, false, 4, 0},
        {"bmp", false, {2, 2, 2, 2}, false, false, 4, 0}, {"sgi", false, {2, 2, 2, 3}, false, false, 4, 0}, {"tga", false, {2, 2, 2, 2}, false, true, 4, 0}, {"hdr", false, {0, 0, 0, 0}, false, false, 3, 0.01},
        {"EXR", false, {0, 1, 1, 1}, true, false, 4, 0}, {"PNG", true, {2, 2, 2, 3}, false, true, 4, 0}, {"tiff", false, {0, 0, 2, 3}, false, false, 4, 0}};
    return v;
}
double step(int dt) { return dt == 2 ? 0.5 / 255 : dt == 3 ? 0.5 / 65535 : 0; }
double clampi(double v, int dt) { return dt >= 2 ? std::min(1.0, std::max(0.0, v)) : v; }
// The reference picture of what must be in the file, before any rounding.
ref::Stream picture(ref::Stream s, bool srgb, bool crop) {
    ref::bake(s, 3, srgb ? "sRGB" : "Linear", 0);
    if (!crop) return s;
    ref::Stream r = s; r.data = s.disp; r.px.clear(); r.amb.clear();
    for (int y = r.data.y0; y < r.data.y1; y++) for (int x = r.data.x0; x < r.data.x1; x++) {
        bool in = s.data.has(x, y);
        for (int c = 0; c < s.nch; c++) r.px.push_back(in ? s.at(x, y, c) : 0);
        r.amb.push_back(in ? s.amb_at(x, y) : 0);
    }
    return r;
}
std::string compare(const ImgFile &f, const ref::Stream &w, int dt, const Fmt &m) {
    if (m.windows) {
        if (f.disp != w.disp) return "display window " + f.disp.str() + ", expected " + w.disp.str();
        if (f.data != w.data) return "data window " + f.data.str() + ", expected " + w.data.str();
    }
    if (f.data.w() != w.data.w() || f.data.h() != w.data.h()) return sfmt("size %dx%d, expected %dx%d", f.data.w(), f.data.h(), w.data.w(), w.data.h());
    if (f.nch != w.nch) return sfmt("%d channels, expected %d", f.nch, w.nch);
    int st = m.store[dt];
    if (f.dt != st) return sfmt("pixel data type %s, expected %s", dt_name(f.dt), dt_name(st));
    for (size_t i = 0; i < f.px.size(); i++) {
        if (w.amb[i / w.nch]) continue;
        double v = f.px[i], b = w.px[i], e = step(dt) + step(st) + 2e-5 + (step(dt) || step(st) ? 1e-4 * (step(dt) + step(st)) : 0);
        if (m.rel) { bool odd = false; for (int c = 0; c < w.nch; c++) odd |= !(std::fabs(w.px[i - i % w.nch + c]) <= (dt == 1 ? 65504 : 1e37)); if (odd) continue; }    // the channels share an exponent
        if (std::isnan(b)) { if (dt < 2 && st < 2 && !std::isnan(v)) return "a value that is not a number was changed"; continue; }
        double lin = w.px[i];
        if (std::isinf(lin) || (std::fabs(lin) > 65504 && (dt == 1 || st == 1))) {
            if (m.srgb || m.rel || m.unassoc) continue;        // what the image library's curve or encoding makes of it is not judged
            if (dt < 2 && st < 2) { if (!(lin > 0 ? v >= 65504 : v <= -65504)) return sfmt("a value of %g was written as %g", lin, v); continue; }
        }
        b = clampi(clampi(b, dt), st);
        if (m.unassoc && w.nch == 4 && i % 4 != 3) { b = std::min(b, clampi(clampi(w.px[i - i % 4 + 3], dt), st)); e += 2.2 * step(st) + step(dt); }
        e += 6e-5 * std::fabs(b); if (dt == 1) e += std::fabs(b) / 2000 + 1e-7; if (st == 1) e += std::fabs(b) / 2000 + 1e-7;
        if (m.rel) { double mx = 0; for (int c = 0; c < w.nch; c++) mx = std::max(mx, std::fabs(w.px[i - i % w.nch + c])); e += m.rel * mx; if (b < 0) continue; }
        if (!(std::fabs(v - b) <= e)) { size_t q = i / w.nch; return sfmt("pixel (%d,%d) channel %zu is %.9g, expected %.9g", int(q % f.data.w()) + w.data.x0, int(q / f.data.w()) + w.data.y0, i % w.nch, v, b); }
    }
    return "";
}
std::string scratch() { std::string d = g_suite->dir + sfmt("/w%d", int(getpid())); mkdir(d.c_str(), 0755); return d; }
std::set<std::string> ls(const std::string &dir) {
    std::set<std::string> r; DIR *d = opendir(dir.c_str()); if (!d) return r;
    while (auto *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); }
    closedir(d); return r;
}
void clean(const std::string &dir) { for (auto &n : ls(dir)) { std::string p = dir + "/" + n; if (unlink(p.c_str())) rmdir(p.c_str()); } }
bool crop_of(int option, const Fmt &m) { return option == 1 || (option == 2 && !m.windows); }
// Files from 1000 on are those of unusual values.
ref::Stream src_ref(int f) { return f < 1000 ? cat::stream(f) : cat::value_stream(f - 1000); }
Node src_node(G &g, int f) { return f < 1000 ? cat::reader(g, f) : g.read(cat::values()[f - 1000].f.path); }
const char *src_key(int f) { return f < 1000 ? cat::files()[f].key : cat::values()[f - 1000].key; }
struct Cut { Win w; bool reformat; };
struct W { int file; cat::Chain ch; int fmt, dt, crop; std::vector<Cut> cuts; std::string name = "o"; int var = 0; };
std::string str(const W &w) { std::string c; for (auto &x : w.cuts) c += " cropped to " + x.w.str() + (x.reformat ? " (display too)" : ""); return sfmt("%s%s -> %s.%s as %s, crop option %d", src_key(w.file), (c + cat::chain_str(w.ch)).c_str(), w.name.c_str(), fmts()[w.fmt].ext, w.dt == 255 ? "input type" : dt_name(w.dt), w.crop); }
void run_write(const W &w) {
    const Fmt &m = fmts()[w.fmt];
    ref::Stream s = src_ref(w.file); for (auto &c : w.cuts) s = ref::crop(s, c.w, c.reformat, false); cat::chain_ref(s, w.ch); if (s.nch > m.maxch) return;
    if (w.crop == 0 && !m.windows && (s.data != s.disp || s.defs.size())) return;      // not cropping is not possible without windows
    std::string dir = scratch(), p = dir + "/" + w.name + "." + m.ext;
    G g; Node n = src_node(g, w.file);
    for (auto &c : w.cuts) { Node k = g.make(NodeType::kCropImage); g.i(k, "window_min_x", c.w.x0); g.i(k, "window_min_y", c.w.y0); g.i(k, "window_max_x", c.w.x1); g.i(k, "window_max_y", c.w.y1); g.i(k, "reformat", c.reformat); g.con(n, k); n = k; }
    n = cat::chain_node(g, n, w.ch); Node o = g.make(NodeType::kWriteImage);
    std::string ask = p; if (w.var) { setenv("OCG_MC_EXT", w.var < 3 ? m.ext : p.c_str(), 1); ask = w.var == 3 ? "$OCG_MC_EXT" : dir + "/" + w.name + (w.var == 1 ? ".$OCG_MC_EXT" : ".${OCG_MC_EXT}"); }
    g.s(o, "file_path", ask); if (w.dt != 255) g.i(o, "pixel_data_type", w.dt); if (w.crop != 2) g.i(o, "crop_on_write", w.crop); g.con(n, o);
    size_t sl = w.name.find('/'); std::string sub = sl == std::string::npos ? "" : dir + "/" + w.name.substr(0, sl);
    auto cache = make_cache(1 << 22);
    REQUIRE(g.exec(n, cache) == ExecuteStatus::kSuccess, "upstream"); Snap up = snap(g.out());
    for (int rep = 0; rep < 2; rep++) {
        if (sub.size()) mkdir(sub.c_str(), 0755);
        auto st = g.exec(o, cache); NodeStatus ns = g.g.node_status(o); Snap out = snap(g.out());
        ImgFile f; f.path = p; std::string cs; bool ok = load_file(f, &cs); auto names = ls(dir); if (sub.size()) { names = ls(sub); clean(sub); } clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && ns == NodeStatus::kValid, "execution status %d, node status %s", int(st), status_name(ns));
        std::string e = diff(out, up, true); REQUIRE(e.empty(), "the writer does not pass its input through: %s", e.c_str());
        REQUIRE(ok, "the file cannot be read back"); REQUIRE(names.size() == 1, "%zu files were written", names.size());
        ref::window_hint = m.windows && !crop_of(w.crop, m) ? &f.data : nullptr;
        ref::Stream want = picture(s, m.srgb, crop_of(w.crop, m)); ref::window_hint = nullptr;
        e = compare(f, want, w.dt == 255 ? s.dt : w.dt, m); REQUIRE(e.empty(), "%s", e.c_str());
        if (m.windows) REQUIRE(cs == "Linear", "colour space '%s'", cs.c_str());
        if (m.srgb) REQUIRE(cs == "sRGB", "colour space '%s'", cs.c_str());
        state(fnv(f.px.data(), f.px.size() * 4, fnv(&f.data, sizeof f.data)));
    }
}
std::string comp_attr(const std::string &p, const char *name) { auto in = OIIO::ImageInput::open(p); return in ? in->spec().get_string_attribute(name, "") : "?"; }
long size_of(const std::string &p) { struct stat st; return stat(p.c_str(), &st) ? -1 : long(st.st_size); }
bool progressive(const std::string &p) {
    FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; std::vector<uint8_t> b(1 << 20); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f);
    for (size_t i = 2; i + 4 < b.size() && b[i] == 0xff;) { if (b[i + 1] == 0xc2) return true; if (b[i + 1] == 0xc0 || b[i + 1] == 0xc1) return false; i += 2 + b[i + 2] * 256 + b[i + 3]; }
    return false;
}
// the quantisation tables and sampling factors of a JPEG file
std::vector<uint8_t> jpeg_tables(const std::string &p) {
    FILE *f = fopen(p.c_str(), "rb"); if (!f) return {}; std::vector<uint8_t> b(1 << 20), o; b.resize(fread(b.data(), 1, b.size(), f)); fclose(f);
    for (size_t i = 2; i + 4 < b.size() && b[i] == 0xff && b[i + 1] != 0xda;) { size_t n = b[i + 2] * 256 + b[i + 3]; int k = b[i + 1]; if ((k == 0xdb || (k >= 0xc0 && k <= 0xc2)) && i + 2 + n <= b.size()) { o.push_back(k == 0xdb ? 0xdb : 0xc0); o.insert(o.end(), b.begin() + i + 4, b.begin() + i + 2 + n); } i += 2 + n; }
    return o;
}
// the number of bytes of compressed data in a PNG file
long png_data(const std::string &p) {
    FILE *f = fopen(p.c_str(), "rb"); if (!f) return -1; std::vector<uint8_t> b(8 << 20); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f); long n = 0;
    for (size_t i = 8; i + 12 <= b.size();) { size_t l = size_t(b[i]) << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3]; if (!memcmp(&b[i + 4], "IDAT", 4)) n += long(l); i += 12 + l; }
    return n;
}
struct Bad { const char *what; std::function<std::string(const std::string &)> path; int file; };
const std::vector<Bad> &bad() {
    static std::vector<Bad> v;
    if (v.empty()) {
        for (const char *ext : {"exr", "png", "tif", "jpg", "dpx"}) {
            std::string x = ext;
            v.push_back({"missing directory", [x](const std::string &d) { return d + "/none/o." + x; }, 0});
            v.push_back({"path is a directory", [x](const std::string &d) { mkdir((d + "/o." + x).c_str(), 0755); return d + "/o." + x; }, 0});
            v.push_back({"below a file", [x](const std::string &d) { FILE *f = fopen((d + "/file").c_str(), "w"); fclose(f); return d + "/file/o." + x; }, 0});
            v.push_back({"link to itself", [x](const std::string &d) { std::string p = d + "/o." + x; if (symlink(p.c_str(), p.c_str())) fail("fixture"); return p; }, 0});
            v.push_back({"name too long", [x](const std::string &d) { return d + "/" + std::string(400, 'n') + "." + x; }, 0});
        }
        v.push_back({"unknown extension", [](const std::string &d) { return d + "/o.xyz"; }, 0});
        v.push_back({"no extension", [](const std::string &d) { return d + "/o"; }, 0});
        v.push_back({"empty path", [](const std::string &) { return std::string(); }, 0});
        v.push_back({"directory only", [](const std::string &d) { return d + "/"; }, 0});
        v.push_back({"four channels in a format of three", [](const std::string &d) { return d + "/o.hdr"; }, 0});
        v.push_back({"four channels in a format of three", [](const std::string &d) { return d + "/o.ppm"; }, 0});
    }
    return v;
}
void build(Suite &s) {
    bool th = s.thorough;
    s.assumptions = {"the image library is trusted for decoding the written file", "sampling and rounding ties are not judged", "lossy compression: only flat images, within a coarse tolerance"};
    s.fixture = [] { cat::write_files(); cat::write_values();
        ImgFile f{g_suite->dir + "/flat.exr", {0, 0, 32, 32}, {0, 0, 32, 32}, 3, 0, {}}; for (int i = 0; i < 32 * 32; i++) for (float v : {0.25f, 0.5f, 0.125f}) f.px.push_back(v); write_file(f);
        ImgFile h{g_suite->dir + "/noise.exr", {0, 0, 64, 64}, {0, 0, 64, 64}, 3, 0, pattern({0, 0, 64, 64}, 3, 5)}; write_file(h);
        ImgFile a{g_suite->dir + "/aspect.exr", {0, 0, 4, 3}, {0, 0, 4, 3}, 3, 0, pattern({0, 0, 4, 3}, 3, 6)};
        { auto out = OIIO::ImageOutput::create(a.path); OIIO::ImageSpec sp(4, 3, 3, TD::FLOAT); sp.attribute("PixelAspectRatio", 2.0f); if (!out->open(a.path, sp) || !out->write_image(TD::FLOAT, a.px.data())) fail("fixture"); out->close(); }
    };
    static std::vector<cat::Chain> ch; ch = {{}, {0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {0, 3}, {6, 1}, {2, 4, 7}};
    static const std::vector<int> DT = {255, 0, 1, 2, 3};
    auto dec = [](uint64_t i) { Digits d(i); W w; w.fmt = int(d(fmts().size())); w.dt = d.pick(DT); w.crop = int(d(3)); w.file = int(d(cat::SMALL)); w.ch = ch[d.i]; return w; };
    s.add("formats", fmts().size() * DT.size() * 3 * cat::SMALL * ch.size(), [=](uint64_t i) { run_write(dec(i)); }, [=](uint64_t i) { return str(dec(i)); });
    // display windows away from the origin, data windows inside, around, across and apart from them
    static std::vector<std::vector<Cut>> cuts; cuts.clear();
    static const std::vector<Win> place = {{1, 2, 4, 4}, {-3, 1, 2, 5}, {2, -4, 5, 1}, {10, 20, 13, 22}, {-9, -5, -6, -1}};
    for (auto &a : place) { cuts.push_back({{a, true}}); for (Win b : {Win{a.x0 + 1, a.y0, a.x1, a.y1 - 1}, Win{a.x0 - 2, a.y0 - 1, a.x1 + 1, a.y1 + 3}, Win{a.x0 - 1, a.y0 + 1, a.x1 - 1, a.y1 + 1}, Win{a.x1 + 1, a.y0, a.x1 + 3, a.y1}, Win{0, 0, 3, 2}}) cuts.push_back({{a, true}, {b, false}}); }
    static const std::vector<cat::Chain> pch = {{}, {0}, {4}};
    auto decp = [](uint64_t i) { Digits d(i); W w; w.fmt = int(d(fmts().size())); w.dt = int(d(2)) ? 0 : 255; w.crop = int(d(3)); w.file = int(d(2)); w.cuts = d.pick(cuts); w.ch = d.pick(pch); return w; };
    s.add("placed-windows", fmts().size() * 2 * 3 * 2 * cuts.size() * pch.size(), [=](uint64_t i) { run_write(decp(i)); }, [=](uint64_t i) { return str(decp(i)); });
    // values outside 0..1, infinities, NaN, tiny values, in one channel at a time
    size_t nv = cat::values().size();
    auto decv = [=](uint64_t i) { Digits d(i); W w; w.fmt = int(d(fmts().size())); w.dt = d.pick(DT); w.file = 1000 + int(d(nv)); w.crop = int(d(3)); return w; };
    s.add("unusual-values", fmts().size() * DT.size() * nv * 3, [=](uint64_t i) { run_write(decv(i)); }, [=](uint64_t i) { return str(decv(i)); });
    // names that contain the extensions of other formats: only the last extension counts
    static std::vector<std::string> nm; nm.clear();
    for (const char *x : {"exr", "png", "jpg", "jpeg", "tif", "EXR", "PNG"}) for (const char *f : {"o.%s", "%s", "o.%s.v2", ".%s", "o%s", "d.%s/o", "%s/%s"}) { std::string t = f; for (size_t k; (k = t.find("%s")) != std::string::npos;) t.replace(k, 2, x); nm.push_back(t); }
    auto decn = [=](uint64_t i) { Digits d(i); W w; w.fmt = int(d(fmts().size())); w.name = d.pick(nm); w.file = int(d(3)); w.crop = int(d(2)) + 1; w.dt = 255; if (d(2)) w.ch = {6, 1}; return w; };
    s.add("misleading-names", fmts().size() * nm.size() * 3 * 2 * 2, [=](uint64_t i) { run_write(decn(i)); }, [=](uint64_t i) { return str(decn(i)); });
    // the extension comes from an environment variable
    auto dece = [=](uint64_t i) { Digits d(i); W w; w.fmt = int(d(fmts().size())); w.var = 1 + int(d(3)); w.file = int(d(cat::SMALL)); w.crop = int(d(2)) + 1; w.dt = 255; if (d(2)) w.ch = {6, 1}; return w; };
    s.add("extension-in-variable", fmts().size() * 3 * cat::SMALL * 2 * 2, [=](uint64_t i) { run_write(dece(i)); }, [=](uint64_t i) { return str(dece(i)) + ", extension from an environment variable"; });
    auto decl = [](uint64_t i) { Digits d(i); W w; w.fmt = int(d(fmts().size())); w.dt = d.pick(DT); w.crop = int(d(3)); w.file = cat::SMALL; w.ch = ch[d.i * 2]; return w; };
    s.add("large", fmts().size() * DT.size() * 3 * (th ? 6 : 2), [=](uint64_t i) { run_write(decl(i)); }, [=](uint64_t i) { return str(decl(i)); });
    // compression settings
    static const char *exr[] = {"", "none", "rle", "zip", "zips", "piz", "pxr24", "b44", "b44a", "dwaa", "dwab"};
    s.add("exr-compression", 11 * 4 * (cat::SMALL + 2), [](uint64_t i) {
        Digits d(i); int comp = int(d(11)), dt = int(d(4)), file = int(d.i);
        std::string dir = scratch(), p = dir + "/c.exr", src = file < cat::SMALL ? cat::files()[file].f.path : file == cat::SMALL ? g_suite->dir + "/flat.exr" : g_suite->dir + "/noise.exr";
        G g; Node n = g.read(src), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.i(o, "pixel_data_type", dt); g.i(o, "exr_compression", comp); g.con(n, o);
        auto st = g.exec(o); NodeStatus ns = g.g.node_status(o); ImgFile f; f.path = p; bool ok = load_file(f); std::string c = comp_attr(p, "compression"); clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && ns == NodeStatus::kValid && ok, "not written: node status %s", status_name(ns));
        if (comp) REQUIRE(c == exr[comp], "compressed with '%s', asked for '%s'", c.c_str(), exr[comp]);
        bool lossless = comp >= 1 && comp <= 5; if (comp == 0) lossless = true;
        ref::Stream w; if (file < cat::SMALL) w = cat::stream(file); else { ImgFile q; q.path = src; load_file(q); w = ref::from_file(q, "Linear"); }
        w = picture(w, false, false); Fmt m = fmts()[0];
        if (!lossless) { if (file != cat::SMALL) { REQUIRE(f.data == w.data && f.disp == w.disp && f.nch == w.nch, "windows or channels differ"); return; } m.rel = 0.08; }
        std::string e = compare(f, w, dt, m); REQUIRE(e.empty(), "%s", e.c_str());
    }, [](uint64_t i) { Digits d(i); int comp = int(d(11)), dt = int(d(4)), file = int(d.i); return sfmt("%s as %s with exr compression %d (%s)", file < cat::SMALL ? cat::files()[file].key : file == cat::SMALL ? "flat" : "noise", dt_name(dt), comp, exr[comp]); });
    s.add("png-compression", 10 * 4 * cat::SMALL, [](uint64_t i) {
        Digits d(i); int level = int(d(10)), dt = int(d(4)), file = int(d.i); std::string dir = scratch(), p = dir + "/c.png"; const Fmt &m = fmts()[1];
        G g; Node n = cat::reader(g, file), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.i(o, "pixel_data_type", dt); g.i(o, "png_compression_level", level); g.con(n, o);
        auto st = g.exec(o); ImgFile f; f.path = p; bool ok = load_file(f); clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && ok, "not written");
        std::string e = compare(f, picture(cat::stream(file), true, true), dt, m); REQUIRE(e.empty(), "%s", e.c_str());
    }, [](uint64_t i) { Digits d(i); int level = int(d(10)), dt = int(d(4)), file = int(d.i); return sfmt("%s as %s png level %d", cat::files()[file].key, dt_name(dt), level); });
    static const char *sub[] = {"", "4:4:4", "4:2:2", "4:2:0", "4:2:1"};
    static const std::vector<int> Q = {1, 25, 50, 75, 90, 100};
    s.add("jpeg", Q.size() * 5 * 2 * 7 * 4, [](uint64_t i) {
        static const char *ext[] = {"jpg", "jpeg", "jpe", "jif", "jfif", "JPG", "jfi"};
        Digits d(i); int q = d.pick(Q), ss = int(d(5)), prog = int(d(2)); const char *x = ext[d(7)]; int dt = int(d(4)); std::string dir = scratch(), p = dir + "/c." + x;
        G g; Node n = g.read(g_suite->dir + "/flat.exr"), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.i(o, "pixel_data_type", dt); g.i(o, "jpeg_compression_level", q); g.i(o, "jpeg_subsampling", ss); g.i(o, "jpeg_progressive", prog); g.con(n, o);
        auto st = g.exec(o); NodeStatus ns = g.g.node_status(o); ImgFile f; f.path = p; std::string cs; bool ok = load_file(f, &cs), pr = progressive(p); std::string sb = comp_attr(p, "jpeg:subsampling"); clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && ns == NodeStatus::kValid && ok, "not written");
        REQUIRE(f.data == (Win{0, 0, 32, 32}) && f.nch == 3 && f.dt == 2 && cs == "sRGB", "size, channels, type or colour space differ");
        REQUIRE(pr == (prog != 0), "progressive %d", int(pr)); if (ss && ss != 4 /* the image library does not report it */) REQUIRE(sb == sub[ss], "subsampling '%s'", sb.c_str());
        if (q >= 50) { double v[3] = {ref::to_srgb(0.25), ref::to_srgb(0.5), ref::to_srgb(0.125)}; for (size_t k = 0; k < f.px.size(); k++) REQUIRE(std::fabs(f.px[k] - v[k % 3]) <= 0.06, "value %g, expected %g", f.px[k], v[k % 3]); }
    }, [](uint64_t i) { Digits d(i); int q = d.pick(Q), ss = int(d(5)), prog = int(d(2)); return sfmt("jpeg quality %d subsampling %s progressive %d (%llu)", q, sub[ss], prog, (unsigned long long)d.i); });
    // exactly the requested settings, for every level and many sizes: what the image library itself stores for them
    static const std::vector<std::pair<int, int>> Z = {{1, 1}, {3, 2}, {8, 8}, {9, 7}, {17, 16}, {40, 33}};
    s.add("requested-quality", Z.size() * 100 * 2 * 4, [](uint64_t i) {
        Digits d(i); auto z = d.pick(Z); int q = 1 + int(d(100)), prog = int(d(2)), ss = int(d(4)); std::string dir = scratch(), p = dir + "/q.jpg", o2 = dir + "/r.jpg"; clean(dir);
        G g; Node n = g.read(g_suite->dir + "/noise.exr"), c = g.make(NodeType::kCropImage), o = g.make(NodeType::kWriteImage); g.i(c, "window_max_x", z.first); g.i(c, "window_max_y", z.second); g.i(c, "reformat", 1); g.con(n, c); g.con(c, o);
        g.s(o, "file_path", p); g.i(o, "jpeg_compression_level", q); g.i(o, "jpeg_subsampling", ss); g.i(o, "jpeg_progressive", prog);
        auto st = g.exec(o); auto got = jpeg_tables(p); bool pr = progressive(p);
        OIIO::ImageSpec sp(z.first, z.second, 3, OIIO::TypeDesc::UINT8); sp.attribute("Compression", "jpeg"); sp.attribute("CompressionQuality", q); if (ss) sp.attribute("jpeg:subsampling", sub[ss]); sp.attribute("jpeg:progressive", prog);
        auto out = OIIO::ImageOutput::create(o2); std::vector<uint8_t> px(size_t(z.first) * z.second * 3, 77); bool ok = out && out->open(o2, sp) && out->write_image(OIIO::TypeDesc::UINT8, px.data()); if (out) ok = out->close() && ok;
        auto want = jpeg_tables(o2); clean(dir); REQUIRE(ok && want.size() > 64, "fixture: jpeg");
        REQUIRE(st == ExecuteStatus::kSuccess, "not written"); REQUIRE(got == want, "quality or subsampling are not those asked for"); REQUIRE(pr == (prog != 0), "progressive %d", int(pr)); state(fnv(got.data(), got.size()));
    }, [](uint64_t i) { Digits d(i); auto z = d.pick(Z); int q = 1 + int(d(100)), prog = int(d(2)); return sfmt("jpeg of %dx%d, quality %d, progressive %d, subsampling %s", z.first, z.second, q, prog, sub[d(4)]); });
    s.add("requested-level", Z.size() * 10 * 2 * 3, [](uint64_t i) {
        Digits d(i); auto z = d.pick(Z); int level = int(d(10)), dt = 2 + int(d(2)), kind = int(d(3)); if (kind) z = {z.first * 7, z.second * 5}; std::string dir = scratch(), p = dir + "/q.png", o2 = dir + "/r.png"; clean(dir);
        G g; Node n = g.read(g_suite->dir + (kind == 1 ? "/flat.exr" : "/noise.exr")), c = g.make(NodeType::kCropImage), o = g.make(NodeType::kWriteImage); g.i(c, "window_max_x", z.first); g.i(c, "window_max_y", z.second); g.i(c, "reformat", 1); g.con(n, c); g.con(c, o);
        g.s(o, "file_path", p); g.i(o, "png_compression_level", level); g.i(o, "pixel_data_type", dt);
        auto st = g.exec(o); long got = png_data(p); auto in = OIIO::ImageInput::open(p); REQUIRE(st == ExecuteStatus::kSuccess && in, "not written");
        OIIO::ImageSpec was = in->spec(); if (was.nchannels != 3 || was.width != z.first || was.height != z.second) { in->close(); clean(dir); fail("the file is %dx%d of %d channels", was.width, was.height, was.nchannels); }
        std::vector<uint8_t> px(size_t(was.width) * was.height * 3 * was.format.size()); bool ok = in->read_image(0, 0, 0, 3, was.format, px.data()); in->close();
        OIIO::ImageSpec sp(was.width, was.height, 3, was.format); sp.attribute("png:compressionLevel", level); auto out = OIIO::ImageOutput::create(o2); ok = ok && out && out->open(o2, sp) && out->write_image(was.format, px.data()); if (out) ok = out->close() && ok;
        long want = png_data(o2); clean(dir); REQUIRE(ok && want > 0, "fixture: png"); REQUIRE(got == want, "%ld bytes of compressed data, level %d gives %ld", got, level, want); state(mix(uint64_t(got), i));
    }, [](uint64_t i) { Digits d(i); auto z = d.pick(Z); int level = int(d(10)), dt = 2 + int(d(2)), kind = int(d(3)); return sfmt("png of %dx%d (%d), %s, level %d", z.first, z.second, kind, dt_name(dt), level); });
    s.add("effort-changes-size", 2, [](uint64_t i) {
        static const char *attr[] = {"png_compression_level", "jpeg_compression_level"}; static const std::vector<std::vector<int>> lv = {{9, 1, 0}, {5, 40, 95}};
        std::string dir = scratch(), p = dir + (i == 0 ? "/c.png" : "/c.jpg"); long last = 0;
        for (int l : lv[i]) {
            G g; Node n = g.read(g_suite->dir + (i == 0 ? "/flat.exr" : "/noise.exr")), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.i(o, attr[i], l); g.con(n, o);
            auto st = g.exec(o); long sz = size_of(p); clean(dir); REQUIRE(st == ExecuteStatus::kSuccess && sz > 0, "not written");
            REQUIRE(sz >= last, "%s %d gives %ld bytes, a stronger setting %ld", attr[i], l, sz, last); if (l == lv[i].back()) REQUIRE(sz > last, "%s has no effect", attr[i]); last = sz;
        }
    }, [](uint64_t i) { return sfmt("compression effort %llu", (unsigned long long)i); });
    s.add("dwa-level", 2, [](uint64_t i) {
        std::string dir = scratch(), p = dir + "/c.exr"; std::vector<long> sz;
        for (int l : {0, 45, 400, 4000}) { G g; Node n = g.read(g_suite->dir + "/noise.exr"), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.i(o, "exr_compression", 9 + int(i)); g.i(o, "exr_dwa_compression_level", l); g.con(n, o); auto st = g.exec(o); sz.push_back(size_of(p)); clean(dir); REQUIRE(st == ExecuteStatus::kSuccess && sz.back() > 0, "not written"); }
        for (size_t k = 1; k < sz.size(); k++) REQUIRE(sz[k] <= sz[k - 1], "a stronger level gives %ld bytes, a weaker one %ld", sz[k], sz[k - 1]); REQUIRE(sz.back() < sz[0], "the level has no effect (%ld bytes)", sz[0]);
    }, [](uint64_t i) { return std::string("compression level of ") + (i ? "dwab" : "dwaa"); });
    static const std::vector<float> asp = {0.1f, 0.45f, 0.5f, 0.9f, 1.0667f, 1.46f, 1.9f, 2.2f, 3.0f, 10.0f};
    s.add("aspects", asp.size() * 2, [](uint64_t i) {
        float want = asp[i / 2]; std::string dir = scratch(), q = dir + "/in.exr", p = dir + "/a.exr";
        { auto out = OIIO::ImageOutput::create(q); OIIO::ImageSpec sp(4, 3, 3, TD::FLOAT); sp.attribute("PixelAspectRatio", want); auto px = pattern({0, 0, 4, 3}, 3, 6); if (!out->open(q, sp) || !out->write_image(TD::FLOAT, px.data())) fail("fixture"); out->close(); }
        G g; Node n = g.read(q), o = g.make(NodeType::kWriteImage); if (i % 2) n = cat::chain_node(g, n, {0}); g.s(o, "file_path", p); g.con(n, o);
        auto st = g.exec(o); float a = 0; { auto in = OIIO::ImageInput::open(p); if (in) a = in->spec().get_float_attribute("PixelAspectRatio", 1.0f); } clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && std::fabs(a - want) <= 1e-5 * want, "pixel aspect %g, expected %g", a, want);
    }, [](uint64_t i) { return sfmt("pixel aspect %g", asp[i / 2]); });
    s.add("metadata", fmts().size(), [](uint64_t i) {
        const Fmt &m = fmts()[i]; std::string dir = scratch(), p = dir + "/a." + m.ext; G g; Node n = g.read(g_suite->dir + "/aspect.exr"), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.con(n, o);
        auto st = g.exec(o); float a = 0; { auto in = OIIO::ImageInput::open(p); if (in) a = in->spec().get_float_attribute("PixelAspectRatio", 1.0f); } clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && (!m.windows || a == 2.0f), "pixel aspect %g", a);
    }, [](uint64_t i) { return sfmt("pixel aspect in .%s", fmts()[i].ext); });
    // an existing file is replaced, whatever it holds and however it is written
    static const std::vector<std::vector<std::pair<const char *, int>>> hows = {{}, {{"crop_on_write", 0}}, {{"crop_on_write", 1}}, {{"crop_on_write", 2}}, {{"pixel_data_type", 0}}, {{"pixel_data_type", 2}}, {{"exr_compression", 2}, {"png_compression_level", 9}, {"jpeg_compression_level", 100}}, {{"crop_on_write", 1}, {"exr_compression", 1}}};
    s.add("overwrite", fmts().size() * 6 * hows.size(), [](uint64_t i) {
        Digits d(i); const Fmt &m = fmts()[d(fmts().size())]; int kind = int(d(6)); auto &how = d.pick(hows); if (how.size() && !m.windows && !strcmp(how[0].first, "crop_on_write") && how[0].second == 0) return; std::string dir = scratch(), p = dir + "/o." + m.ext; int file = 1; clean(dir);
        if (kind < 4) { FILE *f = fopen(p.c_str(), "w"); if (kind == 0) { std::string z(100000, char(7)); fwrite(z.data(), 1, z.size(), f); } else if (kind == 1) fputs("x", f); else if (kind == 3) { std::string z(1000, 0); fwrite(z.data(), 1, z.size(), f); } fclose(f); }
        else for (int k = kind; k < 6; k++) { G h; Node n = cat::reader(h, file), a = h.make(NodeType::kGrade), o = h.make(NodeType::kWriteImage); if (k == kind) h.f(a, "multiply_r", 0.25f); h.s(o, "file_path", p); h.con(n, a); h.con(a, o); REQUIRE(h.exec(o) == ExecuteStatus::kSuccess, "the image before was not written"); }
        G g; Node n = cat::reader(g, file), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.con(n, o); for (auto &a : how) g.i(o, a.first, a.second);
        auto st = g.exec(o); ImgFile f; f.path = p; bool ok = load_file(f); long sz = size_of(p); auto names = ls(dir); clean(dir);
        REQUIRE(st == ExecuteStatus::kSuccess && ok && names.size() == 1, "not replaced"); REQUIRE(sz < 90000, "old content remains");
        int crop = 2, dt = -1; for (auto &a : how) { if (!strcmp(a.first, "crop_on_write")) crop = a.second; if (!strcmp(a.first, "pixel_data_type")) dt = a.second; }
        auto src = cat::stream(file); std::string e = compare(f, picture(src, m.srgb, crop_of(crop, m)), dt < 0 ? src.dt : dt, m); REQUIRE(e.empty(), "%s", e.c_str()); state(i);
    }, [](uint64_t i) { Digits d(i); auto e = fmts()[d(fmts().size())].ext; int k = int(d(6)); std::string h; for (auto &a : d.pick(hows)) h += sfmt(" %s %d", a.first, a.second); return sfmt(".%s over an existing file (%d),%s", e, k, h.c_str()); });
    // failures
    static const std::vector<double> wf = {1, 0, -7, 2.6, 1001};
    s.add("unwritable", bad().size() * 2 * 3 * wf.size(), [](uint64_t i) {
        Digits d(i); const Bad &b = d.pick(bad()); int rep = int(d(2)), below = int(d(3)); double fr = d.pick(wf); std::string dir = scratch(), p = b.path(dir); auto before = ls(dir);
        G g; Node n = cat::reader(g, b.file), o = g.make(NodeType::kWriteImage), z = o; g.s(o, "file_path", p); g.con(n, o);
        if (below == 1) { z = g.make(NodeType::kNull); g.con(o, z); } else if (below == 2) { z = g.make(NodeType::kGrade); g.con(o, z); }
        ExecuteStatus st{}; for (int k = 0; k <= rep; k++) st = g.exec(z, fr);
        NodeStatus ns = g.g.node_status(o); auto after = ls(dir); clean(dir);
        REQUIRE(ns == NodeStatus::kError, "node status %s, expected Error", status_name(ns));
        REQUIRE(st == ExecuteStatus::kError, "execution status %d, expected an error", int(st));
        REQUIRE(after == before, "files appeared or disappeared");
    }, [](uint64_t i) { Digits d(i); const Bad &b = d.pick(bad()); d(2); d(3); return sfmt("%s at frame %g (%llu)", b.what, d.pick(wf), (unsigned long long)i); });
    s.add("disabled", fmts().size() * 3 * 2, [](uint64_t i) {
        Digits d(i); const Fmt &m = fmts()[d(fmts().size())]; int how = int(d(3)); bool exists = d(2); std::string dir = scratch(), p = dir + "/o." + m.ext;
        if (exists) { FILE *f = fopen(p.c_str(), "w"); fputs("keep", f); fclose(f); } auto before = ls(dir);
        G g; Node n = cat::reader(g, 0), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.con(n, o); if (how == 0 || how == 2) g.i(o, "enable", 0); if (how) g.i(o, "execute", 0);
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "upstream"); Snap up = snap(g.out());
        auto st = g.exec(o); Snap out = snap(g.out()); auto after = ls(dir); long sz = size_of(p); clean(dir);
        REQUIRE(after == before && (!exists || sz == 4), "a writer that must not write wrote a file"); REQUIRE(st == ExecuteStatus::kSuccess, "execution did not succeed");
        if (how == 1) { std::string e = diff(out, up, true); REQUIRE(e.empty(), "input not passed through: %s", e.c_str()); }
    }, [](uint64_t i) { Digits d(i); const Fmt &m = fmts()[d(fmts().size())]; return sfmt(".%s %s", m.ext, d(3) ? "execute off" : "disabled"); });
    // the disk fills up after k bytes, for every k
    s.add("disk-full", fmts().size() * (th ? 1200 : 500), [=](uint64_t i) {
        Digits d(i); const Fmt &m = fmts()[d(fmts().size())]; long k = long(d.i); std::string dir = scratch(), p = dir + "/o." + m.ext; int file = 1; clean(dir);
        G g; Node n = cat::reader(g, file), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); g.con(n, o);
        REQUIRE(g.exec(n) == ExecuteStatus::kSuccess, "upstream"); fflush(nullptr);
        signal(SIGXFSZ, SIG_IGN); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = rlim_t(k); setrlimit(RLIMIT_FSIZE, &lim);
        auto st = g.exec(o); setrlimit(RLIMIT_FSIZE, &old);
        NodeStatus ns = g.g.node_status(o); ImgFile f; f.path = p; bool ok = load_file(f); clean(dir);
        if (ns == NodeStatus::kValid) {
            std::string e = !ok ? "the file cannot be read back" : compare(f, picture(cat::stream(file), m.srgb, !m.windows), 0, m);
            if (!e.empty()) fail_key(std::string("disk-full:") + m.ext, "reported success, but " + e);
            REQUIRE(st == ExecuteStatus::kSuccess, "execution status %d", int(st));
        } else REQUIRE(ns == NodeStatus::kError && st == ExecuteStatus::kError, "node status %s, execution status %d", status_name(ns), int(st));
    }, [=](uint64_t i) { Digits d(i); auto e = fmts()[d(fmts().size())].ext; return sfmt(".%s, disk full after %llu bytes", e, (unsigned long long)d.i); });
    // larger images: formats for which the image library reports that the disk is full while writing
    static const std::vector<std::pair<const char *, long>> big = {{"exr", 15000}, {"tif", 12000}, {"dpx", 40000}, {"hdr", 8000}};
    s.add("disk-full-large", 4 * 200, [=](uint64_t i) {
        Digits d(i); auto &b = d.pick(big); long k = long(d.i) * (b.second / 2) / 200; std::string dir = scratch(), p = dir + "/o." + b.first;
        G g; Node n = g.read(g_suite->dir + "/noise.exr"), o = g.make(NodeType::kWriteImage); g.s(o, "file_path", p); if (i & 1) g.i(o, "exr_compression", 1); g.con(n, o);
        REQUIRE(g.exec(o) == ExecuteStatus::kSuccess, "written without a limit"); long full = size_of(p); REQUIRE(full > b.second, "fixture: %ld bytes", full); unlink(p.c_str()); fflush(nullptr);
        signal(SIGXFSZ, SIG_IGN); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = rlim_t(k); setrlimit(RLIMIT_FSIZE, &lim);
        auto st = g.exec(o); setrlimit(RLIMIT_FSIZE, &old); NodeStatus ns = g.g.node_status(o); clean(dir);
        REQUIRE(ns == NodeStatus::kError && st == ExecuteStatus::kError, "%ld of %ld bytes fit: node status %s, execution status %d", k, full, status_name(ns), int(st));
        REQUIRE(g.exec(o) == ExecuteStatus::kSuccess && g.g.node_status(o) == NodeStatus::kValid, "with space again: status %s", status_name(g.g.node_status(o))); clean(dir);
    }, [=](uint64_t i) { Digits d(i); auto &b = d.pick(big); return sfmt(".%s of 64x64 noise, disk full after %ld bytes", b.first, long(d.i) * (b.second / 2) / 200); });
}
Register r("C18", build);
}
