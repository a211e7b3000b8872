#include "api.h"
#include <OpenImageIO/imageio.h>
#include <Imath/half.h>
using namespace mc;

float half_to_float(uint16_t h) { Imath::half x; x.setBits(h); return float(x); }
uint16_t float_to_half(float f) { Imath::half x(f); return x.bits(); }

std::vector<float> Snap::px() const {
    std::vector<float> r; size_t n = size_t(w) * h * nch;
    if (bytes.size() != n * dt_bytes(dt)) fail("pixel buffer has %zu bytes, %d x %d x %d %s needs %zu", bytes.size(), w, h, nch, dt_name(dt), n * dt_bytes(dt));
    r.resize(n);
    for (size_t i = 0; i < n; i++) {
        if (dt == 0) memcpy(&r[i], &bytes[i * 4], 4);
        else if (dt == 1) { uint16_t v; memcpy(&v, &bytes[i * 2], 2); r[i] = half_to_float(v); }
        else if (dt == 2) r[i] = bytes[i] / 255.0f;
        else { uint16_t v; memcpy(&v, &bytes[i * 2], 2); r[i] = v / 65535.0f; }
    }
    return r;
}
static Win win(ocg::BBox2Di b) { return {b.min_x, b.min_y, b.max_x, b.max_y}; }

std::vector<float> deform(ocg::StreamData &s, std::vector<float> pos, Win d, Win w) {
    rust::Slice<float> sl(pos.data(), pos.size());
    transition();
    s.apply_deformers(sl, ocg::BBox2Df{float(d.x0), float(d.y0), float(d.x1), float(d.y1)}, ocg::BBox2Df{float(w.x0), float(w.y0), float(w.x1), float(w.y1)});
    return pos;
}
std::vector<float> color_ops(ocg::StreamData &s, std::vector<float> px, int nch) {
    transition();
    auto box = s.get_box();
    box->apply_color_ops(rust::Slice<float>(px.data(), px.size()), nch);
    s.set_box(std::move(box));
    return px;
}
Snap snap(ocg::StreamData &s, bool probes) {
    Snap r;
    r.state = int(s.state()); r.hash = s.hash();
    r.disp = win(s.display_window()); r.data = win(s.data_window());
    auto spec = s.clone_image_spec();
    r.cs = std::string(spec.color_space); r.gamma = spec.gamma; r.aspect = spec.pixel_aspect;
    r.orient = int(spec.orientation); r.unassoc = spec.unassociated_alpha; r.dither = spec.dither;
    r.ndef = s.deformers_len(); r.nops = s.color_ops_len(); r.opshash = s.color_ops_hash();
    r.w = s.pixel_width(); r.h = s.pixel_height(); r.nch = s.pixel_num_channels(); r.dt = int(s.pixel_data_type());
    auto b = s.pixel_buffer();
    r.bytes.assign(b.data(), b.data() + b.size());
    auto m = s.color_matrix();
    static_assert(sizeof m == 64, "Matrix4");
    r.matrix.resize(16); memcpy(r.matrix.data(), &m, 64);
    if (probes) {
        // fixed probes: positions in and around two windows, and pixels
        std::vector<float> pos;
        for (float x : {-0.25f, 0.0f, 0.3f, 0.5f, 1.0f, 3.7f}) for (float y : {-0.5f, 0.1f, 0.5f, 1.0f, 2.2f}) { pos.push_back(x); pos.push_back(y); pos.push_back(0.625f); }
        r.defprobe = deform(s, pos, {0, 0, 1, 1}, {0, 0, 1, 1});
        auto p2 = deform(s, pos, {0, 0, 8, 5}, {-1, 2, 7, 6});
        r.defprobe.insert(r.defprobe.end(), p2.begin(), p2.end());
        std::vector<float> px;
        for (float v : {0.0f, 0.18f, 0.5f, 1.0f, 1.75f}) { px.push_back(v); px.push_back(v * 0.5f); px.push_back(v * 0.25f + 0.125f); px.push_back(v * 0.5f + 0.25f); }
        r.opprobe = color_ops(s, px, 4);
    }
    return r;
}
static bool same_bits(const std::vector<float> &a, const std::vector<float> &b) {
    return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 4) == 0);
}
std::string diff(const Snap &a, const Snap &b, bool with_hash) {
    if (a.state != b.state) return sfmt("stream state %d vs %d", a.state, b.state);
    if (a.disp != b.disp) return "display window " + a.disp.str() + " vs " + b.disp.str();
    if (a.data != b.data) return "data window " + a.data.str() + " vs " + b.data.str();
    if (a.w != b.w || a.h != b.h || a.nch != b.nch) return sfmt("size %dx%dx%d vs %dx%dx%d", a.w, a.h, a.nch, b.w, b.h, b.nch);
    if (a.dt != b.dt) return sfmt("data type %s vs %s", dt_name(a.dt), dt_name(b.dt));
    if (a.cs != b.cs) return "colour space " + a.cs + " vs " + b.cs;
    if (a.gamma != b.gamma || a.aspect != b.aspect || a.orient != b.orient || a.unassoc != b.unassoc || a.dither != b.dither) return "image metadata differs";
    if (a.nops != b.nops) return sfmt("pending colour operations %zu vs %zu", a.nops, b.nops);
    if (a.ndef != b.ndef) return sfmt("pending deformers %zu vs %zu", a.ndef, b.ndef);
    if (a.bytes != b.bytes) {
        if (a.bytes.size() != b.bytes.size()) return sfmt("pixel bytes %zu vs %zu", a.bytes.size(), b.bytes.size());
        size_t i = 0; while (a.bytes[i] == b.bytes[i]) i++;
        auto pa = a.px(), pb = b.px(); size_t j = i / dt_bytes(a.dt);
        return sfmt("pixel (%zu,%zu) channel %zu: %.9g vs %.9g", j / a.nch % a.w, j / a.nch / a.w, j % a.nch, pa[j], pb[j]);
    }
    if (!same_bits(a.matrix, b.matrix)) return "colour matrix differs";
    if (!same_bits(a.defprobe, b.defprobe)) return "pending deformers move positions differently";
    if (!same_bits(a.opprobe, b.opprobe)) return "pending colour operations differ";
    if (with_hash) {
        if (a.hash != b.hash) return sfmt("hash %llx vs %llx", (unsigned long long)a.hash, (unsigned long long)b.hash);
        if (a.opshash != b.opshash) return sfmt("colour operation hash %llx vs %llx", (unsigned long long)a.opshash, (unsigned long long)b.opshash);
    }
    return "";
}
uint64_t fp(const Snap &s) {
    uint64_t h = fnv(s.bytes.data(), s.bytes.size());
    h = fnv(&s.disp, sizeof s.disp, h); h = fnv(&s.data, sizeof s.data, h);
    h = mix(h, s.w); h = mix(h, s.h); h = mix(h, s.nch); h = mix(h, s.dt); h = mix(h, s.state); h = mix(h, s.ndef); h = mix(h, s.nops);
    h = fnv(s.cs.data(), s.cs.size(), h);
    h = fnv(s.defprobe.data(), s.defprobe.size() * 4, h);
    return fnv(s.opprobe.data(), s.opprobe.size() * 4, h);
}
void write_file(const ImgFile &f, const char *cs) {
    auto out = OIIO::ImageOutput::create(f.path);
    if (!out) fail("cannot create %s", f.path.c_str());
    OIIO::TypeDesc td = f.dt == 0 ? OIIO::TypeDesc::FLOAT : f.dt == 1 ? OIIO::TypeDesc::HALF : f.dt == 2 ? OIIO::TypeDesc::UINT8 : OIIO::TypeDesc::UINT16;
    OIIO::ImageSpec spec(f.data.w(), f.data.h(), f.nch, td);
    spec.x = f.data.x0; spec.y = f.data.y0;
    spec.full_x = f.disp.x0; spec.full_y = f.disp.y0; spec.full_width = f.disp.w(); spec.full_height = f.disp.h();
    if (f.nch == 4) { spec.channelnames = {"R", "G", "B", "A"}; spec.alpha_channel = 3; }
    if (cs) spec.attribute("oiio:ColorSpace", cs);
    if (!out->open(f.path, spec)) fail("open %s: %s", f.path.c_str(), out->geterror().c_str());
    if (!out->write_image(OIIO::TypeDesc::FLOAT, f.px.data())) fail("write %s: %s", f.path.c_str(), out->geterror().c_str());
    out->close();
}
bool load_file(ImgFile &f, std::string *cs) {
    auto in = OIIO::ImageInput::open(f.path);
    if (!in) return false;
    const OIIO::ImageSpec &sp = in->spec();
    f.data = {sp.x, sp.y, sp.x + sp.width, sp.y + sp.height};
    f.disp = {sp.full_x, sp.full_y, sp.full_x + sp.full_width, sp.full_y + sp.full_height};
    f.nch = sp.nchannels;
    f.dt = sp.format == OIIO::TypeDesc::FLOAT ? 0 : sp.format == OIIO::TypeDesc::HALF ? 1 : sp.format == OIIO::TypeDesc::UINT8 ? 2 : sp.format == OIIO::TypeDesc::UINT16 ? 3 : 255;
    if (cs) *cs = sp.get_string_attribute("oiio:ColorSpace", "");
    f.px.resize(size_t(sp.width) * sp.height * sp.nchannels);
    bool ok = in->read_image(0, 0, 0, -1, OIIO::TypeDesc::FLOAT, f.px.data());
    in->close();
    return ok;
}
float pat(int x, int y, int c, int k) {
    // multiples of 1/256 in (0,1), exact in half and float
    unsigned h = unsigned(x + 50) * 37u + unsigned(y + 50) * 101u + unsigned(c) * 59u + unsigned(k) * 83u;
    h ^= h >> 5; h = h * 29u + 7u;
    return (8 + h % 240) / 256.0f;
}
std::vector<float> pattern(Win d, int nch, int k) {
    std::vector<float> r;
    for (int y = d.y0; y < d.y1; y++) for (int x = d.x0; x < d.x1; x++) for (int c = 0; c < nch; c++) r.push_back(pat(x, y, c, k));
    return r;
}
