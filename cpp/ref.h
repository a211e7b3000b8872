// Reference semantics of streams and nodes, written from the documented behaviour in
// double precision and independent of the library's code.
#pragma once
#include "api.h"
#include <ldpk/lens_model.h>

namespace ref {

struct Grade {
    int p[4] = {1, 1, 1, 0};
    int reverse = 0;
    float mix = 1;
    // black, white, lift, gain, multiply, offset, gamma; [param][channel]
    float v[7][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 0, 0}, {1, 1, 1, 1}, {1, 1, 1, 1}, {0, 0, 0, 0}, {1, 1, 1, 1}};
    double one(int c, double x) const;
    void apply(double *px, int nch) const;
};
extern const char *const grade_param[7];

struct Deform {
    bool lens = false;
    int dir = 0;          // lens: 0 undistort, 1 distort; transform: invert
    // transform
    float tx = 0, ty = 0, rot = 0, rcx = 0, rcy = 0, sx = 1, sy = 1, px = 0.5f, py = 0.5f;
    // lens: offset x, y, distortion, squeeze, curvature x, y, quartic
    float lp[7] = {0, 0, 0, 1, 0, 0, 0};
    void apply(Win w, bool inverse, double &x, double &y) const;
    McLens model() const;
};

struct Stream {
    Win disp{0, 0, 4, 4}, data{0, 0, 4, 4};
    int nch = 3, dt = 0;
    std::vector<double> px;
    std::vector<uint8_t> amb;        // per pixel: value not determined (a sampling tie)
    std::vector<uint8_t> skip;       // per value, if present: not judged by compare
    std::string cs = "Linear";
    float gamma = 1, aspect = 1; int unassoc = 0;
    std::vector<Grade> ops;
    std::vector<Deform> defs;
    bool unsupported = false;        // a conversion the library's colour configuration does not have: not judged
    bool placeholder = false;        // untouched placeholder
    double at(int x, int y, int c) const { return px[(size_t(y - data.y0) * data.w() + (x - data.x0)) * nch + c]; }
    uint8_t amb_at(int x, int y) const { return amb[size_t(y - data.y0) * data.w() + (x - data.x0)]; }
};

Stream placeholder();
Stream from_file(const ImgFile &f, const char *cs = "");   // what a reader gives for it

double to_linear(double v);     // sRGB -> linear
double to_srgb(double v);
double curve_to_linear(const std::string &cs, double v);
double curve_from_linear(const std::string &cs, double v);
void convert_cs(Stream &s, const std::string &to);
double quantize(double v, int dt);
void bake(Stream &s, int option, const std::string &to_cs, int to_dt);   // 1 space, 2 +grade, 3 all
extern const Win *window_hint;   // data window of the library's result, used where rounding a bound is a tie
Stream crop(Stream s, Win w, bool reformat, bool black_outside);
Stream merge(Stream a, Stream b, int mode, double mix);

// Compare a library result with the reference. Pixel tolerance is absolute+relative for floats
// and `codes` code values for integers.
struct Tol { double abs = 2e-5, rel = 5e-5; int codes = 0; bool meta = true; };
std::string compare(const Snap &got, const Stream &want, Tol t = Tol(), ocg::StreamData *live = nullptr);

// Set the attributes of library nodes from the reference parameters.
Node make_grade(G &g, const Grade &p);
Node make_transform(G &g, const Deform &d);
Node make_lens(G &g, const Deform &d);
}
