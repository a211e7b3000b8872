// The substitute lens model: every parameter has its own visible effect, it is
// invertible in closed form. Shared by the stand-in plug-in and the oracle.
#pragma once
struct McLens {
    // index: see mc_lens_names
    double p[11];
    static const char *const *names() {
        static const char *const n[11] = {
            "tde4_focal_length_cm", "tde4_filmback_width_cm", "tde4_filmback_height_cm",
            "tde4_pixel_aspect", "tde4_lens_center_offset_x_cm", "tde4_lens_center_offset_y_cm",
            "Distortion", "Anamorphic Squeeze", "Curvature X", "Curvature Y",
            "Quartic Distortion"};
        return n;
    }
    // What a plug-in uses for parameters nobody set; differs from every value
    // the library passes, so that a forgotten parameter shows.
    static McLens unset() {
        McLens m = {{5.0, 1.9, 1.3, 2.0, 0.7, 0.9, 0.35, 1.6, 0.45, 0.55, 0.65}};
        return m;
    }
    double kx() const { return (p[0] / 3.0) * (p[7] + p[6] + 0.5 * p[8]); }
    double ky() const { return p[3] * (1.0 + p[6] + 0.25 * p[9]); }
    double sh() const { return 0.125 * p[10]; }
    double ox() const { return p[4] / p[1]; }
    double oy() const { return p[5] / p[2]; }
    void undistort(double x, double y, double &ox_, double &oy_) const {
        double u = x - 0.5, v = y - 0.5;
        ox_ = 0.5 + ox() + kx() * u + sh() * v;
        oy_ = 0.5 + oy() + ky() * v;
    }
    void distort(double x, double y, double &ox_, double &oy_) const {
        double v = (y - 0.5 - oy()) / ky();
        ox_ = 0.5 + (x - 0.5 - ox() - sh() * v) / kx();
        oy_ = 0.5 + v;
    }
    void bbox(bool undist, double xa, double ya, double xb, double yb,
              double &xao, double &yao, double &xbo, double &ybo) const {
        for (int i = 0; i < 4; i++) {
            double x = (i & 1) ? xb : xa, y = (i & 2) ? yb : ya, X, Y;
            if (undist) undistort(x, y, X, Y); else distort(x, y, X, Y);
            if (i == 0) { xao = xbo = X; yao = ybo = Y; }
            if (X < xao) xao = X;
            if (X > xbo) xbo = X;
            if (Y < yao) yao = Y;
            if (Y > ybo) ybo = Y;
        }
    }
};
