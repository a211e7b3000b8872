#pragma once
#include <cstring>
#include "tde4_ld_plugin.h"
#include "lens_model.h"
template <class V, class M>
class tde4_ldp_classic_3de_mixed : public tde4_ld_plugin {
    McLens set_, use_;
    bool ready_;
    int find(const char *n) const {
        for (int i = 0; i < 11; i++) if (!strcmp(n, McLens::names()[i])) return i;
        return -1;
    }
public:
    tde4_ldp_classic_3de_mixed() : set_(McLens::unset()), use_(McLens::unset()), ready_(false) {}
    bool getModelName(char *name) override { strcpy(name, "3DE4 Anamorphic - stand-in"); return true; }
    bool getNumParameters(int &n) override { n = 5; return true; }
    bool getParameterName(int i, char *id) override {
        if (i < 0 || i >= 5) return false;
        strcpy(id, McLens::names()[6 + i]);
        return true;
    }
    bool getParameterType(const char *id, tde4_ldp_ptype &t) override {
        t = TDE4_LDP_ADJUSTABLE_DOUBLE;
        return find(id) >= 6;
    }
    bool getParameterDefaultValue(const char *id, double &v) override {
        int i = find(id);
        v = i == 7 ? 1.0 : 0.0;
        return i >= 6;
    }
    bool getParameterRange(const char *id, double &a, double &b) override {
        a = -1; b = 1;
        return find(id) >= 6;
    }
    bool setParameterValue(const char *id, double v) override {
        int i = find(id);
        if (i < 0) return false;
        set_.p[i] = v;
        return true;
    }
    bool initializeParameters() override { use_ = set_; ready_ = true; return true; }
    bool undistort(double x0, double y0, double &x1, double &y1) override {
        use_.undistort(x0, y0, x1, y1);
        return true;
    }
    bool distort(double x0, double y0, double &x1, double &y1) override {
        use_.distort(x0, y0, x1, y1);
        return true;
    }
    bool distort(double x0, double y0, double, double, double &x1, double &y1) override {
        use_.distort(x0, y0, x1, y1);
        return true;
    }
    void getBoundingBoxUndistort(double xa, double ya, double xb, double yb, double &xao, double &yao,
                                 double &xbo, double &ybo, int, int) override {
        use_.bbox(true, xa, ya, xb, yb, xao, yao, xbo, ybo);
    }
    void getBoundingBoxDistort(double xa, double ya, double xb, double yb, double &xao, double &yao,
                               double &xbo, double &ybo, int, int) override {
        use_.bbox(false, xa, ya, xb, yb, xao, yao, xbo, ybo);
    }
};
