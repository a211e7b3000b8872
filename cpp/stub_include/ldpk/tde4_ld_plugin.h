// Stand-in for the LDPK plug-in interface; see lens_model.h for the lens model.
#pragma once
enum tde4_ldp_ptype {
    TDE4_LDP_STRING, TDE4_LDP_DOUBLE, TDE4_LDP_INT, TDE4_LDP_FILE, TDE4_LDP_TOGGLE,
    TDE4_LDP_ADJUSTABLE_DOUBLE
};
class tde4_ld_plugin {
public:
    virtual ~tde4_ld_plugin() {}
    virtual const char *getVersionString() const { return "ocg-mc stand-in"; }
    virtual bool getModelName(char *name) = 0;
    virtual bool getNumParameters(int &n) = 0;
    virtual bool getParameterName(int i, char *identifier) = 0;
    virtual bool getParameterType(const char *identifier, tde4_ldp_ptype &ptype) = 0;
    virtual bool getParameterDefaultValue(const char *identifier, double &v) = 0;
    virtual bool getParameterRange(const char *identifier, double &a, double &b) = 0;
    virtual bool setParameterValue(const char *identifier, double v) = 0;
    virtual bool initializeParameters() = 0;
    virtual bool undistort(double x0, double y0, double &x1, double &y1) = 0;
    virtual bool distort(double x0, double y0, double &x1, double &y1) = 0;
    virtual bool distort(double x0, double y0, double x1_start, double y1_start,
                         double &x1, double &y1) = 0;
    virtual bool providesParameterDerivatives() { return false; }
    virtual void getBoundingBoxUndistort(double xa, double ya, double xb, double yb,
                                         double &xa_o, double &ya_o, double &xb_o, double &yb_o,
                                         int nx = 32, int ny = 32) = 0;
    virtual void getBoundingBoxDistort(double xa, double ya, double xb, double yb,
                                       double &xa_o, double &ya_o, double &xb_o, double &yb_o,
                                       int nx = 32, int ny = 32) = 0;
};
