// Environment model of the GSL functions used by the repository.
#ifndef SYMX_GSL_STUB
#define SYMX_GSL_STUB
#include <cstddef>
#include "../../symreal.hpp"
#define GSL_VERSION "symx"
typedef struct { SymReal val; SymReal err; } gsl_sf_result;
typedef struct { int unused; } gsl_interp_accel;
typedef struct { int unused; } gsl_interp_type;
static const gsl_interp_type gsl_interp_cspline_ = {0};
static const gsl_interp_type* const gsl_interp_cspline = &gsl_interp_cspline_;
typedef struct { SymReal* x; SymReal* y; size_t size; int kind; gsl_interp_accel* acc; } gsl_spline;
SymReal gsl_sf_bessel_jl(int l, SymReal x);
SymReal gsl_sf_coupling_3j(int, int, int, int, int, int);
SymReal gsl_sf_legendre_sphPlm(int l, int m, SymReal x);
SymReal gsl_sf_legendre_Pl(int l, SymReal x);
int gsl_sf_lngamma_complex_e(SymReal x, SymReal y, gsl_sf_result* lnr, gsl_sf_result* arg);
inline gsl_interp_accel* gsl_interp_accel_alloc() { return new gsl_interp_accel(); }
inline void gsl_interp_accel_free(gsl_interp_accel* a) { delete a; }
gsl_spline* gsl_spline_alloc(const gsl_interp_type*, size_t n);
int gsl_spline_init(gsl_spline* s, const SymReal* x, const SymReal* y, size_t n);
SymReal gsl_spline_eval(const gsl_spline* s, SymReal x, gsl_interp_accel* a);
void gsl_spline_free(gsl_spline* s);
#endif
