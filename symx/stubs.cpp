#include <map>
#include "engine.hpp"
#include "stubs/fftw3.h"
#include "stubs/gsl/gsl_stub.hpp"
namespace symx { double real_3j(int,int,int,int,int,int); std::string uf_name_of(PolyId p, PolyId arg); 
fftw_plan fftw_mk(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  symx_fftw_plan* p = new symx_fftw_plan(); p->rank = rank; long tot = 1; for (int i = 0; i < 3; i++) { p->n[i] = i < rank ? n[i] : 1; tot *= p->n[i]; }
  p->in = in; p->out = out; p->sign = sign; p->flags = flags; p->alive = true; fftw_live++;
  if (!(flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY))) { memset((void*)in, 0x7f, sizeof(fftw_complex) * tot); memset((void*)out, 0x7f, sizeof(fftw_complex) * tot); }
  return p; }
static void dft_axis(std::vector<PolyId>& re, std::vector<PolyId>& im, const int* n, int axis, int sign) {
  int N = n[axis]; if (N == 1) return; long stride = 1; for (int a = 2; a > axis; a--) stride *= n[a];
  long tot = (long)n[0] * n[1] * n[2];
  std::vector<PolyId> c(N), s(N); for (int k = 0; k < N; k++) { PolyId th = p_div(p_mul(p_int(2 * k), p_pi()), p_int(N)); c[k] = p_cos(th); s[k] = p_sin(th); if (sign < 0) s[k] = p_neg(s[k]); }
  std::vector<PolyId> xr(N), xi(N);
  for (long base = 0; base < tot; base++) { if ((base / stride) % N) continue;
    for (int k = 0; k < N; k++) { PolyId ar = 0, ai = 0;
      for (int j = 0; j < N; j++) { long ix = base + j * stride; int t = (int)(((long)j * k) % N);
        ar = p_add(ar, p_sub(p_mul(re[ix], c[t]), p_mul(im[ix], s[t]))); ai = p_add(ai, p_add(p_mul(re[ix], s[t]), p_mul(im[ix], c[t]))); }
      xr[k] = ar; xi[k] = ai; }
    for (int k = 0; k < N; k++) { re[base + k * stride] = xr[k]; im[base + k * stride] = xi[k]; } } }
void fftw_run(const symx_fftw_plan* p, fftw_complex* in, fftw_complex* out) {
  if (!p || !p->alive) { h_true("fftw-plan-valid", false); throw PathAbort("dead plan"); }
  if ((p->in == p->out) != (in == out)) h_true("fftw-execute-inplaceness", false);
  long tot = (long)p->n[0] * p->n[1] * p->n[2]; std::vector<PolyId> re(tot), im(tot);
  for (long i = 0; i < tot; i++) { re[i] = in[i][0].id(); im[i] = in[i][1].id(); }
  for (int a = 0; a < 3; a++) dft_axis(re, im, p->n, a, p->sign);
  for (long i = 0; i < tot; i++) { out[i][0] = SymReal::mk(re[i]); out[i][1] = SymReal::mk(im[i]); } }
}
using namespace symx;
SymReal gsl_sf_bessel_jl(int l, SymReal x) {
  if (x.id() == 0) return SymReal(l == 0 ? 1 : 0);
  return SymReal::mk(p_uf(("jl" + std::to_string(l)).c_str(), {x.id()})); }
SymReal gsl_sf_coupling_3j(int a, int b, int c, int d, int e, int f) { return SymReal::mk(p_j3(real_3j(a, b, c, d, e, f))); }
SymReal gsl_sf_legendre_sphPlm(int l, int m, SymReal x) {
  SymReal s = std::sqrt(SymReal(1) - x * x), pmm(1); for (int i = 1; i <= m; i++) pmm = -pmm * SymReal(2*i - 1) * s;
  SymReal p = pmm; if (l > m) { SymReal p1 = x * SymReal(2*m + 1) * pmm, p0 = pmm; p = p1;
    for (int k = m + 2; k <= l; k++) { p = (SymReal(2*k - 1) * x * p1 - SymReal(k + m - 1) * p0) / SymReal(k - m); p0 = p1; p1 = p; } }
  SymReal n = SymReal(2*l + 1) / (SymReal(4) * SYM_PI); for (int k = l - m + 1; k <= l + m; k++) n /= SymReal(k);
  return p * std::sqrt(n); }
SymReal gsl_sf_legendre_Pl(int l, SymReal x) { SymReal p0(1), p1 = x; if (l == 0) return p0; for (int k = 2; k <= l; k++) { SymReal p = (SymReal(2*k - 1) * x * p1 - SymReal(k - 1) * p0) / SymReal(k); p0 = p1; p1 = p; } return p1; }
// log-gamma as an uninterpreted function of (x, y) with numeric values at concrete arguments;
// known facts: conjugation in y, real and positive on the positive axis
int gsl_sf_lngamma_complex_e(SymReal x, SymReal y, gsl_sf_result* lnr, gsl_sf_result* arg) {
  lnr->err = arg->err = SymReal(0); bool neg = y.id() != 0 && p_isconst(y.id()) && p_approx(y.id()) < 0; if (neg) y = -y;
  lnr->val = SymReal::mk(p_uf("lngamma_r", {x.id(), y.id()}));
  if (y.id() == 0 && x > SymReal(0)) arg->val = SymReal(0);
  else { arg->val = SymReal::mk(p_uf("lngamma_t", {x.id(), y.id()})); if (neg) arg->val = -arg->val; }
  return 0; }
gsl_spline* gsl_spline_alloc(const gsl_interp_type*, size_t n) { gsl_spline* s = new gsl_spline(); s->x = new SymReal[n]; s->y = new SymReal[n]; s->size = n; s->kind = -1; s->acc = nullptr; return s; }
int gsl_spline_init(gsl_spline* s, const SymReal* x, const SymReal* y, size_t n) {
  if (n != s->size) h_true("gsl-spline-size", false);
  for (size_t i = 0; i < n; i++) { s->x[i] = x[i]; s->y[i] = y[i]; }
  std::string nm = uf_name_of(y[n/2].id(), x[n/2].id()); int kind = -1;
  if (nm.rfind("jl", 0) == 0) { kind = atoi(nm.c_str() + 2);
    for (size_t i = 0; i < n && kind >= 0; i++) if (gsl_sf_bessel_jl(kind, x[i]).id() != y[i].id()) kind = -1; }
  if (kind < 0) throw EngineError("gsl_spline over an unrecognised table");
  s->kind = kind; return 0; }
SymReal gsl_spline_eval(const gsl_spline* s, SymReal x, gsl_interp_accel*) { if (s->kind < 0) throw EngineError("spline not initialised"); return gsl_sf_bessel_jl(s->kind, x); }
void gsl_spline_free(gsl_spline* s) { delete[] s->x; delete[] s->y; delete s; }
#include "symx_prelude.hpp"
