// C16: logarithmic Hankel transform and spherical Bessel transform of the core.
#include "harness.hpp"
#include "arrayops.hpp"
#include "fftlog.hpp"
#include <gsl/gsl_sf_gamma.h>
namespace A = trv::array; namespace M = trv::maths;
static real num_or_var(const char* nm, const char* lo, const char* hi) { std::string s = H::cfg(nm, "sym"); return s == "sym" ? H::var(nm, lo, hi) : H::rl(s.c_str()); }
static real pw(real x, int n) { real r(1); for (int i = 0; i < n; i++) r = r * x; return r; }
static void lg(real x, real y, real& l, real& t) { gsl_sf_result a, b; gsl_sf_lngamma_complex_e(x, y, &a, &b); l = a.val; t = b.val; }
// multiplier of harmonic m of a log-periodic sequence of nt points spaced by dl
static cplx mult(real mu, real q, int nt, real dl, real kr, int m) {
  real w = real(m) * H::pi() / (real(nt) * dl), lp, tp, lm, tm; lg((mu + real(1) + q) / real(2), w, lp, tp); lg((mu + real(1) - q) / real(2), w, lm, tm);
  real amp = std::exp(q * std::log(real(2)) + lp - lm), ph = tp + tm - real(2) * w * std::log(kr / real(2)); return cplx(amp * std::cos(ph), amp * std::sin(ph)); }
// real response of output sample s for a unit input sample: K[(j+k) mod nt]
static std::vector<real> response(real mu, real q, int nt, real dl, real kr) {
  std::vector<real> K(nt, real(0)); for (int m = 0; 2 * m <= nt; m++) { cplx u = mult(mu, q, nt, dl, kr, m); bool edge = m == 0 || 2 * m == nt;
    for (int s = 0; s < nt; s++) { real th = real(2 * m * s) * H::pi() / real(nt), c = std::cos(th), d = std::sin(th); real v = edge ? u.real() * c : real(2) * (u.real() * c + u.imag() * d); K[s] = K[s] + v / real(nt); } }
  return K; }
static std::vector<cplx> expect(const std::vector<real>& K, const std::vector<cplx>& a, int ne) { int nt = K.size(), n = nt - 2 * ne; std::vector<cplx> b; for (int j = 0; j < n; j++) { real re(0), im(0); for (int k = 0; k < nt; k++) { re = re + K[(j + ne + k) % nt] * a[k].real(); im = im + K[(j + ne + k) % nt] * a[k].imag(); } b.push_back(cplx(re, im)); } return b; }
static std::vector<cplx> extend(const std::vector<cplx>& a, int ne, int ex) { std::vector<cplx> r; int n = a.size(); auto re = [&](int i) { return a[i].real(); };
  for (int j = ne; j > 0; j--) r.push_back(ex == 1 ? cplx(0, 0) : ex == 2 ? cplx(re(0), real(0)) : ex == 3 ? cplx(re(0) - real(j) * (re(1) - re(0)), real(0)) : cplx(re(0) * pw(re(0) / re(1), j), real(0)));
  for (auto& v : a) r.push_back(v);
  for (int j = 1; j <= ne; j++) r.push_back(ex == 1 ? cplx(0, 0) : ex == 2 ? cplx(re(n-1), real(0)) : ex == 3 ? cplx(re(n-1) + real(j) * (re(n-1) - re(n-2)), real(0)) : cplx(re(n-1) * pw(re(n-1) / re(n-2), j), real(0)));
  return r; }
static std::vector<cplx> samples(int n, bool im, bool pos, const char* nm = "a") { std::vector<cplx> a; for (int i = 0; i < n; i++) { std::string k = nm + std::to_string(i); real r = H::var(k, pos ? "1/8" : "-8", "8"), c(0); if (im) c = H::var(k + "i", "-8", "8"); a.push_back(cplx(r, c)); } return a; }
static std::vector<real> points(int n) { real a0 = H::rl(H::cfg("a0", "1/4").c_str()), r = H::rl(H::cfg("ratio", "2").c_str()); std::vector<real> x; for (int i = 0; i < n; i++) x.push_back(a0 * pw(r, i)); return x; }
static void same(const char* l, const std::vector<cplx>& a, const std::vector<cplx>& b) { H::truth(std::string(l) + "_size", a.size() == b.size()); for (size_t i = 0; i < b.size() && i < a.size(); i++) H::eqc(H::ix(l, i), a[i], b[i]); }
static bool ok(std::function<void()> f) { try { f(); return true; } catch (std::exception&) { return false; } }
void harness() {
  std::string op = H::cfg("op", "hankel"); int n = H::cfgi("n", 4), ex = H::cfgi("extrap", 0), low = H::cfgi("lowring", 0); real fac = H::rl(H::cfg("factor", "2").c_str()); bool im = H::cfgi("im", 0);
  if (op == "reject") {
    auto pts = points(4); auto init = [&](std::vector<real> p, real kr, bool lr, int e, real f) { return ok([&] { M::HankelTransform h(real(1) / real(2), real(0), false); h.initialise(p, kr, lr, e, f); }); };
    real v = H::var("v", "1/4", "4"); H::obs("v", v);
    H::truth("good", init(pts, v, false, 0, real(2)) && init(pts, v, false, 1, real(2)));
    H::truth("few", !init({real(1)}, v, false, 0, real(2)) && !init({}, v, false, 0, real(2)));
    H::truth("linear_points", !init({real(1), real(2), real(3), real(4)}, v, false, 0, real(2)));
    H::truth("pivot", !init(pts, -v, false, 0, real(2)) && !init(pts, real(0), false, 0, real(2)));
    H::truth("odd_extrapolated", !init(points(5), v, false, 1, real(2)) && init(points(5), v, false, 0, real(2)));
    H::truth("shrunk", !init(points(8), v, false, 2, real(1) / real(4)));
    H::truth("option", !ok([&] { M::HankelTransform h(real(1) / real(2), real(0), false); h.initialise(pts, v, false, 7, real(2)); cplx a[4] = {v, v, v, v}, b[4]; h.biased_transform(a, b); }));
    for (int e : {0, 1}) H::truth("poles", !ok([&] { M::HankelTransform h(real(-1), real(-e), false); }) && !ok([&] { M::HankelTransform h(real(-1), real(e), false); }) && !ok([&] { M::HankelTransform h(real(1) / real(2), real(5) / real(2), false); }) && ok([&] { M::HankelTransform h(real(1) / real(2), real(1), false); }));
    H::truth("unset", !ok([&] { M::HankelTransform h(real(1) / real(2), real(0), false); cplx a[4] = {v, v, v, v}, b[4]; h.biased_transform(a, b); }));
    H::truth("size", !ok([&] { M::SphericalBesselTransform s(1, 0, false); s.initialise(pts, v, false, 0, real(2)); std::vector<cplx> a(3, cplx(v, real(0))), b; s.biased_transform(a, b); }));
    for (int d : {-2, 0, 2, 3}) H::truth("direction", !ok([&] { M::SphericalBesselTransform s(1, 0, false); s.initialise(pts, v, false, 0, real(2)); std::vector<cplx> a(4, cplx(v, real(0))), b; s.transform_cosmological_multipole(d, a, b); }));
    return; }
  std::vector<real> x = points(n); real dl = std::log(H::rl(H::cfg("ratio", "2").c_str())), ratio = H::rl(H::cfg("ratio", "2").c_str());
  int nt = n, ne = 0; if (ex) { nt = 1; while (real(nt) < fac * real(n)) nt *= 2; ne = (nt - n) / 2; }
  std::vector<cplx> a = samples(n, im, ex == 4), a0 = a, ax = extend(a0, ne, ex);
  bool sb = op == "sbt"; int ell = H::cfgi("ell", 0), nb = H::cfgi("bias", 0); real mu = sb ? real(ell) + real(1) / real(2) : num_or_var("mu", "1/4", "3"), q = sb ? real(nb) : num_or_var("q", H::cfgi("qneg", 0) ? "-1" : "1/8", H::cfgi("qneg", 0) ? "-1/8" : "1"), kr = num_or_var("kr", "1/4", "4"); if (!sb) { H::assume(q < mu + H::rl("7/8")); H::assume(-q < mu + H::rl("7/8")); }
  auto pointsok = [&](M::HankelTransform& h, real p) { H::truth("counts", h.nsamp == n && h.nsamp_trans == nt && h.n_ext == ne && (int)h.post_sampts.size() == n && (int)h.pre_sampts.size() == n);
    for (int j = 0; j < n; j++) { H::eq(H::ix("output_point", j), h.post_sampts[j] * x[n-1-j] * ratio, p); H::eq(H::ix("input_point", j), h.pre_sampts[j], x[j]); }
    if (ex) { H::truth("extended_counts", (int)h.pre_sampts_extrap.size() == nt && (int)h.post_sampts_extrap.size() == nt); for (int j = 0; j < nt; j++) { real e = x[0] * pw(ratio, j) / pw(ratio, ne); H::eq(H::ix("extended_input", j), h.pre_sampts_extrap[j], e); H::eq(H::ix("extended_output", j), h.post_sampts_extrap[nt-1-j] * e * ratio, p); } } };
  auto pivotok = [&](M::HankelTransform& h) { real p = h.pivot; if (!low) { H::eq("pivot", p, kr); return p; }
    if (kr > real(0)) { H::le("pivot_low", -dl / real(2) - H::rl("1e-9"), std::log(p / kr)); H::le("pivot_high", std::log(p / kr), dl / real(2) + H::rl("1e-9")); } else { H::le("pivot_low", real(1) - H::rl("1e-9"), p); H::le("pivot_high", p, ratio + H::rl("1e-9")); }
    real w = H::pi() / (real(2) * dl), lp, tp, lm, tm; lg((mu + real(1) + q) / real(2), w, lp, tp); lg((mu + real(1) - q) / real(2), w, lm, tm); real lr = std::sin(tp + tm - real(2) * w * std::log(p / real(2))); H::le("low_ringing", lr, H::rl("1e-9")); H::le("low_ringing", -lr, H::rl("1e-9")); return p; };
  if (!sb) {
    M::HankelTransform h(mu, q, false); if (H::cfgi("twice", 0)) { std::vector<real> y = points(n + 2); for (auto& v : y) v = v * real(3); h.initialise(y, kr * real(2), false, 1, real(2)); }
    h.initialise(x, kr, low, ex, fac); real p = pivotok(h); pointsok(h, p);
    std::vector<real> K = response(mu, q, nt, dl, p); std::vector<cplx> b(n, cplx(real(77), real(77))), want = expect(K, ax, ne);
    H::truth("multipliers", (int)h.kernel.size() == nt);
    for (int m = 0; m < nt; m++) { cplx u = mult(mu, q, nt, dl, p, 2 * m > nt ? nt - m : m); H::eq(H::ix("multiplier_re", m), h.kernel[m].real(), u.real()); H::eq(H::ix("multiplier_im", m), h.kernel[m].imag(), 2 * m == nt ? real(0) : 2 * m > nt ? -u.imag() : u.imag()); }
    h.biased_transform(a.data(), b.data()); same("transform", b, want); same("input_kept", a, a0); if (!im) for (int j = 0; j < n; j++) H::eq(H::ix("real", j), b[j].imag(), real(0));
    if (H::cfgi("again", 1)) { std::vector<cplx> c = samples(n, im, ex == 4, "c"), d(n), e(n); h.biased_transform(c.data(), d.data()); h.biased_transform(a.data(), e.data()); same("repeat", e, want); same("other", d, expect(K, extend(c, ne, ex), ne)); }
    if (H::cfgi("back", 0)) { M::HankelTransform g(mu, -q, false); g.initialise(h.post_sampts, p, false, 0, real(2)); for (int j = 0; j < n; j++) H::eq(H::ix("returned_point", j), g.post_sampts[j], x[j]); std::vector<cplx> d(n); g.biased_transform(b.data(), d.data()); same("returned", d, a0); }
  } else {
    M::SphericalBesselTransform s(ell, nb, false); s.initialise(x, kr, low, ex, fac); real p = pivotok(s); pointsok(s, p);
    std::vector<real> K = response(mu, q, nt, dl, p); auto root3 = [&](real v) { return v * std::sqrt(v); };
    std::vector<cplx> in = a0; for (int j = 0; j < n; j++) in[j] = cplx(a0[j].real() * root3(x[j]), a0[j].imag() * root3(x[j])); std::vector<cplx> w = expect(K, extend(in, ne, ex), ne);
    for (int j = 0; j < n; j++) { real k = p / (x[n-1-j] * ratio), f = root3(real(2) * H::pi() / k); w[j] = cplx(w[j].real() * f, w[j].imag() * f); }
    std::vector<cplx> b; if (H::cfgi("sized", 0)) b.assign(n + 3, cplx(real(5), real(5))); s.biased_transform(a, b); same("transform", b, w); same("input_kept", a, a0);
    for (int dir : {1, -1}) { std::vector<cplx> c, u = w; real f = dir > 0 ? real(1) : real(1) / (real(8) * H::pi() * H::pi() * H::pi()); int t = ((dir > 0 ? -ell : ell) % 4 + 4) % 4;   // (-i)^l forward, i^l backward
      for (auto& v : u) { real r = v.real() * f, i = v.imag() * f; v = t == 0 ? cplx(r, i) : t == 1 ? cplx(-i, r) : t == 2 ? cplx(-r, -i) : cplx(i, -r); }
      s.transform_cosmological_multipole(dir, a, c); same(dir > 0 ? "forward" : "backward", c, u); same("input_kept", a, a0);
      if (H::cfgi("back", 0)) { M::SphericalBesselTransform g(ell, nb, false); g.initialise(s.post_sampts, p, false, 0, real(2)); std::vector<cplx> d; g.transform_cosmological_multipole(-dir, c, d); same("returned", d, a0); } }
  }
}
