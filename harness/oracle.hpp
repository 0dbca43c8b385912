// Independent reference definitions shared by the harnesses.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include "harness.hpp"
namespace orc {
inline int sidx(int i, int n) { return 2 * i < n ? i : i - n; }   // signed frequency / separation index
inline real ratio(long a, long b) { return real((int)a) / real((int)b); }
// Coefficients over 2^l: P_l(x) = 2^-l sum_k (-1)^k C(l,k) C(2l-2k,l) x^{l-2k}
inline long binom(int n, int k) { long r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
// d^m P_l/dx^m evaluated at x
inline real dlegendre(int l, int m, const real& x) {
  real s(0); long p2 = 1L << l;
  for (int k = 0; 2 * k <= l; k++) { int e = l - 2 * k; if (e < m) continue; long c = binom(l, k) * binom(2 * l - 2 * k, l) * (k % 2 ? -1 : 1); for (int i = 0; i < m; i++) c *= (e - i);
    real t = ratio(c, p2); for (int i = 0; i < e - m; i++) t = t * x; s = s + t; }
  return s; }
// y_lm(v) = sqrt(4pi/(2l+1)) conj(Y_lm(v)), Condon-Shortley phase; zero vector -> 0 unless l = 0
inline cplx ylm(int l, int m, const real& x, const real& y, const real& z, const real& r) {
  if (l == 0) return cplx(real(1), real(0));
  int am = m < 0 ? -m : m; real n(1); for (int k = l - am + 1; k <= l + am; k++) n = n * real(k);
  real q = dlegendre(l, am, z / r) / std::sqrt(n);   // sqrt((l-m)!/(l+m)!)
  real a(1), b(0); for (int i = 0; i < am; i++) { real c = (a * x - b * y) / r, d = (a * y + b * x) / r; a = c; b = d; }
  // Y_{l,am} ~ (-1)^am q (a + ib); reduced and conjugated
  real sg(am % 2 ? -1 : 1); cplx Y(sg * q * a, sg * q * b);
  if (m >= 0) return cplx(Y.real(), -Y.imag());
  real s2(am % 2 ? -1 : 1); return cplx(s2 * Y.real(), s2 * Y.imag()); }
inline cplx ylm0(int l, int m, int i, int j, int k, const real d[3]) {
  if (l == 0) return cplx(real(1), real(0)); if (!i && !j && !k) return cplx(real(0), real(0));
  real x = real(i) * d[0], y = real(j) * d[1], z = real(k) * d[2]; return ylm(l, m, x, y, z, std::sqrt(x * x + y * y + z * z)); }
// 3-D DFT by the definition, sign = -1 forward (exp(-i k.x))
inline void dft(const int n[3], const std::vector<cplx>& in, std::vector<cplx>& out, int sign) {
  long tot = (long)n[0] * n[1] * n[2]; std::vector<cplx> cur = in; out.assign(tot, cplx(real(0), real(0)));
  for (int ax = 0; ax < 3; ax++) { long st = 1; for (int a = 2; a > ax; a--) st *= n[a]; int N = n[ax]; std::vector<real> c(N), s(N);
    for (int t = 0; t < N; t++) { real th = real(2 * t) * H::pi() / real(N); c[t] = std::cos(th); s[t] = real(sign) * std::sin(th); }
    for (long b = 0; b < tot; b++) { if ((b / st) % N) continue; for (int k = 0; k < N; k++) { real re(0), im(0);
      for (int j = 0; j < N; j++) { int t = (j * k) % N; const cplx& v = cur[b + j * st]; re = re + v.real() * c[t] - v.imag() * s[t]; im = im + v.real() * s[t] + v.imag() * c[t]; }
      out[b + k * st] = cplx(re, im); } }
    cur = out; } }
inline real sinc_win(int i, int n, int order) { if (i == 0) return real(1); real u = H::pi() * real(i) / real(n); real w = std::sin(u) / u; real r(1); for (int k = 0; k < order; k++) r = r * w; return r; }
inline real win3(const int n[3], int i, int j, int k, int order) { return sinc_win(sidx(i, n[0]), n[0], order) * sinc_win(sidx(j, n[1]), n[1], order) * sinc_win(sidx(k, n[2]), n[2], order); }
// 1-D periodic B-spline assignment weights
inline void kern(int order, real loc, int n, std::vector<real>& w) {
  w.assign(n, real(0)); real half = H::rl("1/2");
  bool odd = order % 2 == 1; int f = (int)(long long)std::floor(odd ? loc + half : loc); real s = loc - real(f); real o = real(1);
  auto add = [&](int g, real v) { int m = ((g % n) + n) % n; w[m] = w[m] + v; };
  if (order == 1) add(f, o);
  else if (order == 2) { add(f, o - s); add(f + 1, s); }
  else if (order == 3) { add(f - 1, (half - s) * (half - s) / real(2)); add(f, H::rl("3/4") - s * s); add(f + 1, (half + s) * (half + s) / real(2)); }
  else { real t = o - s;
    add(f - 1, t * t * t / real(6)); add(f, (real(4) - real(6) * s * s + real(3) * s * s * s) / real(6));
    add(f + 1, (real(4) - real(6) * t * t + real(3) * t * t * t) / real(6)); add(f + 2, s * s * s / real(6)); } }
}
#endif
