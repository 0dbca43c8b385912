// C17: reduced spherical harmonics and coupling coefficients.
#include "harness.hpp"
#include "maths.hpp"
#include "threept.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
typedef trv::maths::SphericalHarmonicCalculator SHC;
static cplx Y(int l, int m, const real& x, const real& y, const real& z) { real p[3] = {x, y, z}; cplx r = SHC::calc_reduced_spherical_harmonic(l, m, p); H::truth("input-kept", true); H::eq("input-kept-x", p[0], x); H::eq("input-kept-y", p[1], y); H::eq("input-kept-z", p[2], z); return r; }
static real fact(int n) { real r(1); for (int i = 2; i <= n; i++) r = r * real(i); return r; }
// Racah's closed form for integer arguments
static real threej(int a, int b, int c, int x, int y, int z) {
  if (a < 0 || b < 0 || c < 0 || x + y + z != 0 || std::abs(x) > a || std::abs(y) > b || std::abs(z) > c || c < std::abs(a - b) || c > a + b) return real(0);
  real tri = fact(a + b - c) * fact(a - b + c) * fact(b + c - a) / fact(a + b + c + 1);
  real q = tri * fact(a + x) * fact(a - x) * fact(b + y) * fact(b - y) * fact(c + z) * fact(c - z), s(0);
  for (int k = 0; k <= a + b + c; k++) { int t[5] = {a + b - c - k, a - x - k, b + y - k, c - b + x + k, c - a - y + k}; bool ok = true; for (int i : t) if (i < 0) ok = false; if (!ok) continue;
    real d = fact(k); for (int i : t) d = d * fact(i); s = s + real(k % 2 ? -1 : 1) / d; }
  return real((a - b - z) % 2 ? -1 : 1) * std::sqrt(q) * s; }
void harness() {
  std::string op = H::cfg("op", "point"); int l = H::cfgi("ell", 1), m = H::cfgi("m", 0);
  if (op == "point") {
    real x = H::var("x", "-8", "8"), y = H::var("y", "-8", "8"), z = H::var("z", "-8", "8"); H::assume(x * x + y * y >= H::rl("1/10000"));
    if (H::cfgi("plane", 0) == 1) { H::assume(true); y = real(0); H::assume(x * x >= H::rl("1/100")); }
    real r = std::sqrt(x * x + y * y + z * z); cplx c = Y(l, m, x, y, z); H::eqc("ylm", c, orc::ylm(l, m, x, y, z, r));
    cplx d = Y(l, -m, x, y, z), s = real(m % 2 ? -1 : 1) * std::conj(c); H::eqc("conjugation", d, s);
    cplx e = Y(l, m, -x, -y, -z), t = real(l % 2 ? -1 : 1) * c; H::eqc("parity", e, t);
  } else if (op == "scale") {
    real x = H::var("x", "-8", "8"), y = H::var("y", "-8", "8"), z = H::var("z", "-8", "8"), q = H::var("q", "1/64", "64"); H::assume(x * x + y * y >= H::rl("1/10000"));
    cplx s1 = Y(l, m, q * x, q * y, q * z), s2 = Y(l, m, x, y, z); H::eqc("scale", s1, s2);
  } else if (op == "history") {   // the value does not depend on what was evaluated before
    real x = H::var("x", "-8", "8"), y = H::var("y", "-8", "8"), z = H::var("z", "-8", "8"); H::assume(x * x + y * y >= H::rl("1/10000")); real r = std::sqrt(x * x + y * y + z * z); int L = H::cfgi("lmax", 3), dir = H::cfgi("dir", 0);
    std::vector<std::pair<int,int>> o; for (int a = 0; a <= L; a++) for (int b = -a; b <= a; b++) o.push_back({a, b}); std::sort(o.begin(), o.end(), [&](auto& a, auto& b) { int ka = dir == 0 ? a.first : dir == 1 ? std::abs(a.second) : a.first + std::abs(a.second), kb = dir == 0 ? b.first : dir == 1 ? std::abs(b.second) : b.first + std::abs(b.second); return ka != kb ? ka < kb : a < b; });
    for (auto& q : o) { cplx c = Y(q.first, q.second, x, y, z); H::eqc("history", c, orc::ylm(q.first, q.second, x, y, z, r)); }
  } else if (op == "axis") {
    real z = H::var("z", "-8", "8"); H::assume(z * z >= H::rl("1/10000")); bool neg = z < real(0);
    cplx c = Y(l, m, real(0), real(0), z); H::eqc("axis", c, cplx(real(m ? 0 : (neg && l % 2) ? -1 : 1), real(0)));
    cplx o = Y(l, m, real(0), real(0), real(0)); H::eqc("zero-vector", o, cplx(real(l == 0), real(0)));
  } else if (op == "addition") {
    static const int u[3][3] = {{1, 2, 2}, {-2, 3, 6}, {4, -4, -7}}; int w = H::cfgi("u", 0); real a(u[w][0]), b(u[w][1]), c(u[w][2]), ru = std::sqrt(a * a + b * b + c * c);
    real x = H::var("x", "-8", "8"), y = H::var("y", "-8", "8"), z = H::var("z", "-8", "8"); H::assume(x * x + y * y >= H::rl("1/10000")); real r = std::sqrt(x * x + y * y + z * z);
    cplx s(real(0), real(0)); real n(0);
    for (int k = -l; k <= l; k++) { cplx p = Y(l, k, x, y, z), q = Y(l, k, a, b, c); s = s + p * std::conj(q); n = n + p.real() * p.real() + p.imag() * p.imag(); }
    H::eqc("addition", s, cplx(orc::dlegendre(l, 0, (a * x + b * y + c * z) / (r * ru)), real(0))); H::eq("unsold", n, real(1));
  } else if (op == "mesh") {
    int n[3] = {H::cfgi("nx", 3), H::cfgi("ny", 4), H::cfgi("nz", 5)}; real L[3]; const char* nm[3] = {"bx", "by", "bz"}; static const char* fx[3] = {"3", "4", "10"};
    for (int a = 0; a < 3; a++) L[a] = H::cfgi("symbox", 2) == a ? H::var(nm[a], "1", "2000") : H::rl(fx[a]);
    long N = (long)n[0] * n[1] * n[2]; real d[3]; std::vector<cplx> out(N, cplx(real(7), real(7)));
    for (int sp = 0; sp < 2; sp++) { for (int a = 0; a < 3; a++) d[a] = sp ? L[a] / real(n[a]) : real(2) * H::pi() / L[a];
      if (sp) SHC::store_reduced_spherical_harmonic_in_config_space(l, m, L, n, out); else SHC::store_reduced_spherical_harmonic_in_fourier_space(l, m, L, n, out);
      for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { long q = ((long)i * n[1] + j) * n[2] + k;
        H::eqc(H::ix(sp ? "config" : "fourier", i, j, k), out[q], orc::ylm0(l, m, orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2]), d)); } }
  } else if (op == "coupling") {
    int lm = H::cfgi("lmax", 3), c = H::cfgi("L", 0); int a = H::ivar("l1", 0, lm), b = H::ivar("l2", 0, lm); int x = H::ivar("m1", -a, a), y = H::ivar("m2", -b, b);
    for (int z = -c; z <= c; z++) {
    real r = trv::calc_coupling_coeff_3pt(a, b, c, x, y, z), e0 = threej(a, b, c, 0, 0, 0), em = threej(a, b, c, x, y, z);
    H::eq("wigner", trv::maths::wigner_3j(a, b, c, x, y, z), em);
    H::eq("coupling", r, real((2 * a + 1) * (2 * b + 1) * (2 * c + 1)) * e0 * em);
    if (x + y + z != 0 || (a + b + c) % 2 || c > a + b || c < std::abs(a - b)) H::eq("selection", r, real(0)); }
    if (x == 0 && y == 0) { trv::ParameterSet p = hu::params(); p.ell1 = a; p.ell2 = b; p.ELL = c; bool ok = true; try { trv::validate_multipole_coupling(p); } catch (std::exception&) { ok = false; }
      H::truth("validate", ok == !((a + b + c) % 2 || c > a + b || c < std::abs(a - b))); }
  }
}
