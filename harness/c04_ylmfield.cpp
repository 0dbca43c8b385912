// C04: band-limited and spherical-Bessel-weighted inverse transforms.
#include "harness.hpp"
#include "field.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
static cplx mul(const cplx& a, const cplx& b) { return cplx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
void harness() {
  trv::ParameterSet p = hu::params(); int* n = p.ngrid; int N = p.nmesh, l = H::cfgi("ell", 0), m = H::cfgi("m", 0); std::string op = H::cfg("op", "band");
  real V = p.boxsize[0] * p.boxsize[1] * p.boxsize[2], d[3]; for (int i = 0; i < 3; i++) d[i] = real(2) * H::pi() / p.boxsize[i];
  trv::MeshField src(p, false, "src"), own(p, true, "own"); trv::MeshField* f = &own; trv::MeshField* ext = nullptr;
  if (H::cfgi("ext", 0)) { ext = new trv::MeshField(p, own.transform, own.inv_transform, "ext"); f = ext; }
  std::vector<cplx> A(N), y(N); int ns = H::cfgi("nsym", N);
  for (int i = 0; i < N; i++) { std::string s = std::to_string(i); A[i] = i < ns ? cplx(H::var("ar" + s, "-4", "4"), H::var("ai" + s, "-4", "4")) : cplx(orc::ratio(i * 7 % 11 - 5, 4), orc::ratio(i * 5 % 13 - 6, 8));
    src.field[i][0] = A[i].real(); src.field[i][1] = A[i].imag(); if (H::cfgi("dirty", 1)) { f->field[i][0] = real(i + 1); f->field[i][1] = real(-3); } }
  trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(l, m, p.boxsize, p.ngrid, y);
  real lo, hi, r, sk(0); int cnt = 0; std::vector<cplx> T(N), X; trv::maths::SphericalBesselCalculator* sj = nullptr;
  if (op == "band") { lo = H::var("lo", H::cfg("lo0", "0").c_str(), H::cfg("lo1", "4").c_str()); hi = H::var("hi", H::cfg("hi0", "0").c_str(), H::cfg("hi1", "4").c_str()); H::assume(lo < hi); }
  else { r = H::var("r", "1/16", "8"); sj = new trv::maths::SphericalBesselCalculator(H::cfgi("jl", 1)); }
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k, x = orc::sidx(i, n[0]), yy = orc::sidx(j, n[1]), z = orc::sidx(k, n[2]);
    real kk = std::sqrt(real(x * x) * d[0] * d[0] + real(yy * yy) * d[1] * d[1] + real(z * z) * d[2] * d[2]), w = orc::win3(n, i, j, k, p.assignment_order); T[q] = cplx(real(0), real(0));
    cplx v = mul(A[q], orc::ylm0(l, m, x, yy, z, d)); v = cplx(v.real() / w, v.imag() / w);
    if (op == "band") { if (lo <= kk && kk < hi) { T[q] = v; sk = sk + kk; cnt++; } }
    else { real g = sj->eval(kk * r) / V; T[q] = cplx(v.real() * g, v.imag() * g); } }
  if (op == "band") { H::assume(cnt > 0); for (auto& t : T) t = cplx(t.real() / real(cnt), t.imag() / real(cnt)); }
  orc::dft(n, T, X, 1);
  if (op == "band") { real ke = real(7); int nm = 5; for (int it = 0; it <= H::cfgi("twice", 0); it++) f->inv_fourier_transform_ylm_wgtd_field_band_limited(src, y, lo, hi, ke, nm);
    H::truth("mode-count", nm == cnt); H::eq("effective-wavenumber", ke, sk / real(cnt)); H::le("above-lower-edge", lo, ke); H::lt("below-upper-edge", ke, hi); }
  else for (int it = 0; it <= H::cfgi("twice", 0); it++) f->inv_fourier_transform_sjl_ylm_wgtd_field(src, y, *sj, r);
  for (int q = 0; q < N; q++) { H::eq(H::ix("field.re", q), f->field[q][0], X[q].real()); H::eq(H::ix("field.im", q), f->field[q][1], X[q].imag()); H::eq(H::ix("source-unchanged", q), src.field[q][0], A[q].real()); }
  delete sj; delete ext; }
