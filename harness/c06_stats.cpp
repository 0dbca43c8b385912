// C06: binned two-point statistics of mesh fields.
#include "harness.hpp"
#include "field.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
static std::vector<real> edges() { std::vector<real> e; int i = 0; for (auto& t : split(H::cfg("edges", "0,1"), ',')) { auto q = split(t, ':'); if (q.size() == 1) e.push_back(H::rl(t.c_str())); else e.push_back(H::var("e" + std::to_string(i), q[0].c_str(), q[1].c_str())); if (e.size() > 1) H::assume(e[i - 1] < e[i]); i++; } return e; }
static cplx mul(const cplx& a, const cplx& b) { return cplx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static real alias1(const real& s2, int o) { real one(1); if (o == 2) return one - H::rl("2/3") * s2; if (o == 3) return one - s2 + H::rl("2/15") * s2 * s2; if (o == 4) return one - H::rl("4/3") * s2 + H::rl("2/5") * s2 * s2 - H::rl("4/315") * s2 * s2 * s2; return one; }
static bool rejected(std::function<void()> f) { try { f(); } catch (trv::sys::InvalidDataError&) { return true; } return false; }
static void incompat() {
  trv::ParameterSet p = hu::params(), pa = p, pb = p; for (int i = 0; i < 3; i++) pa.boxsize[i] = p.boxsize[i], pb.boxsize[i] = p.boxsize[i];
  int which = H::ivar("which", 0, 8), side = H::ivar("side", 0, 1); trv::ParameterSet& q = side ? pb : pa; bool differ = false; real x = H::var("x", "1", "8"); int nn = H::ivar("nn", 2, 4);
  if (which < 3) { q.boxsize[which] = x; differ = x != p.boxsize[which]; } else if (which < 6) { q.ngrid[which - 3] = nn; differ = nn != p.ngrid[which - 3]; }
  else if (which == 6) { q.nmesh = nn * 4; differ = side == 0 && q.nmesh != p.nmesh; if (side) q.nmesh = p.nmesh; } else if (which == 7) { q.volume = x * real(16); differ = q.volume != p.volume; }
  trv::MeshField a(p, true, "a"), b(p, true, "b"); a.params = pa; b.params = pb; for (int i = 0; i < 12; i++) a.field[i][0] = a.field[i][1] = b.field[i][0] = b.field[i][1] = real(1);
  trv::FieldStats st(p, true); H::truth("rejected-iff-incompatible", !st.if_fields_compatible(a, b) == differ); }
void harness() {
  if (H::cfg("op", "") == "incompat") { incompat(); return; }
  trv::ParameterSet p = hu::params(); int* n = p.ngrid; int N = p.nmesh; bool il = p.interlace == "true"; std::string op = H::cfg("op", "fourier"); int l = H::cfgi("ell", 0), m = H::cfgi("m", 0), ord = p.assignment_order;
  p.ell1 = H::cfgi("l1", 0); p.ell2 = H::cfgi("l2", 0);
  trv::MeshField a(p, true, "a"), b(p, true, "b");
  std::vector<cplx> A(N), B(N); int ns = H::cfgi("nsym", N);
  for (int i = 0; i < N; i++) { std::string s = std::to_string(i);
    if (i < ns) { A[i] = cplx(H::var("ar" + s, "-4", "4"), H::var("ai" + s, "-4", "4")); B[i] = cplx(H::var("br" + s, "-4", "4"), H::var("bi" + s, "-4", "4")); }
    else { A[i] = cplx(orc::ratio(i * 7 % 11 - 5, 4), orc::ratio(i * 5 % 13 - 6, 8)); B[i] = cplx(orc::ratio(i * 3 % 7 - 3, 2), orc::ratio(i * 9 % 17 - 8, 4)); }
    a.field[i][0] = A[i].real(); a.field[i][1] = A[i].imag(); b.field[i][0] = B[i].real(); b.field[i][1] = B[i].imag(); }
  cplx amp(H::var("sr", "-4", "4"), H::var("si", "-4", "4"));
  bool four = op == "fourier"; real V = p.boxsize[0] * p.boxsize[1] * p.boxsize[2]; real d[3], step; double sd = 0;
  for (int i = 0; i < 3; i++) d[i] = four ? real(2) * H::pi() / p.boxsize[i] : p.boxsize[i] / real(n[i]);
  if (op == "fourier") { step = H::rl("1/100000"); sd = 1e-5; } else if (op == "config") { step = H::rl("1/10"); sd = 0.1; } else { step = real(1); sd = 1; }
  trv::FieldStats st(p, H::cfgi("plan", 1)); int rep = H::cfgi("twice", 0);
  // corrected modes
  std::vector<cplx> P(N), S(N), X;
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k; int x[3] = {orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2])};
    real al(1), w(1); if (!il) { for (int c = 0; c < 3; c++) { real s = std::sin(H::pi() * real(x[c]) / real(n[c])); al = al * alias1(s * s, ord); } w = al; }
    else { real u2(0); for (int c = 0; c < 3; c++) { real u = real(x[c]) / real(n[c]); u2 = u2 + u * u; } real uh = H::pi() * std::sqrt(u2) / real(2); real s = std::sin(uh), c = std::cos(uh); al = alias1(s * s, ord); for (int t = 0; t < ord; t++) al = al * c * c;
      w = orc::win3(n, i, j, k, ord); w = w * w; }
    cplx ab = mul(A[q], cplx(B[q].real(), -B[q].imag())); P[q] = cplx(ab.real() / w, ab.imag() / w); S[q] = cplx(amp.real() * al / w, amp.imag() * al / w); }
  if (op != "fourier") { std::vector<cplx> T(N); for (int q = 0; q < N; q++) T[q] = cplx((P[q].real() - S[q].real()) / V, (P[q].imag() - S[q].imag()) / V); orc::dft(n, T, X, 1); }
  if (op == "bispec") { int l1 = H::cfgi("ja", 0), l2 = H::cfgi("jb", 1); real ka = H::var("ka", "1/8", "4"), kb = H::var("kb", "1/8", "4"); std::vector<cplx> ya(N), yb(N); cplx want(real(0), real(0));
    trv::maths::SphericalBesselCalculator ja(l1), jb(l2); trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(l, m, p.boxsize, p.ngrid, ya); trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(1, 0, p.boxsize, p.ngrid, yb);
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k; int x = orc::sidx(i, n[0]), y = orc::sidx(j, n[1]), z = orc::sidx(k, n[2]); real r2 = real(x * x) * d[0] * d[0] + real(y * y) * d[1] * d[1] + real(z * z) * d[2] * d[2], r = std::sqrt(r2);
      cplx t = mul(X[q], mul(orc::ylm0(l, m, x, y, z, d), orc::ylm0(1, 0, x, y, z, d))); real jj = ja.eval(ka * r) * jb.eval(kb * r) * V / real(N); want = cplx(want.real() + t.real() * jj, want.imag() + t.imag() * jj); }
    cplx g = st.compute_uncoupled_shotnoise_for_bispec_per_bin(a, b, ya, yb, ja, jb, amp, ka, kb); H::eqc("uncoupled-bk", g, want); return; }
  std::vector<real> E = edges(); int nb = E.size() - 1; trv::Binning bin(four ? "fourier" : "config", "lin"); bin.set_bins(E);
  // bin membership; edges within one sampling step below a magnitude are outside the claim
  std::vector<std::vector<int>> mem(nb); std::vector<real> mag(N); std::vector<cplx> Y(N);
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k; int x = orc::sidx(i, n[0]), y = orc::sidx(j, n[1]), z = orc::sidx(k, n[2]);
    real r2 = real(x * x) * d[0] * d[0] + real(y * y) * d[1] * d[1] + real(z * z) * d[2] * d[2]; mag[q] = std::sqrt(r2); int f = (int)std::floor(H::num(mag[q]) / sd + 1e-12);
    for (auto& e : E) H::assume(e <= real(f) * step || mag[q] < e || (x == 0 && y == 0 && z == 0));
    for (int t = 0; t < nb; t++) if (E[t] <= mag[q] && mag[q] < E[t + 1]) mem[t].push_back(q);
    if (op == "sn3pcf") Y[q] = mul(orc::ylm0(l, m, x, y, z, d), orc::ylm0(H::cfgi("ellb", 1), H::cfgi("mb", 0), x, y, z, d)); else Y[q] = orc::ylm0(l, m, x, y, z, d); }
  std::vector<cplx> ya(N), yb(N); if (op == "sn3pcf") { trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(l, m, p.boxsize, p.ngrid, ya); trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(H::cfgi("ellb", 1), H::cfgi("mb", 0), p.boxsize, p.ngrid, yb); }
  for (int it = 0; it <= rep; it++) {
    if (op == "fourier") st.compute_ylm_wgtd_2pt_stats_in_fourier(a, b, amp, l, m, bin); else if (op == "config") st.compute_ylm_wgtd_2pt_stats_in_config(a, b, amp, l, m, bin); else st.compute_uncoupled_shotnoise_for_3pcf(a, b, ya, yb, amp, bin); }
  for (int t = 0; t < nb; t++) { int c = mem[t].size(); cplx sp(real(0), real(0)), ss(real(0), real(0)); real sk(0);
    for (int q : mem[t]) { sk = sk + mag[q]; cplx v = mul(four ? P[q] : X[q], Y[q]); sp = cplx(sp.real() + v.real(), sp.imag() + v.imag()); v = mul(S[q], Y[q]); ss = cplx(ss.real() + v.real(), ss.imag() + v.imag()); }
    real f = c ? real(1) / real(c) : real(0); real keff = c ? sk * f : (E[t] + E[t + 1]) / real(2);
    if (op == "sn3pcf" && c) f = f * (real(N) / V) / real(c) * real((p.ell1 + p.ell2) % 2 ? -1 : 1);
    H::truth(H::ix("number", t), (four ? st.nmodes[t] : st.npairs[t]) == c); real kk = four ? st.k[t] : st.r[t]; H::eq(H::ix("effective-coordinate", t), kk, keff); H::le(H::ix("above-lower-edge", t), E[t], kk); H::lt(H::ix("below-upper-edge", t), kk, E[t + 1]);
    H::eqc(H::ix("statistic", t), four ? st.pk[t] : st.xi[t], cplx(sp.real() * f, sp.imag() * f)); if (four) H::eqc(H::ix("shot-noise", t), st.sn[t], cplx(ss.real() * f, ss.imag() * f)); } }
