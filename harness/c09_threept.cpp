// C09: three-point statistics, values and layouts.
#include "harness.hpp"
#include "threept.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
#include <map>
struct P { real x[3], ws, wc, los[3]; };
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
static cplx mul(const cplx& a, const cplx& b) { return cplx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static cplx add(const cplx& a, const cplx& b) { return cplx(a.real() + b.real(), a.imag() + b.imag()); }
static cplx scl(const cplx& a, const real& f) { return cplx(a.real() * f, a.imag() * f); }
static cplx cj(const cplx& a) { return cplx(a.real(), real(0) - a.imag()); }
static cplx zero() { return cplx(real(0), real(0)); }
static real alias1(const real& s2, int o) { real one(1); if (o == 2) return one - H::rl("2/3") * s2; if (o == 3) return one - s2 + H::rl("2/15") * s2 * s2; if (o == 4) return one - H::rl("4/3") * s2 + H::rl("2/5") * s2 * s2 - H::rl("4/315") * s2 * s2 * s2; return one; }
static std::vector<P> make(trv::ParameterSet& p, const char* tag, int np, int off, bool rnd) {
  std::vector<P> v(np); static const char* px[4][3] = {{"1/8","5/16","15/16"},{"13/16","1/16","1/2"},{"9/16","29/32","3/16"},{"1/4","3/4","31/32"}};
  static const int dl[4][3] = {{1,2,2},{-2,1,-2},{0,0,3},{2,-6,3}}; int nsw = rnd ? H::cfgi("symr", 0) : H::cfgi("symw", np);
  for (int i = 0; i < np; i++) { std::string s = std::string(tag) + std::to_string(i);
    for (int a = 0; a < 3; a++) { v[i].x[a] = p.boxsize[a] * H::rl(px[(i + off) % 4][a]); v[i].los[a] = real(dl[(i + off + 1) % 4][a]); }
    if (!rnd && i == 0 && H::cfgi("sympos", 0)) v[i].x[H::cfgi("axis", 0)] = H::var_co(s + "x", H::cfg("xlo", "0").c_str(), H::cfg("xhi", "1").c_str());
    v[i].ws = !rnd && i < nsw ? H::var(s + "s", "-4", "4") : orc::ratio(3 + 2 * i, 4); v[i].wc = rnd && i < nsw ? H::var(s + "c", "-4", "4") : orc::ratio(5 - i, 4); }
  return v; }
static void load(trv::ParticleCatalogue& c, std::vector<P>& v) { std::vector<real> x[3], nz, ws, wc; for (auto& q : v) { for (int a = 0; a < 3; a++) x[a].push_back(q.x[a]); nz.push_back(real(1)); ws.push_back(q.ws); wc.push_back(q.wc); } c.load_particle_data(x[0], x[1], x[2], nz, ws, wc); }
static real fact(int n) { real r(1); for (int i = 2; i <= n; i++) r = r * real(i); return r; }
// Racah formula
static real w3j(int a, int b, int c, int x, int y, int z) { if (x + y + z || c > a + b || c < std::abs(a - b) || std::abs(x) > a || std::abs(y) > b || std::abs(z) > c) return real(0);
  real s(0); for (int t = 0; t <= a + b + c; t++) { int d[5] = {c - b + t + x, c - a + t - y, a + b - c - t, a - t - x, b - t + y}; bool ok = true; for (int e : d) ok = ok && e >= 0; if (!ok) continue; real q = fact(t); for (int e : d) q = q * fact(e); s = s + real(t % 2 ? -1 : 1) / q; }
  real n = fact(a + b - c) * fact(a - b + c) * fact(b + c - a) / fact(a + b + c + 1) * fact(a + x) * fact(a - x) * fact(b + y) * fact(b - y) * fact(c + z) * fact(c - z);
  return s * std::sqrt(n) * real((a - b - z) % 2 ? -1 : 1); }
static int n[3], N, ord; static real V, dk[3], dr[3];
static cplx ipow(int e) { e = ((e % 4) + 4) % 4; return e == 0 ? cplx(real(1), real(0)) : e == 1 ? cplx(real(0), real(1)) : e == 2 ? cplx(real(-1), real(0)) : cplx(real(0), real(-1)); }
struct Grid { std::vector<std::array<int,3>> s; std::vector<real> k, r, w, al; };
static Grid grid() { Grid g; for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { std::array<int,3> x = {orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2])}; g.s.push_back(x); real a(0), b(0), al(1); for (int t = 0; t < 3; t++) { real u = real(x[t]) * dk[t], v = real(x[t]) * dr[t]; a = a + u * u; b = b + v * v; real s = std::sin(H::pi() * real(x[t]) / real(n[t])); al = al * alias1(s * s, ord); }
    g.k.push_back(std::sqrt(a)); g.r.push_back(std::sqrt(b)); g.w.push_back(orc::win3(n, i, j, k, ord)); g.al.push_back(al); } return g; }
static std::vector<cplx> ylmgrid(const Grid& g, int l, int m, const real d[3]) { std::vector<cplx> y; for (auto& s : g.s) y.push_back(orc::ylm0(l, m, s[0], s[1], s[2], d)); return y; }
void harness() {
  trv::ParameterSet p = hu::params(); for (int a = 0; a < 3; a++) n[a] = p.ngrid[a]; N = p.nmesh; ord = p.assignment_order; std::string op = H::cfg("op", "bk"), form = H::cfg("form", "full"); int l1 = p.ell1 = H::cfgi("l1", 0), l2 = p.ell2 = H::cfgi("l2", 0), L = p.ELL = H::cfgi("L", 0);
  bool box = op == "bkbox" || op == "zetabox", four = op == "bk" || op == "bkbox", win = op == "win" || op == "wa"; p.npoint = "3pt"; p.catalogue_type = box ? "sim" : win ? "random" : "survey"; p.space = four ? "fourier" : "config"; p.statistic_type = four ? "bispec" : win ? "3pcf-win" : "3pcf"; p.i_wa = H::cfgi("iwa", 0); p.j_wa = H::cfgi("jwa", 0);
  auto D = make(p, "d", H::cfgi("nd", 2), 0, false), R = make(p, "r", box || win ? 0 : H::cfgi("nr", 2), 2, true); trv::ParticleCatalogue cd(60), cr(60); load(cd, D); if (R.size()) load(cr, R);
  std::vector<trv::LineOfSight> ld(D.size()), lr(R.size() + 1); for (size_t i = 0; i < D.size(); i++) for (int a = 0; a < 3; a++) ld[i].pos[a] = D[i].los[a]; for (size_t i = 0; i < R.size(); i++) for (int a = 0; a < 3; a++) lr[i].pos[a] = R[i].los[a];
  real alpha(1); if (win) alpha = H::var_oo("alpha", "0", "4"); else if (!box) { real a(0), b(0); for (auto& q : D) a = a + q.ws; for (auto& q : R) b = b + q.ws; alpha = a / b; }
  real nf = H::cfgi("symnf", 1) ? H::var("nf", "-4", "4") : orc::ratio(7, 4);
  std::vector<real> E; for (auto& t : split(H::cfg("edges", "0,1"), ',')) E.push_back(H::rl(t.c_str())); int nb = E.size() - 1; trv::Binning bin(four ? "fourier" : "config", "lin"); bin.set_bins(E); p.num_bins = nb;
  p.idx_bin = 0; if (form == "row") p.idx_bin = H::ivar("idx", 0, nb - 1); if (form == "off-diag") p.idx_bin = H::ivar("idx", 1 - nb, nb - 1); p.shape = form; p.form = form == "triu" ? "full" : form;
  std::vector<std::pair<int,int>> pr; int ib = p.idx_bin; if (form == "diag") for (int i = 0; i < nb; i++) pr.push_back({i, i}); else if (form == "row") for (int i = 0; i < nb; i++) pr.push_back({ib, i}); else if (form == "off-diag") for (int i = 0; i < nb - std::abs(ib); i++) pr.push_back(ib >= 0 ? std::make_pair(i, i + ib) : std::make_pair(i - ib, i)); else for (int i = 0; i < nb; i++) for (int j = form == "triu" ? i : 0; j < nb; j++) pr.push_back({i, j});
  // measured
  int dim; std::vector<real> b1, b2, e1, e2; std::vector<int> m1, m2; std::vector<cplx> raw, shot; bool bad = false;
  try { if (four) { auto r = box ? trv::compute_bispec_in_gpp_box(cd, p, bin, nf) : trv::compute_bispec(cd, cr, ld.data(), lr.data(), p, bin, nf); dim = r.dim; b1 = r.k1_bin; b2 = r.k2_bin; e1 = r.k1_eff; e2 = r.k2_eff; m1 = r.nmodes_1; m2 = r.nmodes_2; raw = r.bk_raw; shot = r.bk_shot; }
  else if (win) { auto r = trv::compute_3pcf_window(cd, ld.data(), p, bin, alpha, nf, op == "wa"); dim = r.dim; b1 = r.r1_bin; b2 = r.r2_bin; e1 = r.r1_eff; e2 = r.r2_eff; m1 = r.npairs_1; m2 = r.npairs_2; raw = r.zeta_raw; shot = r.zeta_shot; }
  else { auto r = box ? trv::compute_3pcf_in_gpp_box(cd, p, bin, nf) : trv::compute_3pcf(cd, cr, ld.data(), lr.data(), p, bin, nf); dim = r.dim; b1 = r.r1_bin; b2 = r.r2_bin; e1 = r.r1_eff; e2 = r.r2_eff; m1 = r.npairs_1; m2 = r.npairs_2; raw = r.zeta_raw; shot = r.zeta_shot; }
  } catch (trv::sys::InvalidParameterError&) { bad = true; }
  bool vanish = (l1 + l2 + L) % 2 || L > l1 + l2 || L < std::abs(l1 - l2); if (form != "full" && form != "triu" && form != "diag" && form != "off-diag" && form != "row") vanish = true; H::truth("vanishing-multipole-rejected", bad == vanish); if (bad) return;
  size_t np = pr.size(); H::truth("layout", dim == (int)np && b1.size() == np && b2.size() == np && e1.size() == np && e2.size() == np && m1.size() == np && m2.size() == np && raw.size() == np && shot.size() == np); if (raw.size() != np || shot.size() != np) return;
  // definition
  V = p.boxsize[0] * p.boxsize[1] * p.boxsize[2]; for (int a = 0; a < 3; a++) { dk[a] = real(2) * H::pi() / p.boxsize[a]; dr[a] = p.boxsize[a] / real(n[a]); } Grid g = grid();
  struct Q { real u, s, c; real* los; std::vector<cplx> T; }; std::vector<Q> Z;
  auto ft = [&](P& v) { std::vector<real> k[3]; for (int a = 0; a < 3; a++) orc::kern(ord, real(n[a]) * v.x[a] / p.boxsize[a], n[a], k[a]); std::vector<cplx> f(N), G; for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) f[((long)x * n[1] + y) * n[2] + z] = cplx(k[0][x] * k[1][y] * k[2][z], real(0)); orc::dft(n, f, G, -1); return G; };
  for (auto& q : D) { real w = q.ws * q.wc; if (box) Z.push_back({real(1), real(1), real(1), nullptr, ft(q)}); else { real a = win ? alpha : real(1); Z.push_back({a * w, a * a * w * w, a * a * a * w * w * w, q.los, ft(q)}); } }
  for (auto& q : R) { real w = q.ws * q.wc, a = alpha; Z.push_back({real(0) - a * w, a * a * w * w, a * a * a * w * w * w, q.los, ft(q)}); }
  // sums over particles of weight times line-of-sight harmonic (conjugated as conj_), transformed
  auto losy = [&](const Q& z, int M) { if (box) return cplx(real(1), real(0)); return orc::ylm(L, M, z.los[0], z.los[1], z.los[2], std::sqrt(z.los[0] * z.los[0] + z.los[1] * z.los[1] + z.los[2] * z.los[2])); };
  auto fld = [&](int M, bool flat, int kind) { std::vector<cplx> f(N, zero()); for (auto& z : Z) { cplx y = flat ? cplx(real(1), real(0)) : losy(z, M); if (kind == 2) y = cj(y); real u = kind == 2 ? z.s : z.u; for (int q = 0; q < N; q++) f[q] = add(f[q], scl(mul(y, z.T[q]), u)); } if (box && kind == 1) f[0] = zero(); return f; };
  auto samp = [&](int M) { cplx s = zero(); for (auto& z : Z) s = add(s, scl(losy(z, M), z.c)); return s; };
  std::vector<cplx> d00 = fld(0, true, 1), n00 = fld(0, true, 2); std::vector<std::vector<int>> mem(nb); std::vector<real> eff(nb);
  for (int t = 0; t < nb; t++) { real s(0); for (int q = 0; q < N; q++) { const real& x = four ? g.k[q] : g.r[q]; if (E[t] <= x && x < E[t + 1]) { mem[t].push_back(q); s = s + x; } } H::truth("bins-populated", mem[t].size() > 0); eff[t] = s / real((int)mem[t].size()); }
  bool val = H::cfgi("values", 1);
  for (size_t i = 0; i < np; i++) { int a = pr[i].first, b = pr[i].second; std::string s = std::to_string(i); H::eq(H::ix("bin-centre-1", i), b1[i], (E[a] + E[a + 1]) / real(2)); H::eq(H::ix("bin-centre-2", i), b2[i], (E[b] + E[b + 1]) / real(2)); H::eq(H::ix("effective-1", i), e1[i], eff[a]); H::eq(H::ix("effective-2", i), e2[i], eff[b]); H::truth(H::ix("number-1", i), m1[i] == (int)mem[a].size()); H::truth(H::ix("number-2", i), m2[i] == (int)mem[b].size()); }
  std::vector<cplx> want(np, zero()), sn(np, zero());
  trv::maths::SphericalBesselCalculator ja(l1), jb(l2); real vc = V / real(N);
  for (int x = -l1; x <= l1; x++) for (int y = -l2; y <= l2; y++) { int M = -x - y; if (std::abs(M) > L) continue; if (box && M) continue; real cc = real((2 * l1 + 1) * (2 * l2 + 1) * (2 * L + 1)) * w3j(l1, l2, L, 0, 0, 0) * w3j(l1, l2, L, x, y, M); if (cc == real(0)) continue;
    std::vector<cplx> ya = ylmgrid(g, l1, x, dk), yb = ylmgrid(g, l2, y, dk), ra = ylmgrid(g, l1, x, dr), rb = ylmgrid(g, l2, y, dr);
    std::vector<cplx> dL = fld(M, false, 1), nL = fld(M, false, 2), G, tmp(N); cplx S = box ? cplx(real((int)D.size()), real(0)) : samp(M);
    // line-of-sight field in real space, window compensated, per cell
    for (int q = 0; q < N; q++) tmp[q] = scl(dL[q], real(1) / (g.w[q] * V)); orc::dft(n, tmp, G, 1); if (op == "wa") for (int q = 0; q < N; q++) if (q) { real f(1); for (int e = 0; e < p.i_wa + p.j_wa; e++) f = f / g.r[q]; G[q] = scl(G[q], f); }
    std::map<int, std::vector<cplx>> FA, FB; std::map<int, cplx> SA, SB;
    auto F = [&](std::map<int, std::vector<cplx>>& c, int t, const std::vector<cplx>& yl, trv::maths::SphericalBesselCalculator& j) -> std::vector<cplx>& { auto it = c.find(t); if (it != c.end()) return it->second; std::vector<cplx> T(N, zero()), X;
      if (four) { for (int q : mem[t]) T[q] = scl(mul(d00[q], yl[q]), real(1) / (g.w[q] * real((int)mem[t].size()))); } else for (int q = 0; q < N; q++) T[q] = scl(mul(d00[q], yl[q]), j.eval(g.k[q] * eff[t]) / (g.w[q] * V)); orc::dft(n, T, X, 1); return c[t] = X; };
    auto C2 = [&](std::map<int, cplx>& c, int t, const std::vector<cplx>& yl) { auto it = c.find(t); if (it != c.end()) return it->second; cplx s = zero(); for (int q : mem[t]) { cplx v = mul(d00[q], cj(nL[q])); v = cplx(v.real() - S.real() * g.al[q], v.imag() - S.imag() * g.al[q]); s = add(s, scl(mul(v, yl[q]), real(1) / (g.al[q] * real((int)mem[t].size())))); } return c[t] = s; };
    std::vector<cplx> X; { std::vector<cplx> T(N); for (int q = 0; q < N; q++) { cplx v = mul(dL[q], cj(n00[q])); T[q] = cplx((v.real() - S.real() * g.al[q]) / (g.al[q] * V), (v.imag() - S.imag() * g.al[q]) / (g.al[q] * V)); } orc::dft(n, T, X, 1); }
    cplx ph = ipow(l1 + l2);
    for (size_t i = 0; i < np; i++) { int a = pr[i].first, b = pr[i].second; if (!val && !(H::cfgi("shotval", 0))) continue;
      if (val) { auto& fa = F(FA, a, ya, ja); auto& fb = F(FB, b, yb, jb); cplx t = zero(); for (int q = 0; q < N; q++) t = add(t, mul(mul(fa[q], fb[q]), G[q])); t = scl(t, cc * vc); if (!four) t = mul(ph, t); want[i] = add(want[i], t); }
      if (four) { cplx t = zero(); if (!l1 && !l2) t = add(t, S); if (!l2) t = add(t, C2(SA, a, ya)); if (!l1) t = add(t, C2(SB, b, yb)); cplx u = zero(); for (int q = 0; q < N; q++) { cplx v = mul(X[q], mul(ra[q], rb[q])); u = add(u, scl(v, ja.eval(eff[a] * g.r[q]) * jb.eval(eff[b] * g.r[q]) * vc)); } t = add(t, mul(ph, u)); sn[i] = add(sn[i], scl(t, cc)); }
      else if (a == b) { cplx t = zero(); for (int q : mem[a]) t = add(t, mul(X[q], mul(ra[q], rb[q]))); real c = real((int)mem[a].size()); sn[i] = add(sn[i], scl(t, cc / (c * c * vc))); } } }
  real sz = four ? real(1) : V * V / real(N);   // brings configuration-space statistics to order one
  for (size_t i = 0; i < np; i++) { if (val) H::eqc(H::ix("value", i), scl(raw[i], sz), scl(want[i], nf * sz)); if (H::cfgi("shotcmp", 1)) H::eqc(H::ix("shot-noise", i), scl(shot[i], sz), scl(sn[i], nf * sz)); } }
