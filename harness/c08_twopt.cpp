// C08: two-point estimators assembled from catalogues.
#include "harness.hpp"
#include "twopt.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
struct P { real x[3], ws, wc, los[3]; };
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
static cplx mul(const cplx& a, const cplx& b) { return cplx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static real alias1(const real& s2, int o) { real one(1); if (o == 2) return one - H::rl("2/3") * s2; if (o == 3) return one - s2 + H::rl("2/15") * s2 * s2; if (o == 4) return one - H::rl("4/3") * s2 + H::rl("2/5") * s2 * s2 - H::rl("4/315") * s2 * s2 * s2; return one; }
static std::vector<P> make(trv::ParameterSet& p, const char* tag, int np, int off, bool symlos, bool rnd) {
  std::vector<P> v(np); static const char* px[4][3] = {{"1/8","5/16","15/16"},{"13/16","1/16","1/2"},{"9/16","29/32","3/16"},{"1/4","3/4","31/32"}};
  static const int dl[4][3] = {{1,2,2},{-2,1,-2},{0,0,3},{2,-6,3}};
  for (int i = 0; i < np; i++) { std::string s = std::string(tag) + std::to_string(i);
    for (int a = 0; a < 3; a++) { v[i].x[a] = p.boxsize[a] * H::rl(px[(i + off) % 4][a]); v[i].los[a] = real(dl[(i + off + 1) % 4][a]); }
    if (!rnd && i == 0 && H::cfgi("sympos", 0)) v[i].x[H::cfgi("axis", 0)] = H::var_co(s + "x", H::cfg("xlo", "0").c_str(), H::cfg("xhi", "1").c_str());
    if (symlos && i == 0) { v[i].los[0] = H::var(s + "lx", "-4", "4"); v[i].los[2] = H::var(s + "lz", "1/4", "4"); }
    bool sw = H::cfgi("symw", 1); v[i].ws = sw ? H::var(s + "s", rnd ? "1/4" : "-4", "4") : orc::ratio(3 + 2 * i, 4); v[i].wc = sw && (H::cfgi("symc", 1)) ? H::var(s + "c", "-4", "4") : orc::ratio(5 - i, 4); }
  return v; }
static void load(trv::ParticleCatalogue& c, std::vector<P>& v) { std::vector<real> x[3], nz, ws, wc; for (auto& q : v) { for (int a = 0; a < 3; a++) x[a].push_back(q.x[a]); nz.push_back(real(1)); ws.push_back(q.ws); wc.push_back(q.wc); } c.load_particle_data(x[0], x[1], x[2], nz, ws, wc); }
// per-particle mesh transform, sum over cells of assignment times exp(-ik.x), interlaced average
static std::vector<cplx> ft(trv::ParameterSet& p, P& v, bool il) { int* n = p.ngrid; long N = p.nmesh; std::vector<cplx> tot(N, cplx(real(0), real(0)));
  for (int sh = 0; sh <= (il ? 1 : 0); sh++) { std::vector<real> k[3]; for (int a = 0; a < 3; a++) orc::kern(p.assignment_order, real(n[a]) * v.x[a] / p.boxsize[a] + (sh ? H::rl("1/2") : real(0)), n[a], k[a]);
    std::vector<cplx> g(N), G; for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) g[((long)x * n[1] + y) * n[2] + z] = cplx(k[0][x] * k[1][y] * k[2][z], real(0));
    orc::dft(n, g, G, -1);
    for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) { long q = ((long)x * n[1] + y) * n[2] + z; real th = H::pi() * (orc::ratio(orc::sidx(x, n[0]), n[0]) + orc::ratio(orc::sidx(y, n[1]), n[1]) + orc::ratio(orc::sidx(z, n[2]), n[2]));
      cplx t = sh ? mul(G[q], cplx(std::cos(th), std::sin(th))) : G[q]; real h = il ? H::rl("1/2") : real(1); tot[q] = cplx(tot[q].real() + h * t.real(), tot[q].imag() + h * t.imag()); } }
  return tot; }
void harness() {
  trv::ParameterSet p = hu::params(); int* n = p.ngrid; int N = p.nmesh; bool il = p.interlace == "true"; std::string op = H::cfg("op", "pk"); int l = H::cfgi("ell", 0), ord = p.assignment_order; p.ELL = l; bool box = op == "pkbox" || op == "xibox", four = op == "pk" || op == "pkbox", win = op == "win";
  p.catalogue_type = box ? "sim" : win ? "random" : "survey"; p.space = four ? "fourier" : "config"; p.statistic_type = op == "pk" || op == "pkbox" ? "powspec" : win ? "2pcf-win" : "2pcf"; p.npoint = "2pt";
  auto D = make(p, "d", H::cfgi("nd", 2), 0, H::cfgi("symlos", 0) & 1, false), R = make(p, "r", box || win ? 0 : H::cfgi("nr", 2), 2, H::cfgi("symlos", 0) & 2, true);
  trv::ParticleCatalogue cd(60), cr(60); load(cd, D); if (R.size()) load(cr, R);
  std::vector<trv::LineOfSight> ld(D.size()), lr(R.size() + 1); for (size_t i = 0; i < D.size(); i++) for (int a = 0; a < 3; a++) ld[i].pos[a] = D[i].los[a]; for (size_t i = 0; i < R.size(); i++) for (int a = 0; a < 3; a++) lr[i].pos[a] = R[i].los[a];
  real alpha(1); if (win) alpha = H::var_oo("alpha", "0", "4"); else if (!box) { real a(0), b(0); for (auto& q : D) a = a + q.ws; for (auto& q : R) b = b + q.ws; alpha = a / b; }
  real nf = H::cfgi("symnf", 1) ? H::var("nf", box ? "1/8" : "-4", "4") : orc::ratio(7, 4);
  std::vector<real> E; for (auto& t : split(H::cfg("edges", "0,1"), ',')) E.push_back(H::rl(t.c_str())); int nb = E.size() - 1;
  trv::Binning bin(four ? "fourier" : "config", "lin"); bin.set_bins(E);
  // measured
  trv::PowspecMeasurements pk; trv::TwoPCFMeasurements xi; trv::TwoPCFWindowMeasurements wi;
  if (op == "pk") pk = trv::compute_powspec(cd, cr, ld.data(), lr.data(), p, bin, nf); else if (op == "xi") xi = trv::compute_corrfunc(cd, cr, ld.data(), lr.data(), p, bin, nf);
  else if (op == "pkbox") pk = trv::compute_powspec_in_gpp_box(cd, p, bin, nf); else if (op == "xibox") xi = trv::compute_corrfunc_in_gpp_box(cd, p, bin, nf); else wi = trv::compute_corrfunc_window(cd, ld.data(), p, bin, alpha, nf);
  // definition: per particle weight u, field F0 = sum u T(k); sum over m of harmonic fields = sum u P_l(k.n) T(k)
  struct Q { real u, s; real* los; std::vector<cplx> T; }; std::vector<Q> Z; static real zhat[3] = {real(0), real(0), real(1)}; zhat[0] = zhat[1] = real(0); zhat[2] = real(1);
  for (auto& q : D) { real w = q.ws * q.wc; if (box) Z.push_back({real(1), real(1), zhat, ft(p, q, il)}); else Z.push_back({(win ? alpha : real(1)) * w, (win ? alpha * alpha : real(1)) * w * w, q.los, ft(p, q, il)}); }
  for (auto& q : R) { real w = q.ws * q.wc; Z.push_back({real(0) - alpha * w, alpha * alpha * w * w, q.los, ft(p, q, il)}); }
  real V = p.boxsize[0] * p.boxsize[1] * p.boxsize[2], d[3], r[3]; for (int a = 0; a < 3; a++) { d[a] = real(2) * H::pi() / p.boxsize[a]; r[a] = p.boxsize[a] / real(n[a]); }
  int nm = four ? 1 : 2 * l + 1;   // separation space: keep each harmonic apart, P_l(r.n) = sum_m y_lm(r) conj(y_lm(n))
  std::vector<std::vector<cplx>> PK(nm, std::vector<cplx>(N)), SN = PK;
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k, x[3] = {orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2])};
    real al(1), w(1); if (!il) { for (int c = 0; c < 3; c++) { real s = std::sin(H::pi() * real(x[c]) / real(n[c])); al = al * alias1(s * s, ord); } w = al; }
    else { real u2(0); for (int c = 0; c < 3; c++) { real u = real(x[c]) / real(n[c]); u2 = u2 + u * u; } real uh = H::pi() * std::sqrt(u2) / real(2); real s = std::sin(uh), c = std::cos(uh); al = alias1(s * s, ord); for (int t = 0; t < ord; t++) al = al * c * c; w = orc::win3(n, i, j, k, ord); w = w * w; }
    cplx F0(real(0), real(0)); for (auto& z : Z) F0 = cplx(F0.real() + z.u * z.T[q].real(), F0.imag() + z.u * z.T[q].imag()); if (box && q == 0) F0 = cplx(real(0), real(0));
    for (int mm = 0; mm < nm; mm++) { int m = mm - l; cplx FL(real(0), real(0)), s(real(0), real(0));
      for (auto& z : Z) { real x1 = z.los[0], y1 = z.los[1], z1 = z.los[2], rr = std::sqrt(x1 * x1 + y1 * y1 + z1 * z1); cplx c;
        if (four) { if (l == 0) c = cplx(real(1), real(0)); else if (!x[0] && !x[1] && !x[2]) c = cplx(real(0), real(0)); else { real kk(0), mu(0); for (int t = 0; t < 3; t++) { real kt = real(x[t]) * d[t]; kk = kk + kt * kt; mu = mu + kt * z.los[t]; } mu = mu / (std::sqrt(kk) * rr); c = cplx(orc::dlegendre(l, 0, mu), real(0)); } }
        else { c = orc::ylm(l, m, x1, y1, z1, rr); c = cplx(c.real(), real(0) - c.imag()); }
        cplx t = mul(c, z.T[q]); FL = cplx(FL.real() + z.u * t.real(), FL.imag() + z.u * t.imag()); s = cplx(s.real() + z.s * c.real(), s.imag() + z.s * c.imag()); }
      if (box && q == 0) FL = cplx(real(0), real(0));
      cplx ab = mul(FL, cplx(F0.real(), real(0) - F0.imag())); PK[mm][q] = cplx(ab.real() / w, ab.imag() / w); SN[mm][q] = cplx(s.real() * al / w, s.imag() * al / w); } }
  std::vector<cplx> val(N), sn(N); std::vector<real> mag(N);
  if (!four) for (int q = 0; q < N; q++) val[q] = cplx(real(0), real(0));
  for (int mm = 0; mm < nm; mm++) { if (four) { val = PK[0]; sn = SN[0]; break; }
    std::vector<cplx> T(N), X; for (int q = 0; q < N; q++) T[q] = cplx((PK[mm][q].real() - SN[mm][q].real()) / V, (PK[mm][q].imag() - SN[mm][q].imag()) / V); orc::dft(n, T, X, 1);
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k; cplx t = mul(X[q], orc::ylm0(l, mm - l, orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2]), r)); val[q] = cplx(val[q].real() + t.real(), val[q].imag() + t.imag()); } }
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int q = (i * n[1] + j) * n[2] + k; real m2(0); int x[3] = {orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2])}; for (int t = 0; t < 3; t++) { real v = real(x[t]) * (four ? d[t] : r[t]); m2 = m2 + v * v; } mag[q] = std::sqrt(m2); }
  H::truth("dimension", four ? pk.dim == nb && (int)pk.pk_raw.size() == nb && (int)pk.pk_shot.size() == nb && (int)pk.kbin.size() == nb && (int)pk.keff.size() == nb && (int)pk.nmodes.size() == nb : win ? wi.dim == nb && (int)wi.xi.size() == nb && (int)wi.rbin.size() == nb && (int)wi.reff.size() == nb && (int)wi.npairs.size() == nb : xi.dim == nb && (int)xi.xi.size() == nb && (int)xi.rbin.size() == nb && (int)xi.reff.size() == nb && (int)xi.npairs.size() == nb);
  real f21 = real(2 * l + 1) * nf;
  for (int t = 0; t < nb; t++) { int c = 0; real sk(0), a(0), b(0), sa(0), sb(0); for (int q = 0; q < N; q++) if (E[t] <= mag[q] && mag[q] < E[t + 1]) { c++; sk = sk + mag[q]; a = a + val[q].real(); b = b + val[q].imag(); if (four) { sa = sa + sn[q].real(); sb = sb + sn[q].imag(); } }
    real f = c ? real(1) / real(c) : real(0), mid = (E[t] + E[t + 1]) / real(2);
    H::eq(H::ix("bin-centre", t), four ? pk.kbin[t] : win ? wi.rbin[t] : xi.rbin[t], mid); H::eq(H::ix("effective-coordinate", t), four ? pk.keff[t] : win ? wi.reff[t] : xi.reff[t], c ? sk * f : mid); H::truth(H::ix("number", t), (four ? pk.nmodes[t] : win ? wi.npairs[t] : xi.npairs[t]) == c);
    H::eqc(H::ix("statistic", t), four ? pk.pk_raw[t] : win ? wi.xi[t] : xi.xi[t], cplx(a * f * f21, b * f * f21)); if (four) H::eqc(H::ix("shot-noise", t), pk.pk_shot[t], cplx(sa * f * f21, sb * f * f21)); }
  for (size_t i = 0; i < D.size(); i++) { H::eq("kept-weight", cd.pdata[i].w, D[i].ws * D[i].wc); for (int a = 0; a < 3; a++) H::eq("kept-position", cd.pdata[i].pos[a], D[i].x[a]); }
  for (size_t i = 0; i < R.size(); i++) { H::eq("kept-weight", cr.pdata[i].w, R[i].ws * R[i].wc); for (int a = 0; a < 3; a++) H::eq("kept-position", cr.pdata[i].pos[a], R[i].x[a]); } }
