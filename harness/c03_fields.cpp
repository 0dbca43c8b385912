// C03: assembly of catalogue fields on the mesh(es).
#include "harness.hpp"
#include "field.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
struct P { real x[3], w, los[3]; };
static std::vector<P> make(trv::ParameterSet& p, const char* tag, int np, int off, bool symlos, bool sympos) {
  std::vector<P> v(np); static const char* px[4][3] = {{"1/8","5/16","15/16"},{"13/16","1/16","1/2"},{"9/16","29/32","3/16"},{"1/4","3/4","31/32"}};
  static const int dl[4][3] = {{1,2,2},{-2,1,-2},{0,0,3},{2,-6,3}};
  for (int i = 0; i < np; i++) { std::string s = std::string(tag) + std::to_string(i);
    for (int a = 0; a < 3; a++) { v[i].x[a] = p.boxsize[a] * H::rl(px[(i + off) % 4][a]); v[i].los[a] = real(dl[(i + off + 1) % 4][a]); }
    if (sympos && i == 0) v[i].x[off % 3] = H::var_co(s + "x", "0", H::cfg("l", "4").c_str());
    if (symlos && i == 0) { v[i].los[0] = H::var(s + "lx", "-4", "4"); v[i].los[1] = H::var(s + "ly", "-4", "4"); v[i].los[2] = H::var(s + "lz", "-4", "4");
      real q = v[i].los[0] * v[i].los[0] + v[i].los[1] * v[i].los[1]; H::assume(q >= H::rl("1/100")); }
    v[i].w = H::var(s + "w", "-4", "4"); }
  return v; }
static void load(trv::ParticleCatalogue& c, std::vector<P>& v) { c.initialise_particles(v.size()); for (size_t i = 0; i < v.size(); i++) { for (int a = 0; a < 3; a++) c.pdata[i].pos[a] = v[i].x[a]; c.pdata[i].w = v[i].w; c.pdata[i].ws = v[i].w; c.pdata[i].wc = real(1); c.pdata[i].nz = real(1); } }
// expected (unnormalised by cell volume) deposition of per-particle complex weights
static void deposit(trv::ParameterSet& p, std::vector<P>& v, const std::vector<cplx>& w, bool sh, std::vector<cplx>& g, const real& f) {
  int* n = p.ngrid;
  for (size_t i = 0; i < v.size(); i++) { std::vector<real> k[3]; for (int a = 0; a < 3; a++) orc::kern(p.assignment_order, real(n[a]) * v[i].x[a] / p.boxsize[a] + (sh ? H::rl("1/2") : real(0)), n[a], k[a]);
    for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) { real kk = k[0][x] * k[1][y] * k[2][z] * f; long q = ((long)x * n[1] + y) * n[2] + z; g[q] = cplx(g[q].real() + w[i].real() * kk, g[q].imag() + w[i].imag() * kk); } } }
static void compare(const std::string& l, fftw_complex* f, std::vector<cplx>& g, const real& vc) { for (size_t q = 0; q < g.size(); q++) { H::eq(H::ix((l + ".re").c_str(), (long)q), f[q][0] * vc, g[q].real()); H::eq(H::ix((l + ".im").c_str(), (long)q), f[q][1] * vc, g[q].imag()); } }
void harness() {
  trv::ParameterSet p = hu::params(); long N = p.nmesh; bool il = p.interlace == "true"; int l = H::cfgi("ell", 1), m = H::cfgi("m", 0);
  real V = p.boxsize[0] * p.boxsize[1] * p.boxsize[2], vc = V / real((int)N); std::string op = H::cfg("op", "fluct"); bool sl = H::cfgi("symlos", 0), sp = H::cfgi("sympos", 0);
  auto D = make(p, "d", 2, 0, sl, sp), R = make(p, "r", 2, 2, sl && H::cfgi("symlos", 0) > 1, false);
  trv::ParticleCatalogue cd(60), cr(60); load(cd, D); load(cr, R);
  std::vector<trv::LineOfSight> ld(2), lr(2); for (int i = 0; i < 2; i++) for (int a = 0; a < 3; a++) { ld[i].pos[a] = D[i].los[a]; lr[i].pos[a] = R[i].los[a]; }
  real alpha = H::var_oo("alpha", "0", "4");
  auto W = [&](std::vector<P>& v, bool quad) { std::vector<cplx> w; for (auto& q : v) { cplx y = orc::ylm(l, m, q.los[0], q.los[1], q.los[2], std::sqrt(q.los[0] * q.los[0] + q.los[1] * q.los[1] + q.los[2] * q.los[2]));
      real a = quad ? q.w * q.w : q.w; w.push_back(cplx(y.real() * a, quad ? real(0) - y.imag() * a : y.imag() * a)); } return w; };
  trv::MeshField f(p, false, "f");
  for (long q = 0; q < N; q++) { f.field[q][0] = real(9); f.field[q][1] = real(-3); if (il) { f.field_s[q][0] = real(5); f.field_s[q][1] = real(7); } }   // must be overwritten
  std::vector<cplx> g(N, cplx(real(0), real(0))), gs = g;
  for (int rep = 0; rep < 1 + (H::cfgi("twice", 0) ? 1 : 0); rep++) {
  std::vector<cplx> ones(2, cplx(real(1), real(0)));
  if (op == "fluct") f.compute_ylm_wgtd_field(cd, cr, ld.data(), lr.data(), alpha, l, m);
  else if (op == "one") f.compute_ylm_wgtd_field(cd, ld.data(), alpha, l, m);
  else if (op == "quad") f.compute_ylm_wgtd_quad_field(cd, cr, ld.data(), lr.data(), alpha, l, m);
  else if (op == "quad1") f.compute_ylm_wgtd_quad_field(cd, ld.data(), alpha, l, m);
  else if (op == "unweighted") f.compute_unweighted_field(cd);
  else if (op == "boxfluct") f.compute_unweighted_field_fluctuations_insitu(cd); }
  for (int sh = 0; sh <= (il ? 1 : 0); sh++) { std::vector<cplx>& G = sh ? gs : g; std::vector<cplx> ones(2, cplx(real(1), real(0)));
    if (op == "fluct") { deposit(p, D, W(D, false), sh, G, real(1)); deposit(p, R, W(R, false), sh, G, real(0) - alpha); }
    else if (op == "one") deposit(p, D, W(D, false), sh, G, alpha);
    else if (op == "quad") { deposit(p, D, W(D, true), sh, G, real(1)); deposit(p, R, W(R, true), sh, G, alpha * alpha); }
    else if (op == "quad1") deposit(p, D, W(D, true), sh, G, alpha * alpha);
    else { deposit(p, D, ones, sh, G, real(1)); if (op == "boxfluct") for (auto& c : G) c = cplx(c.real() - real(2) / V * vc, c.imag()); }
    compare(sh ? "shadow" : "mesh", sh ? f.field_s : f.field, G, vc); }
  // inputs untouched
  for (int i = 0; i < 2; i++) { H::eq("kept-weight", cd.pdata[i].w, D[i].w); H::eq("kept-weight", cr.pdata[i].w, R[i].w); for (int a = 0; a < 3; a++) { H::eq("kept-pos", cd.pdata[i].pos[a], D[i].x[a]); H::eq("kept-pos", cr.pdata[i].pos[a], R[i].x[a]); } }
}
