// C01: mesh assignment equals the periodic B-spline kernel exactly, per cell.
#include "harness.hpp"
#include "field.hpp"
#include "hutil.hpp"
static void kern(int order, real loc, int n, std::vector<real>& w) {
  w.assign(n, real(0)); real half = H::rl("1/2");
  bool odd = order % 2 == 1; int f = (int)(long long)std::floor(odd ? loc + half : loc); real s = loc - real(f); real o = real(1);
  auto add = [&](int g, real v) { int m = ((g % n) + n) % n; w[m] = w[m] + v; };
  if (order == 1) add(f, o);
  else if (order == 2) { add(f, o - s); add(f + 1, s); }
  else if (order == 3) { add(f - 1, (half - s) * (half - s) / real(2)); add(f, H::rl("3/4") - s * s); add(f + 1, (half + s) * (half + s) / real(2)); }
  else { real t = o - s; // cubic B-spline, written from the convolution form
    add(f - 1, t * t * t / real(6)); add(f, (real(4) - real(6) * s * s + real(3) * s * s * s) / real(6));
    add(f + 1, (real(4) - real(6) * t * t + real(3) * t * t * t) / real(6)); add(f + 2, s * s * s / real(6)); } }
void harness() {
  trv::ParameterSet p = hu::params(); int n[3] = {p.ngrid[0], p.ngrid[1], p.ngrid[2]};
  int order = p.assignment_order; bool il = p.interlace == "true"; int mode = H::cfgi("axes", 3);
  trv::MeshField f(p, false, "h");
  int np = 2; trv::ParticleCatalogue cat(60); cat.initialise_particles(np);
  real pos[2][3]; const char* nm[3] = {"x", "y", "z"}; const char* fixed[3] = {"9/8", "21/8", "27/16"};
  for (int a = 0; a < 3; a++) {
    if (mode == 3 || mode == a) pos[0][a] = H::var_co(nm[a], "0", H::cfg(a == 0 ? "lx" : a == 1 ? "ly" : "lz").c_str());
    else pos[0][a] = H::rl(fixed[a]);
    pos[1][a] = p.boxsize[a] * H::rl(a == 0 ? "15/16" : a == 1 ? "1/16" : "1/2"); }
  fftw_complex* w = fftw_alloc_complex(np); real W[2][2];
  for (int i = 0; i < np; i++) { for (int a = 0; a < 3; a++) cat.pdata[i].pos[a] = pos[i][a]; cat.pdata[i].w = real(1); cat.pdata[i].ws = real(1); cat.pdata[i].wc = real(1); cat.pdata[i].nz = real(1);
    W[i][0] = H::var(std::string("wr") + std::to_string(i), "-8", "8"); W[i][1] = H::var(std::string("wi") + std::to_string(i), "-8", "8"); }
  // a first call with other weights must leave nothing behind
  for (int i = 0; i < np; i++) { w[i][0] = real(3 + i); w[i][1] = real(-2); }
  if (H::cfgi("twice", 1)) f.assign_weighted_field_to_mesh(cat, w);
  for (int i = 0; i < np; i++) { w[i][0] = W[i][0]; w[i][1] = W[i][1]; }
  f.assign_weighted_field_to_mesh(cat, w);
  real vc = p.boxsize[0] * p.boxsize[1] * p.boxsize[2] / real(n[0]) / real(n[1]) / real(n[2]);
  for (int sh = 0; sh <= (il ? 1 : 0); sh++) {
    fftw_complex* g = sh ? f.field_s : f.field; std::vector<real> k[2][3];
    for (int i = 0; i < np; i++) for (int a = 0; a < 3; a++) kern(order, real(n[a]) * pos[i][a] / p.boxsize[a] + (sh ? H::rl("1/2") : real(0)), n[a], k[i][a]);
    real tr(0), ti(0);
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int l = 0; l < n[2]; l++) {
      long q = ((long)i * n[1] + j) * n[2] + l; real er(0), ei(0);
      for (int c = 0; c < np; c++) { real kk = k[c][0][i] * k[c][1][j] * k[c][2][l]; er = er + W[c][0] * kk; ei = ei + W[c][1] * kk; }
      tr = tr + g[q][0]; ti = ti + g[q][1];
      H::eq(H::ix(sh ? "shadow-cell.re" : "cell.re", i, j, l), g[q][0] * vc, er);
      H::eq(H::ix(sh ? "shadow-cell.im" : "cell.im", i, j, l), g[q][1] * vc, ei); }
    H::eq(sh ? "shadow-total.re" : "total.re", tr * vc, W[0][0] + W[1][0]); H::eq(sh ? "shadow-total.im" : "total.im", ti * vc, W[0][1] + W[1][1]); }
  fftw_free(w); }
