// C10: normalisation factors.
#include "harness.hpp"
#include "twopt.hpp"
#include "threept.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
typedef trv::ParticleCatalogue Cat;
struct S { std::vector<std::array<real,3>> x; std::vector<std::array<real,3>> w; };   // w: nz, ws, wc
static S fill(Cat& c, int n, const char* tag, const real L[3], bool sympos, int off) { S s; std::vector<real> x[3], w[3]; static const char* g[7] = {"3/8", "1/2", "5/8", "7/16", "9/16", "19/32", "13/32"}; static const char* f[5][3] = {{"1/8","5/16","15/16"},{"13/16","1/16","1/2"},{"9/16","29/32","3/16"},{"1/4","3/4","31/32"},{"7/16","3/8","5/8"}};
  for (int i = 0; i < n; i++) { std::array<real,3> p, q; for (int a = 0; a < 3; a++) { p[a] = off == 9 ? L[a] * H::rl(g[(i * 3 + a) % 7]) : off ? L[a] * H::rl(i == 0 ? (a == 1 ? "3/4" : "1/4") : i == 1 ? (a == 1 ? "7/32" : "23/32") : "1/2") : L[a] * H::rl(f[(i + off) % 5][a]); if (sympos && i == n - 1 && a == H::cfgi("axis", 0)) p[a] = H::var_co(std::string(tag) + "x", H::cfg("xlo", "0").c_str(), H::cfg("xhi", "4").c_str()); x[a].push_back(p[a]); }
    static const char* nm[3] = {"n", "s", "c"}; for (int k = 0; k < 3; k++) { q[k] = H::var(std::string(tag) + nm[k] + std::to_string(i), k ? "-4" : "0", "4"); w[k].push_back(q[k]); } s.x.push_back(p); s.w.push_back(q); }
  c.load_particle_data(x[0], x[1], x[2], w[0], w[1], w[2]); return s; }
static void kept(const std::string& t, Cat& c, const S& s) { H::truth("particle-number", c.ntotal == (int)s.x.size()); real mn[3], mx[3];
  for (size_t i = 0; i < s.x.size(); i++) { for (int a = 0; a < 3; a++) { H::eq(t + "position-kept", c.pdata[i].pos[a], s.x[i][a]); if (i == 0 || s.x[i][a] < mn[a]) mn[a] = s.x[i][a]; if (i == 0 || s.x[i][a] > mx[a]) mx[a] = s.x[i][a]; }
    H::eq(t + "nz-kept", c.pdata[i].nz, s.w[i][0]); H::eq(t + "ws-kept", c.pdata[i].ws, s.w[i][1]); H::eq(t + "wc-kept", c.pdata[i].wc, s.w[i][2]); H::eq(t + "w-kept", c.pdata[i].w, s.w[i][1] * s.w[i][2]); }
  for (int a = 0; a < 3; a++) { H::eq(t + "extent-kept", c.pos_min[a], mn[a]); H::eq(t + "extent-kept", c.pos_max[a], mx[a]); } }
// sum-of-weights mesh: cell value * cell volume, positions shifted by d
static std::vector<real> mesh(const S& s, int order, const int n[3], const real L[3], const real d[3]) { std::vector<real> g((long)n[0] * n[1] * n[2], real(0));
  for (size_t i = 0; i < s.x.size(); i++) { std::vector<real> k[3]; for (int a = 0; a < 3; a++) orc::kern(order, real(n[a]) * (s.x[i][a] + d[a]) / L[a], n[a], k[a]); real w = s.w[i][1] * s.w[i][2];
    for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) { long q = ((long)x * n[1] + y) * n[2] + z; g[q] = g[q] + w * k[0][x] * k[1][y] * k[2][z]; } }
  return g; }
static real span(const S& s, int a) { real mn = s.x[0][a], mx = mn; for (auto& p : s.x) { if (p[a] < mn) mn = p[a]; if (p[a] > mx) mx = p[a]; } return mx - mn; }
static real low(const S& s, int a) { real mn = s.x[0][a]; for (auto& p : s.x) if (p[a] < mn) mn = p[a]; return mn; }
void harness() {
  trv::ParameterSet p = hu::params(); std::string op = H::cfg("op", "part"); int n = H::cfgi("np", 2), m = H::cfgi("nr", 2); bool sp = H::cfgi("sympos", 0); real alpha = H::var_oo("alpha", "0", "4"), zero[3] = {real(0), real(0), real(0)};
  real vc = p.volume / real((int)p.nmesh);
  if (op == "part") { Cat c(60); S s = fill(c, n, "d", p.boxsize, false, 0); real i2(0), i3(0); for (auto& w : s.w) { i2 = i2 + w[1] * w[0] * w[2] * w[2]; i3 = i3 + w[1] * w[0] * w[0] * w[2] * w[2] * w[2]; }
    bool r2 = false, r3 = false; real f2(0), f3(0); bool z2 = i2 == real(0), z3 = i3 == real(0);
    try { f2 = trv::calc_powspec_normalisation_from_particles(c, alpha); } catch (trv::sys::InvalidDataError&) { r2 = true; }
    try { f3 = trv::calc_bispec_normalisation_from_particles(c, alpha); } catch (trv::sys::InvalidDataError&) { r3 = true; }
    H::truth("vanishing-sum-rejected", r2 == z2); H::truth("vanishing-sum-rejected-3pt", r3 == z3);
    if (!z2 && !r2) H::eq("particle-norm", f2 * alpha * i2, real(1)); if (!z3 && !r3) H::eq("particle-norm-3pt", f3 * alpha * i3, real(1));
    kept("", c, s);
    if (!z2 && !r2 && !z3 && !r3) { real q = H::var_oo("q", "0", "8"); for (int i = 0; i < n; i++) c.pdata[i].wc = c.pdata[i].wc * q; real g2 = trv::calc_powspec_normalisation_from_particles(c, alpha), g3 = trv::calc_bispec_normalisation_from_particles(c, alpha); H::eq("rescaling", g2 * q * q, f2); H::eq("rescaling-3pt", g3 * q * q * q, f3); }
  } else if (op == "uninit") { Cat c(60); bool r2 = false, r3 = false; try { trv::calc_powspec_normalisation_from_particles(c, alpha); } catch (trv::sys::InvalidDataError&) { r2 = true; } try { trv::calc_bispec_normalisation_from_particles(c, alpha); } catch (trv::sys::InvalidDataError&) { r3 = true; } H::truth("uninitialised-rejected", r2 && r3); H::obs("alpha", alpha);
  } else if (op == "mesh") { Cat c(60); S s = fill(c, n, "d", p.boxsize, sp, 0); auto g = mesh(s, p.assignment_order, p.ngrid, p.boxsize, zero); real i2(0), i3(0); for (auto& v : g) { i2 = i2 + v * v; i3 = i3 + v * v * v; }
    i2 = i2 / vc; i3 = i3 / (vc * vc);
    real f2 = trv::calc_powspec_normalisation_from_mesh(c, p, alpha), f3 = trv::calc_bispec_normalisation_from_mesh(c, p, alpha);
    H::eq("mesh-norm", f2 * alpha * alpha * i2, real(1)); H::eq("mesh-norm-3pt", f3 * alpha * alpha * alpha * i3, real(1)); kept("", c, s);
    trv::MeshField f(p, false, "f"); H::eq("power-law-norm", f.calc_grid_based_powlaw_norm(c, 2) * i2, real(1)); kept("", c, s);
  } else if (op == "mixed" || op == "auto") {
    Cat c(60), r(60); S s = fill(c, n, "d", p.boxsize, sp && H::cfgi("who", 0) == 0, H::cfgi("big", 0) ? 2 : 9), q = fill(r, m, "r", p.boxsize, sp && H::cfgi("who", 0) == 1, H::cfgi("big", 0) ? 9 : 2); p.alignment = H::cfg("align", "centre"); p.padscale = H::cfg("padscale", "box"); p.padfactor = H::rl(H::cfg("pf", "1/16").c_str());
    int ng[3]; real L[3]; int ord = p.assignment_order; real pad(0), cell(1);
    if (op == "mixed") for (int a = 0; a < 3; a++) { ng[a] = p.ngrid[a]; L[a] = p.boxsize[a]; }
    else { pad = H::cfgi("sympad", 0) ? H::var("padding", "0", "1/2") : H::rl("1/8"); cell = H::cfgi("symcell", 0) ? H::var("cell", "1", "2") : H::rl("3/2"); real mx(0); for (int a = 0; a < 3; a++) { real u = span(s, a), v = span(q, a); if (u > mx) mx = u; if (v > mx) mx = v; }
      real want = (real(1) + pad) * mx; int k = 1; while (real(k) * cell < want) k++; if (k % 2) k++; for (int a = 0; a < 3; a++) { ng[a] = k; L[a] = real(k) * cell; }
      std::string as = H::cfg("as", "cic"); ord = as == "ngp" ? 1 : as == "cic" ? 2 : as == "tsc" ? 3 : 4; }
    real d[3]; for (int a = 0; a < 3; a++) { d[a] = p.alignment == "centre" ? L[a] / real(2) - (low(q, a) + span(q, a) / real(2)) : p.padscale == "box" ? p.padfactor * L[a] - low(q, a) : p.padfactor * L[a] / real(ng[a]) - low(q, a);
      H::assume(low(s, a) + d[a] >= real(0)); H::assume(low(s, a) + span(s, a) + d[a] < L[a]); H::assume(low(q, a) + d[a] >= real(0)); H::assume(low(q, a) + span(q, a) + d[a] < L[a]); }
    auto g = mesh(s, ord, ng, L, d), h = mesh(q, ord, ng, L, d); real i2(0); for (size_t i = 0; i < g.size(); i++) i2 = i2 + g[i] * h[i];
    real vol = L[0] * L[1] * L[2] / real(ng[0] * ng[1] * ng[2]); if ((H::cfgi("symcell", 0) || H::cfgi("skip0", 0)) && i2 == real(0)) { H::obs("vanishing", i2); return; }
    i2 = i2 / vol; real f2;
    if (op == "mixed") f2 = trv::calc_powspec_normalisation_from_meshes(c, r, p, alpha);
    else { p.bin_min = H::rl("1/10"); p.bin_max = real(1); p.num_bins = 3; p.norm_convention = "mesh-mixed"; p.form = "diag"; p.binning = "lin"; p.use_fftw_wisdom = "false"; p.save_binned_vectors = "false"; p.ell1 = p.ell2 = p.ELL = 0; p.validate(true); trv::sys::logger.reset_level(60); f2 = trv::calc_powspec_normalisation_from_meshes(c, r, p, alpha, pad, cell, H::cfg("as", "cic"));
      for (int a = 0; a < 3; a++) { H::truth("parameters-kept", p.ngrid[a] == H::cfgi("n", 4)); H::eq("parameters-kept-box", p.boxsize[a], H::rl(H::cfg("l", "4").c_str())); } H::truth("parameters-kept-scheme", p.assignment == H::cfg("scheme", "ngp")); }
    H::eq("mixed-norm", f2 * alpha * i2, real(1)); kept("", c, s); kept("random-", r, q);
  }
}
