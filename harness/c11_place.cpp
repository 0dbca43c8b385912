// C11: placement operations of core particle catalogues.
#include "harness.hpp"
#include "particles.hpp"
#include "hutil.hpp"
typedef trv::ParticleCatalogue Cat;
struct Snap { std::vector<std::array<real,3>> x; std::vector<std::array<real,4>> w; };
static int symax;   // -1: all axes symbolic
static Snap fill(Cat& c, int n, const char* tag, const std::string& lo, const std::string& hi) {
  std::vector<real> x[3], nz, ws, wc; Snap s; s.x.resize(n); s.w.resize(n); int off = tag[0] == 'r' ? 3 : 0;
  for (int i = 0; i < n; i++) { for (int a = 0; a < 3; a++) { real v = (symax < 0 || symax == a) ? H::var(std::string(tag) + char('x' + a) + std::to_string(i), lo.c_str(), hi.c_str()) : real((i * 37 + a * 11 + off * 5) % 23) / real(4) - real(1) + real(a); x[a].push_back(v); s.x[i][a] = v; }
    nz.push_back(H::var(std::string(tag) + "n" + std::to_string(i), "0", "4")); ws.push_back(H::var(std::string(tag) + "s" + std::to_string(i), "-4", "4")); wc.push_back(H::var(std::string(tag) + "c" + std::to_string(i), "-4", "4")); s.w[i] = {nz[i], ws[i], wc[i], ws[i] * wc[i]}; }
  c.load_particle_data(x[0], x[1], x[2], nz, ws, wc); return s; }
static void extents(const std::string& t, Cat& c) { const char* ax = "xyz";
  for (int a = 0; a < 3; a++) { real mn = c.pdata[0].pos[a], mx = mn; for (int i = 1; i < c.ntotal; i++) { if (c.pdata[i].pos[a] < mn) mn = c.pdata[i].pos[a]; if (c.pdata[i].pos[a] > mx) mx = c.pdata[i].pos[a]; }
    std::string s(1, ax[a]); H::eq(t + "extent-min[" + s + "]", c.pos_min[a], mn); H::eq(t + "extent-max[" + s + "]", c.pos_max[a], mx); H::eq(t + "extent-span[" + s + "]", c.pos_span[a], mx - mn); } }
static void kept(const std::string& t, Cat& c, const Snap& s) { int n = s.x.size(); H::truth(t + "particle-number", c.ntotal == n);
  for (int i = 0; i < n; i++) { H::eq(H::ix((t + "nz").c_str(), i), c.pdata[i].nz, s.w[i][0]); H::eq(H::ix((t + "ws").c_str(), i), c.pdata[i].ws, s.w[i][1]); H::eq(H::ix((t + "wc").c_str(), i), c.pdata[i].wc, s.w[i][2]); H::eq(H::ix((t + "w").c_str(), i), c.pdata[i].w, s.w[i][3]); } }
static void moved(const std::string& t, Cat& c, const Snap& s, const real d[3]) { for (size_t i = 0; i < s.x.size(); i++) for (int a = 0; a < 3; a++) H::eq(H::ix((t + "displacement").c_str(), i, a), c.pdata[i].pos[a] - s.x[i][a], d[a]); }
void harness() {
  trv::sys::logger.reset_level(60); std::string op = H::cfg("op", "offset"); int n = H::cfgi("n", 2), m = H::cfgi("m", 2); symax = H::cfgi("axis", -1); bool pair = H::cfgi("pair", 0);
  Cat c(60), r(60); Snap s = fill(c, n, "d", H::cfg("lo", "-8"), H::cfg("hi", "8")), q; if (pair) q = fill(r, m, "r", H::cfg("lo", "-8"), H::cfg("hi", "8"));
  real L[3], P[3]; int ng[3]; bool bs = H::cfgi("symbox", 1); for (int a = 0; a < 3; a++) { std::string t(1, 'x' + a); L[a] = bs ? H::var("L" + t, "1", "16") : real(3 + 2 * a); P[a] = H::var("p" + t, "0", "4"); ng[a] = 3 + a; }
  for (int it = 0; it <= H::cfgi("twice", 0); it++) {
    if (op == "offset") { c.offset_coords(P); }
    else if (op == "period") c.offset_coords_for_periodicity(L);
    else if (op == "centre") { if (pair) Cat::centre_in_box(c, r, L); else Cat::centre_in_box(c, L); }
    else if (op == "pad") { if (pair) Cat::pad_in_box(c, r, L, P); else Cat::pad_in_box(c, L, P); }
    else if (op == "grids") { if (pair) Cat::pad_grids(c, r, L, ng, P); else Cat::pad_grids(c, L, ng, P); }
    if (op == "offset") break; }
  if (op == "extents") c.calc_pos_extents(H::cfgi("init", 1));
  Cat& ref = pair ? r : c; kept("", c, s); extents("", c); if (pair) { kept("reference-", r, q); extents("reference-", r); }
  if (op == "period") { for (int i = 0; i < n; i++) for (int a = 0; a < 3; a++) { real x = c.pdata[i].pos[a]; H::le(H::ix("wrapped-nonnegative", i, a), real(0), x); H::lt(H::ix("wrapped-below-box", i, a), x, L[a]); real k = (x - s.x[i][a]) / L[a]; int kk = 0; bool whole = false; for (int t = -9; t <= 9; t++) if (k == real(t)) { kk = t; whole = true; break; }
      if (H::native()) { kk = (int)std::lround(H::num(k)); whole = std::fabs(H::num(k) - kk) < 1e-9; } H::truth("moved-by-whole-boxes", whole); } return; }
  if (op == "extents") { real z[3] = {real(0), real(0), real(0)}; moved("", c, s, z); return; }
  real d[3]; for (int a = 0; a < 3; a++) {
    if (op == "offset") d[a] = -P[a]; else { d[a] = c.pdata[0].pos[a] - s.x[0][a]; std::string t(1, 'x' + a);
      if (op == "centre") H::eq("midpoint[" + t + "]", ref.pos_min[a] + ref.pos_max[a], L[a]); else if (op == "pad") H::eq("lands-at-pad[" + t + "]", ref.pos_min[a], P[a] * L[a]); else H::eq("lands-at-grid-pad[" + t + "]", ref.pos_min[a] * real(ng[a]), P[a] * L[a]); } }
  moved("", c, s, d); if (pair) moved("reference-", r, q, d); }
