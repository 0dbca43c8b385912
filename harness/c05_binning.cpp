// C05: binning schemes.
#include "harness.hpp"
#include "hutil.hpp"
static bool throws(std::function<void()> f) { try { f(); } catch (trv::sys::InvalidParameterError&) { return true; } return false; }
static void common(trv::Binning& b, int nb, const real& lo, const real& hi, const char* tag, const real& rmin) {
  std::string t(tag);
  H::truth(t + "count", b.num_bins == nb && (int)b.bin_edges.size() == nb + 1 && (int)b.bin_centres.size() == nb && (int)b.bin_widths.size() == nb);
  if ((int)b.bin_edges.size() != nb + 1 || (int)b.bin_centres.size() != nb || (int)b.bin_widths.size() != nb) return;
  H::eq(t + "first-edge", b.bin_edges[0], lo); H::eq(t + "last-edge", b.bin_edges[nb], hi);
  H::eq(t + "range-min", b.bin_min, rmin); H::eq(t + "range-max", b.bin_max, hi);
  for (int i = 0; i < nb; i++) {
    H::lt(H::ix((t + "increasing").c_str(), i), b.bin_edges[i], b.bin_edges[i + 1]);
    H::eq(H::ix((t + "centre").c_str(), i), b.bin_centres[i] * real(2), b.bin_edges[i] + b.bin_edges[i + 1]);
    H::eq(H::ix((t + "width").c_str(), i), b.bin_widths[i], b.bin_edges[i + 1] - b.bin_edges[i]); } }
void harness() {
  std::string sch = H::cfg("scheme", "lin"), space = H::cfg("space", "fourier"), via = H::cfg("via", "direct"); int nb = H::cfgi("nb", 4), npad = 5;
  if (via == "custom") { trv::Binning b(space, "lin"); int rep = H::cfgi("twice", 0); if (rep) b.set_bins(real(0), real(5), 3);
    std::vector<real> e; e.push_back(H::var("e0", "0", "1")); for (int i = 0; i < nb; i++) e.push_back(e.back() + H::var("d" + std::to_string(i), "1/64", "4"));
    b.set_bins(e); common(b, nb, e[0], e[nb], "", e[0]); for (int i = 0; i <= nb; i++) H::eq(H::ix("edge", i), b.bin_edges[i], e[i]); H::truth("scheme", b.scheme == "custom"); return; }
  if (via == "grid") { trv::Binning b(space, "log"); if (H::cfgi("twice", 0)) b.set_bins(real(1), real(8), 3); real L = H::var("L", "1", "4096"); int n = H::ivar("ngrid", 2, H::cfgi("nmax", 9)); b.set_bins(L, n); nb = n / 2;
    real w = space == "config" ? L / real(n) : real(2) * H::pi() / L; real hi = (space == "config" ? L / real(2) : H::pi() * real(n) / L) + w / real(2);
    common(b, nb, real(0), hi, "", real(0)); for (int i = 0; i + 1 < nb; i++) H::eq(H::ix("equal-width", i), b.bin_widths[i], b.bin_widths[i + 1]); H::truth("scheme", b.scheme == "lin"); return; }
  if (via == "reject") { trv::Binning b(space, sch); real lo = H::var("lo", "-8", "8"), hi = lo + H::var("d", "64", "128"); int n = H::ivar("n", -2, 7);
    bool pad = sch == "linpad" || sch == "logpad"; H::assume(n <= 0 || !pad || n > npad);
    bool bad = lo < real(0) || n <= 0 || (sch == "log" && lo == real(0)) || (sch != "lin" && sch != "log" && sch != "linpad" && sch != "logpad");
    H::truth("rejected-iff-invalid", throws([&]() { b.set_bins(lo, hi, n); }) == bad); return; }
  real lo, hi, pad; trv::Binning* b;
  bool padded = sch == "linpad" || sch == "logpad";
  if (via == "params") {
    trv::ParameterSet p = hu::params(); real L[3]; for (int a = 0; a < 3; a++) { L[a] = H::var("L" + std::to_string(a), "1", "8"); p.boxsize[a] = L[a]; }
    real mx = L[0]; if (mx < L[1]) mx = L[1]; if (mx < L[2]) mx = L[2]; int mn = std::min(p.ngrid[0], std::min(p.ngrid[1], p.ngrid[2]));
    pad = H::rl("201/200") * (space == "config" ? mx / real(mn) : real(2) * H::pi() / mx);
    p.space = space; p.binning = sch; lo = sch == "log" ? H::var("lo", "1/64", "1") : H::var("lo", "0", "1"); hi = H::var("hi", "1/64", "64"); H::assume(lo < hi); H::assume(!padded || real(npad) * pad < hi); p.bin_min = lo; p.bin_max = hi; p.num_bins = nb;
    b = new trv::Binning(p); b->set_bins();
  } else {
    b = new trv::Binning(space, sch); pad = space == "config" ? real(10) : H::rl("1/1000");
    if (H::cfgi("twice", 0)) b->set_bins(real(1), real(90), 8); else { b->set_bins(real(20), 7); b->scheme = sch; }
    lo = sch == "log" ? H::var("lo", "1/64", "8") : H::var("lo", "0", "8"); hi = H::var("hi", "1/64", "512"); H::assume(lo < hi); H::assume(!padded || real(npad) * pad < hi); b->set_bins(lo, hi, nb); }
  common(*b, nb, padded ? real(0) : lo, hi, "", lo);
  int i0 = padded ? npad : 0; std::vector<real>& e = b->bin_edges;
  for (int i = 0; i < i0; i++) H::eq(H::ix("pad-width", i), b->bin_widths[i], pad);
  for (int i = i0; i + 2 <= nb; i++) {
    if (sch == "lin" || sch == "linpad") H::eq(H::ix("equal-step", i), e[i + 1] - e[i], e[i + 2] - e[i + 1]);
    else H::eq(H::ix("equal-ratio", i), e[i + 1] * e[i + 1], e[i] * e[i + 2]); }
  H::truth("scheme", b->scheme == sch && b->space == space);
  delete b; }
