// C15: one-dimensional extrapolation and the array checks of the core.
#include "harness.hpp"
#include "arrayops.hpp"
namespace A = trv::array;
static std::vector<real> vec(int n, const std::string& kind, const char* nm = "a") { std::vector<real> r; for (int i = 0; i < n; i++) { std::string k = nm + std::to_string(i);
  if (kind == "any") r.push_back(H::var(k, "-64", "64")); else { real v = H::var(k, "1/64", "64"); r.push_back(kind == "neg" ? -v : v); } } return r; }
static real pw(real x, int n) { real r(1); for (int i = 0; i < n; i++) r = r * x; return r; }
void harness() {
  std::string op = H::cfg("op", "extrap"), kind = H::cfg("kind", "lin"); int n = H::cfgi("n", 3), ne = H::cfgi("ne", 2);
  if (op == "extrap") {
    std::vector<real> a = vec(n, H::cfg("sign", "any")), a0 = a, out; if (H::cfgi("dirty", 0)) out.assign(2 * n + 3 * ne + 1, real(7));
    real lo(0), hi(0);
    if (kind == "pad") { lo = H::var("lo", "-64", "64"); hi = H::var("hi", "-64", "64"); A::extrap_pad(a, ne, lo, hi, out); }
    else if (kind == "lin") A::extrap_lin(a, ne, out); else A::extrap_loglin(a, ne, out);
    H::truth("size", (int)out.size() == n + 2 * ne);
    for (int i = 0; i < n; i++) { H::eq(H::ix("middle", i), out[ne + i], a0[i]); H::eq(H::ix("input", i), a[i], a0[i]); }
    for (int j = 1; j <= ne; j++) { real l = out[ne - j], r = out[ne + n - 1 + j];
      if (kind == "pad") { H::eq(H::ix("lower", j), l, lo); H::eq(H::ix("upper", j), r, hi); }
      else if (kind == "lin") { H::eq(H::ix("lower", j), l, a0[0] - real(j) * (a0[1] - a0[0])); H::eq(H::ix("upper", j), r, a0[n-1] + real(j) * (a0[n-1] - a0[n-2])); }
      else { H::eq(H::ix("lower", j), l * pw(a0[1], j), pw(a0[0], j + 1)); H::eq(H::ix("upper", j), r * pw(a0[n-2], j), pw(a0[n-1], j + 1)); } }
  } else if (op == "sign") {   // log-linear extrapolation refuses sign changes and zeros, and nothing else
    std::vector<real> a = vec(n, "any"), out; bool good = true; for (int i = 0; i < n; i++) { bool z = a[i] == real(0); if (!z) H::assume(a[i] * a[i] >= H::rl("1/256")); if (z) good = false; if (i && good) good = (a[i] > real(0)) == (a[i-1] > real(0)); }
    bool ok; try { A::extrap_loglin(a, ne, out); ok = true; } catch (std::invalid_argument&) { ok = false; }
    H::truth("accepted", ok == good); H::obs("ok", real(ok)); H::truth("check", (A::check_1d_array(a, false, false, true) == 0) == good);
  } else if (op == "spacing") {
    bool lg = H::cfgi("log", 0); int bad = H::cfgi("bad", -1); real a0 = H::var("a0", "1/4", "8"), s = lg ? (bad >= 0 ? H::rl(H::cfg("ratio", "2").c_str()) : H::var("ratio", "5/4", "3")) : H::var("step", "1/4", "2"); std::vector<real> v;
    for (int i = 0; i < n; i++) v.push_back(lg ? a0 * pw(s, i) : a0 + real(i) * s);
    if (bad >= 0) { real d = H::var("shift", "1/4", "3/4"); v[bad] = lg ? (bad ? v[bad] * (real(1) + d) : v[bad] / (real(1) + d)) : v[bad] + d * s; }
    if (H::cfgi("neg", 0)) for (auto& x : v) x = -x;
    int r = A::check_1d_array(v, !lg, lg, false); H::truth("accepted", (r == 0) == (bad < 0)); H::truth("code", r == (bad < 0 ? 0 : lg ? 2 : 1)); H::obs("code", real(r));
  } else if (op == "isclose") {
    real v = H::var("v", "-64", "64"), d = H::var("d", "-8", "8"); int at = H::cfgi("at", 0); std::vector<real> a(n, v); a[at] = v + d; bool r = A::check_isclose(a, v);
    real ad = d < real(0) ? -d : d, av = v < real(0) ? -v : v, t = H::rl("1e-8") + H::rl("1e-5") * av; H::assume(ad < t * H::rl("9/10") || ad > t * H::rl("11/10")); H::truth("close", r == (ad < t)); H::obs("r", real(r));
  } else {   // sorted indices: a permutation putting the keys in ascending order
    std::vector<int> k; for (int i = 0; i < n; i++) k.push_back(H::ivar("k" + std::to_string(i), 0, n - 1)); std::vector<int> k0 = k, ix = A::get_sorted_indices(k); H::truth("length", (int)ix.size() == n);
    std::vector<int> seen(n, 0); for (int i = 0; i < n; i++) { H::truth(H::ix("range", i), ix[i] >= 0 && ix[i] < n); seen[ix[i]]++; H::obs(H::ix("key", i), real(k0[ix[i]])); if (i) H::truth(H::ix("order", i), k0[ix[i-1]] <= k0[ix[i]]); H::truth(H::ix("kept", i), k[i] == k0[i]); }
    for (int i = 0; i < n; i++) H::truth(H::ix("once", i), seen[i] == 1);
  }
}
