// Symbolic-execution engine: interned exact polynomials, z3 back end, path
// exploration by re-execution, assertion discharge.
#include "engine.hpp"
#include <gmpxx.h>
#include "rat.hpp"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <gsl/gsl_sf_bessel.h>
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_sf_coupling.h>
#include <gsl/gsl_errno.h>

namespace symx {
typedef uint32_t AtomId; typedef uint32_t MonoId;
typedef Rat Q;
static mpz_class zfdiv(const Q& q) { mpz_class f, a = q.get_num(), b = q.get_den(); mpz_fdiv_q(f.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return f; }

enum Kind { A_VAR, A_PI, A_SQRT, A_EXP, A_LOG, A_SIN, A_COS, A_ACOS, A_UF, A_BASE };
struct Atom { Kind k; std::string name; std::vector<PolyId> args; bool positive; bool concrete; };
struct Mono { std::vector<std::pair<AtomId,int>> f; bool concrete; };
struct Poly { std::vector<std::pair<MonoId,Q>> t; bool concrete; bool has_approx = false; long double approx = 0; };

static std::vector<Atom> atoms; static std::vector<Mono> monos; static std::vector<Poly> polys;
static std::map<std::pair<std::pair<int,std::string>,std::vector<PolyId>>, AtomId> atom_ix;
static std::map<std::vector<std::pair<AtomId,int>>, MonoId> mono_ix;
static std::unordered_multimap<size_t, PolyId> poly_ix;
static Stats stats;
static Options opts;
static long expand_limit = 200000;

Stats& get_stats() { return stats; }
Options& get_opts() { return opts; }

static MonoId mk_mono(const std::vector<std::pair<AtomId,int>>& f) {
  auto it = mono_ix.find(f); if (it != mono_ix.end()) return it->second;
  Mono m; m.f = f; m.concrete = true; for (auto& p : f) if (!atoms[p.first].concrete) m.concrete = false;
  monos.push_back(m); MonoId id = monos.size()-1; mono_ix[f] = id; return id; }
static size_t hashq(const Q& q) { return q.hash(); }
static PolyId mk_poly(std::vector<std::pair<MonoId,Q>>&& t) {
  size_t h = t.size(); for (auto& p : t) { h = h * 1099511628211ull + p.first; h = h * 1099511628211ull + hashq(p.second); }
  auto r = poly_ix.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (polys[it->second].t == t) return it->second;
  Poly p; p.t = std::move(t); p.concrete = true;
  for (auto& x : p.t) if (!monos[x.first].concrete) { p.concrete = false; break; }
  polys.push_back(std::move(p)); PolyId id = polys.size()-1; poly_ix.emplace(h, id);
  if (id > 60000000) { fprintf(stderr, "symx: too many polynomials\n"); throw EngineError("too many polynomials"); }
  return id; }
static PolyId from_q(const Q& q) { if (q == 0) return 0; std::vector<std::pair<MonoId,Q>> t; t.emplace_back(0, q); return mk_poly(std::move(t)); }

static std::unordered_map<std::string, PolyId> lit_ix; static std::unordered_map<long long, PolyId> int_ix;
void engine_init() {
  if (!polys.empty()) return;
  gsl_set_error_handler_off();
  mk_mono({}); std::vector<std::pair<MonoId,Q>> z; Poly p; p.concrete = true; p.has_approx = true; polys.push_back(p);
  poly_ix.emplace(0, 0); }
static bool is_q(PolyId a) { auto& t = polys[a].t; return t.empty() || (t.size() == 1 && t[0].first == 0); }
static Q get_q(PolyId a) { auto& t = polys[a].t; return t.empty() ? Q(0) : t[0].second; }

PolyId p_int(long long v) { engine_init(); auto it = int_ix.find(v); if (it != int_ix.end()) return it->second;
  PolyId p = from_q(Q((long)v)); int_ix[v] = p; return p; }
PolyId p_dbl(double v) { engine_init();
  if (!std::isfinite(v)) throw EngineError("non-finite double constant");
  Q q(v); return from_q(q); }
PolyId p_lit(const char* s) { engine_init(); auto it = lit_ix.find(s); if (it != lit_ix.end()) return it->second;
  std::string m(s); while (!m.empty() && strchr("fFlL", m.back())) m.pop_back();
  bool neg = false; size_t i = 0; if (m[i]=='-') { neg = true; i++; } else if (m[i]=='+') i++;
  std::string dig; long ex = 0; bool dot = false;
  for (; i < m.size(); i++) { char c = m[i];
    if (c == '.') dot = true; else if (c == 'e' || c == 'E') { ex += atol(m.c_str()+i+1); break; }
    else if (c == '\'') continue; else if (isdigit(c)) { dig += c; if (dot) ex--; } else { return p_dbl(atof(s)); } }
  if (dig.empty()) dig = "0";
  mpz_class num(dig, 10), p10; mpz_ui_pow_ui(p10.get_mpz_t(), 10, std::labs(ex));
  Q q = ex >= 0 ? Q(mpz_class(num * p10)) : Q(num, p10); q.canonicalize(); if (neg) q = -q;
  PolyId p = from_q(q); lit_ix[s] = p; return p; }

static AtomId mk_atom(Kind k, const std::string& name, const std::vector<PolyId>& args, bool positive) {
  auto key = std::make_pair(std::make_pair((int)k, name), args);
  auto it = atom_ix.find(key); if (it != atom_ix.end()) return it->second;
  Atom a; a.k = k; a.name = name; a.args = args; a.positive = positive; a.concrete = (k != A_VAR);
  for (auto p : args) if (!polys[p].concrete) a.concrete = false;
  atoms.push_back(a); atom_ix[key] = atoms.size()-1; return atoms.size()-1; }
static PolyId atom_poly(AtomId a, int e = 1) {
  if (e == 0) return p_int(1);
  MonoId m = mk_mono({{a, e}}); std::vector<std::pair<MonoId,Q>> t; t.emplace_back(m, Q(1)); return mk_poly(std::move(t)); }

PolyId p_add(PolyId a, PolyId b) {
  if (a == 0) return b; if (b == 0) return a;
  auto& x = polys[a].t; auto& y = polys[b].t; std::vector<std::pair<MonoId,Q>> r; r.reserve(x.size()+y.size());
  size_t i = 0, j = 0;
  while (i < x.size() && j < y.size()) {
    if (x[i].first < y[j].first) r.push_back(x[i++]);
    else if (x[i].first > y[j].first) r.push_back(y[j++]);
    else { Q q = x[i].second + y[j].second; if (q != 0) r.emplace_back(x[i].first, q); i++; j++; } }
  while (i < x.size()) r.push_back(x[i++]); while (j < y.size()) r.push_back(y[j++]);
  stats.ops++; return mk_poly(std::move(r)); }
static PolyId scale(PolyId a, const Q& q) {
  if (q == 0) return 0; if (q == 1) return a;
  auto r = polys[a].t; for (auto& p : r) p.second *= q; stats.ops++; return mk_poly(std::move(r)); }
PolyId p_neg(PolyId a) { return scale(a, Q(-1)); }
PolyId p_sub(PolyId a, PolyId b) { if (a == b) return 0; return p_add(a, p_neg(b)); }

// product of monomials: rational factor, monomial, and residual polynomials
static std::unordered_map<uint64_t, MonoId> mm_memo;
static MonoId mul_mono_(MonoId a, MonoId b, Q& coef, std::vector<PolyId>& extra);
static MonoId mul_mono(MonoId a, MonoId b, Q& coef, std::vector<PolyId>& extra) {
  if (a == 0) return b; if (b == 0) return a; if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b; auto it = mm_memo.find(key); if (it != mm_memo.end()) return it->second;
  Q c0 = coef; MonoId m = mul_mono_(a, b, coef, extra); if (extra.empty() && coef == c0) mm_memo[key] = m; return m; }
static MonoId mul_mono_(MonoId a, MonoId b, Q& coef, std::vector<PolyId>& extra) {
  std::vector<std::pair<AtomId,int>> r; const auto x = monos[a].f, y = monos[b].f; size_t i = 0, j = 0;
  PolyId exparg = 0; int nexp = 0; AtomId lastexp = 0; int lastE = 0;
  auto push = [&](AtomId at, int e) {
    if (e == 0) return;
    const Atom& A = atoms[at];
    if (A.k == A_SQRT) {
      int h = (e >= 0) ? e / 2 : -((-e + 1) / 2); int rem = e - 2*h;  // rem in {0,1}
      if (h != 0) { PolyId arg = A.args[0];
        if (is_q(arg)) { Q q = get_q(arg); for (int n = 0; n < std::abs(h); n++) { if (h > 0) coef *= q; else coef /= q; } }
        else extra.push_back(p_powi(arg, h)); }
      if (rem) r.emplace_back(at, 1);
      return; }
    if (A.k == A_SIN && e >= 2) { PolyId c = atom_poly(mk_atom(A_COS, "", A.args, false));   // sin^2 = 1 - cos^2
      extra.push_back(p_powi(p_sub(p_int(1), p_mul(c, c)), e / 2)); if (e & 1) r.emplace_back(at, 1); return; }
    if (A.k == A_EXP) { PolyId g = scale(A.args[0], Q(e)); exparg = p_add(exparg, g); nexp++; lastexp = at; lastE = e; return; }
    r.emplace_back(at, e); };
  while (i < x.size() && j < y.size()) {
    if (x[i].first < y[j].first) { push(x[i].first, x[i].second); i++; }
    else if (x[i].first > y[j].first) { push(y[j].first, y[j].second); j++; }
    else { push(x[i].first, x[i].second + y[j].second); i++; j++; } }
  while (i < x.size()) { push(x[i].first, x[i].second); i++; } while (j < y.size()) { push(y[j].first, y[j].second); j++; }
  if (nexp) for (size_t k = 0; k < r.size();) { const Atom A = atoms[r[k].first];   // sqrt(x)*exp(q log x + ..) -> exp((q+1/2) log x + ..)
    bool merge = false; if (A.k == A_SQRT && A.positive && polys[A.args[0]].t.size() == 1) { PolyId lg = p_log(A.args[0]); if (polys[lg].t.size() == 1) for (auto& t : polys[exparg].t) if (t.first == polys[lg].t[0].first) merge = true;
      if (merge) { exparg = p_add(exparg, scale(lg, Q(r[k].second, 2))); nexp += 2; r.erase(r.begin() + k); } }
    if (!merge) k++; }
  if (nexp == 1 && lastE == 1) { r.emplace_back(lastexp, 1); std::sort(r.begin(), r.end()); }
  else if (nexp >= 1) extra.push_back(p_exp(exparg));
  return mk_mono(r); }
static Q lead(PolyId a) { return polys[a].t.back().second; }
static bool has_base(MonoId m, AtomId b, int& e) { for (auto& p : monos[m].f) if (p.first == b) { e = p.second; return true; } return false; }

static PolyId mul_term(MonoId m, const Q& q, PolyId b) {  // (q*m) * b
  std::vector<std::pair<MonoId,Q>> r; PolyId rest = 0; const auto y = polys[b].t;
  for (auto& p : y) { Q c = q * p.second; std::vector<PolyId> ex; MonoId mm = mul_mono(m, p.first, c, ex);
    if (ex.empty()) r.emplace_back(mm, c);
    else { std::vector<std::pair<MonoId,Q>> one; one.emplace_back(mm, c); PolyId v = mk_poly(std::move(one));
      for (auto e : ex) v = p_mul(v, e); rest = p_add(rest, v); } }
  std::sort(r.begin(), r.end(), [](auto& u, auto& v) { return u.first < v.first; });
  std::vector<std::pair<MonoId,Q>> s; for (auto& p : r) { if (!s.empty() && s.back().first == p.first) { s.back().second += p.second; if (s.back().second == 0) s.pop_back(); } else s.push_back(p); }
  return p_add(mk_poly(std::move(s)), rest); }
static PolyId cancel_base(PolyId a, PolyId b) {  // a multi-term, b single term with BASE^-1 of a?
  Q l = lead(a); PolyId an = scale(a, Q(1)/l);
  auto it = atom_ix.find(std::make_pair(std::make_pair((int)A_BASE, std::string()), std::vector<PolyId>{an}));
  if (it == atom_ix.end()) return (PolyId)-1;
  const auto bt = polys[b].t; 
  for (auto& p : bt) { int e; if (!has_base(p.first, it->second, e) || e >= 0) return (PolyId)-1; }
  return scale(mul_term(mk_mono({{it->second, 1}}), Q(1), b), l); }
static std::unordered_map<uint64_t, PolyId> mul_memo;
PolyId p_mul(PolyId a, PolyId b) {
  if (a == 0 || b == 0) return 0;
  if (is_q(a)) return scale(b, get_q(a)); if (is_q(b)) return scale(a, get_q(b));
  if (polys[a].t.size() > polys[b].t.size()) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b; auto it = mul_memo.find(key); if (it != mul_memo.end()) return it->second;
  stats.ops++;
  PolyId res;
  size_t na = polys[a].t.size(), nb = polys[b].t.size();
  if (nb > 1) { PolyId c = cancel_base(b, a); if (c != (PolyId)-1) { mul_memo[key] = c; return c; } }
  if (na > 1) { PolyId c = cancel_base(a, b); if (c != (PolyId)-1) { mul_memo[key] = c; return c; } }
  if (na > 1 && (long)(na * nb) > expand_limit) {
    // do not expand: wrap the larger operand as an atom
    Q l = lead(b); PolyId bn = scale(b, Q(1)/l); AtomId at = mk_atom(A_BASE, "", {bn}, false);
    res = mul_term(mk_mono({{at, 1}}), l, a);
  } else if (na == 1) { auto t = polys[a].t[0]; res = mul_term(t.first, t.second, b);
  } else {
    std::vector<std::pair<MonoId, Q>> acc; acc.reserve(na * nb); PolyId rest = 0; const auto x = polys[a].t, y = polys[b].t;
    for (auto& p : x) for (auto& q : y) { Q c = p.second * q.second; std::vector<PolyId> ex; MonoId mm = mul_mono(p.first, q.first, c, ex);
      if (ex.empty()) acc.emplace_back(mm, c);
      else { std::vector<std::pair<MonoId,Q>> one; one.emplace_back(mm, c); PolyId v = mk_poly(std::move(one));
        for (auto e : ex) v = p_mul(v, e); rest = p_add(rest, v); } }
    std::sort(acc.begin(), acc.end(), [](auto& u, auto& v) { return u.first < v.first; });
    std::vector<std::pair<MonoId,Q>> s; s.reserve(acc.size()); for (auto& p : acc) { if (!s.empty() && s.back().first == p.first) s.back().second += p.second; else { if (!s.empty() && s.back().second == 0) s.pop_back(); s.push_back(std::move(p)); } }
    if (!s.empty() && s.back().second == 0) s.pop_back();
    res = p_add(mk_poly(std::move(s)), rest); }
  mul_memo[key] = res; return res; }
static PolyId inv_poly(PolyId b) {
  if (b == 0) throw DivByZero();
  if (is_q(b)) return from_q(Q(1)/get_q(b));
  auto t = polys[b].t;
  if (t.size() == 1) {
    std::vector<std::pair<AtomId,int>> f; Q c = Q(1)/t[0].second; std::vector<PolyId> ex;
    for (auto& p : monos[t[0].first].f) {
      const Atom A = atoms[p.first];
      if (A.k == A_SQRT) { // 1/sqrt(x) = sqrt(x)/x
        ex.push_back(p_mul(atom_poly(p.first), p_powi(A.args[0], -1))); if (p.second != 1) throw EngineError("sqrt exponent"); }
      else if (A.k == A_EXP) ex.push_back(p_exp(scale(A.args[0], Q(-p.second))));
      else f.emplace_back(p.first, -p.second); }
    std::vector<std::pair<MonoId,Q>> one; one.emplace_back(mk_mono(f), c); PolyId r = mk_poly(std::move(one));
    for (auto e : ex) r = p_mul(r, e); return r; }
  Q l = lead(b); PolyId bn = scale(b, Q(1)/l); AtomId at = mk_atom(A_BASE, "", {bn}, false);
  return scale(atom_poly(at, -1), Q(1)/l); }
static void note_divisor(PolyId b);
static int sign_concrete(PolyId d);
PolyId p_div(PolyId a, PolyId b) {
  if (b == 0) { if (opts.inf && polys[a].concrete) { int sg = a ? sign_concrete(a) : 0; if (!a) return 0; if (sg) return p_lit(sg > 0 ? "1e300" : "-1e300"); } stats.div_by_zero++; throw DivByZero(); }
  if (!polys[b].concrete) note_divisor(b);
  if (a == b) return p_int(1);
  if (is_q(b)) return scale(a, Q(1)/get_q(b));
  return p_mul(a, inv_poly(b)); }
PolyId p_powi(PolyId a, long long n) {
  if (n == 0) return p_int(1);
  if (n < 0) { if (!polys[a].concrete) note_divisor(a); a = inv_poly(a); n = -n; }
  PolyId r = p_int(1); while (n) { if (n & 1) r = p_mul(r, a); n >>= 1; if (n) a = p_mul(a, a); } return r; }
PolyId p_pi() { engine_init(); static AtomId a = mk_atom(A_PI, "pi", {}, true); return atom_poly(a); }
bool p_isconst(PolyId a) { return polys[a].concrete; }

static PolyId sqrt_q(const Q& q) {  // q>0
  mpz_class n = q.get_num() * q.get_den(); Q out(1); out /= Q(q.get_den());
  PolyId r = p_int(1);
  for (unsigned long p = 2; mpz_class(p) * p <= n && p < 200000; p++) {
    int e = 0; while (mpz_divisible_ui_p(n.get_mpz_t(), p)) { n /= p; e++; }
    for (int i = 0; i < e/2; i++) out *= Q(p);
    if (e & 1) r = p_mul(r, atom_poly(mk_atom(A_SQRT, "", {p_int(p)}, true))); }
  if (n != 1) { mpz_class s; if (mpz_perfect_square_p(n.get_mpz_t())) { s = sqrt(n); out *= Q(s); }
    else r = p_mul(r, atom_poly(mk_atom(A_SQRT, "", {from_q(Q(n))}, true))); }
  return scale(r, out); }
static PolyId content(PolyId a, Q& c) {  // a = c * primitive, c>0
  mpz_class g = 0, l = 1; for (auto& p : polys[a].t) { g = gcd(g, p.second.get_num()); l = lcm(l, p.second.get_den()); }
  c = Q(abs(g), l); c.canonicalize(); return scale(a, Q(1)/c); }
// a * D^e for the BASE atom db = D, cancelling term by term
static PolyId clear_base(PolyId a, AtomId db, int e) {
  const auto t = polys[a].t; PolyId N = 0; std::map<int, PolyId> grp; PolyId D = atoms[db].args[0];
  for (auto& x : t) { int k = 0; std::vector<std::pair<AtomId,int>> f; for (auto& g : monos[x.first].f) { if (g.first == db) k = g.second; else f.push_back(g); }
    std::vector<std::pair<MonoId,Q>> one; one.emplace_back(mk_mono(f), x.second); PolyId v = mk_poly(std::move(one)); auto it = grp.find(k); if (it == grp.end()) grp[k] = v; else it->second = p_add(it->second, v); }
  for (auto& g : grp) N = p_add(N, p_mul(g.second, p_powi(D, e + g.first)));
  return N; }
// numerator over a common denominator (denominators are nonzero on every path)
static PolyId numerator(PolyId a) {
  for (int it = 0; it < 40; it++) { AtomId db = 0; int me = 0; const auto t = polys[a].t; if (t.size() > 4000) return a;
    for (auto& x : t) for (auto& f : monos[x.first].f) if (atoms[f.first].k == A_BASE && f.second < me) { me = f.second; db = f.first; }
    if (me == 0) return a; a = clear_base(a, db, -me); }
  return a; }
PolyId p_sqrt(PolyId a) {
  if (a == 0) return 0;
  if (is_q(a)) { Q q = get_q(a); if (q < 0) throw EngineError("sqrt of negative"); return sqrt_q(q); }
  auto t = polys[a].t;
  if (t.size() == 1) { Q c = t[0].second; PolyId r = p_int(1); std::vector<std::pair<AtomId,int>> left; bool ok = c > 0;
    for (auto& p : monos[t[0].first].f) {
      if (atoms[p.first].positive) {
        int h = p.second / 2, rem = p.second % 2; if (rem < 0) { rem += 2; h -= 1; }
        if (h) r = p_mul(r, atom_poly(p.first, h));
        if (rem) r = p_mul(r, atom_poly(mk_atom(A_SQRT, "", {atom_poly(p.first)}, true))); }
      else left.push_back(p); }
    if (ok && left.empty()) return p_mul(r, sqrt_q(c));
    if (ok && left.size() == 1 && left[0].second == 2) {  // sqrt(c x^2) = sqrt(c)|x|
      PolyId x = atom_poly(left[0].first); if (decide(x, LT, 0)) x = p_neg(x); return p_mul(p_mul(r, sqrt_q(c)), x); } }
  // common even powers of positive variables leave the root
  if (t.size() > 1 && !polys[a].concrete) { PolyId out = p_int(1), inn = p_int(1);
    for (auto& g : monos[t[0].first].f) { if (atoms[g.first].k != A_VAR || !atoms[g.first].positive) continue; int mn = g.second, mx = g.second;
      for (auto& x : t) { int e = 0; has_base(x.first, g.first, e); mn = std::min(mn, e); mx = std::max(mx, e); }
      int h = mn > 0 ? mn / 2 : mx < 0 ? -((-mx) / 2) : 0; if (!h) continue; out = p_mul(out, atom_poly(g.first, h)); inn = p_mul(inn, atom_poly(g.first, -2 * h)); }
    if (out != p_int(1)) return p_mul(out, p_sqrt(p_mul(a, inn))); }
  // pull a common denominator out: sqrt(N/D) = sqrt(N)/sqrt(D), sqrt(N/D^2) = sqrt(N)/|D|
  if (!polys[a].concrete) { AtomId db = 0; int me = 0; for (auto& x : t) for (auto& f : monos[x.first].f) if (atoms[f.first].k == A_BASE && f.second < me) { me = f.second; db = f.first; }
    if (me < 0) { PolyId D = atoms[db].args[0]; int e = -me; PolyId N = clear_base(a, db, e);
      bool still = false; for (auto& x : polys[N].t) for (auto& f : monos[x.first].f) if (f.first == db && f.second < 0) still = true;
      if (!still) { bool neg = decide(D, LT, 0); PolyId absD = neg ? p_neg(D) : D; if (neg && (e & 1)) N = p_neg(N);
        PolyId r = p_sqrt(N); r = p_mul(r, p_powi(absD, -(e / 2))); if (e & 1) r = p_div(r, p_sqrt(absD)); return r; } } }
  Q c; PolyId pr = content(a, c);
  if (polys[a].concrete && p_approx(a) < 0) { if (p_approx(a) > -1e-15) return 0; throw EngineError("sqrt of negative"); }
  return p_mul(sqrt_q(c), atom_poly(mk_atom(A_SQRT, "", {pr}, true))); }
PolyId p_exp(PolyId a) {
  engine_init(); if (a == 0) return p_int(1);
  PolyId r = p_int(1), rest = 0; const auto t = polys[a].t;
  for (auto& p : t) { auto& f = monos[p.first].f;
    if (f.size() == 1 && f[0].second == 1 && atoms[f[0].first].k == A_LOG) {
      Q q = p.second; mpz_class fl; fl = zfdiv(q);
      PolyId arg = atoms[f[0].first].args[0]; long n = fl.get_si(); if (n) r = p_mul(r, p_powi(arg, n)); q -= Q(fl);
      if (q == Q(1,2)) { r = p_mul(r, p_sqrt(arg)); q = 0; }
      if (q != 0) { std::vector<std::pair<MonoId,Q>> one; one.emplace_back(p.first, q); rest = p_add(rest, mk_poly(std::move(one))); } }
    else { std::vector<std::pair<MonoId,Q>> one; one.push_back(p); rest = p_add(rest, mk_poly(std::move(one))); } }
  if (rest == 0) return r;
  return p_mul(r, atom_poly(mk_atom(A_EXP, "", {rest}, true))); }
PolyId p_log(PolyId a) {
  if (is_q(a)) { Q q = get_q(a); if (q <= 0) throw EngineError("log of nonpositive"); if (q == 1) return 0; }
  const auto t = polys[a].t;
  if (t.size() == 1 && t[0].second > 0) { PolyId r = 0; Q c = t[0].second; std::vector<std::pair<AtomId,int>> left;
    for (auto& p : monos[t[0].first].f) { const Atom A = atoms[p.first];
      if (A.k == A_EXP) r = p_add(r, scale(A.args[0], Q(p.second)));
      else if (A.k == A_SQRT) r = p_add(r, scale(p_log(A.args[0]), Q(p.second, 2)));
      else if (A.positive) r = p_add(r, scale(atom_poly(mk_atom(A_LOG, "", {atom_poly(p.first)}, false)), Q(p.second)));
      else left.push_back(p); }
    if (c != 1) { // factor small primes
      auto addz = [&](mpz_class n, int sg) { for (unsigned long p = 2; p < 1000 && n > 1; p++) { int e = 0; while (mpz_divisible_ui_p(n.get_mpz_t(), p)) { n /= p; e++; }
          if (e) r = p_add(r, scale(atom_poly(mk_atom(A_LOG, "", {p_int(p)}, true)), Q(sg*e))); }
        if (n > 1) r = p_add(r, scale(atom_poly(mk_atom(A_LOG, "", {from_q(Q(n))}, true)), Q(sg))); };
      addz(c.get_num(), 1); addz(c.get_den(), -1); }
    if (!left.empty()) { std::vector<std::pair<MonoId,Q>> one; one.emplace_back(mk_mono(left), Q(1)); r = p_add(r, atom_poly(mk_atom(A_LOG, "", {mk_poly(std::move(one))}, false))); }
    return r; }
  return atom_poly(mk_atom(A_LOG, "", {a}, false)); }
static bool pi_multiple(PolyId a, Q& q) {  // a == q*pi ?
  if (a == 0) { q = 0; return true; }
  auto& t = polys[a].t; if (t.size() != 1) return false; auto& f = monos[t[0].first].f;
  if (f.size() == 1 && f[0].second == 1 && atoms[f[0].first].k == A_PI) { q = t[0].second; return true; } return false; }
static PolyId cos_tab(Q q) {  // cos(q*pi), exact for denominators dividing 12, else (PolyId)-1
  mpz_class two = 2; mpz_class fl; Q h = q / 2; fl = zfdiv(h); q -= 2 * Q(fl);
  if (q > 1) q = 2 - q; bool neg = false; if (q > Q(1,2)) { q = 1 - q; neg = true; }
  PolyId r; Q z = q * 60;
  if (z.get_den() != 1) return (PolyId)-1;
  PolyId s2 = sqrt_q(2), s3 = sqrt_q(3), s6 = p_mul(s2, s3);
  if (q == 0) r = p_int(1); else if (q == Q(1,12)) r = scale(p_add(s6, s2), Q(1,4)); else if (q == Q(1,6)) r = scale(s3, Q(1,2));
  else if (q == Q(1,4)) r = scale(s2, Q(1,2)); else if (q == Q(1,3)) r = from_q(Q(1,2)); else if (q == Q(5,12)) r = scale(p_sub(s6, s2), Q(1,4));
  else if (q == Q(1,2)) r = 0;
  else if (q == Q(1,5)) r = scale(p_add(sqrt_q(5), p_int(1)), Q(1,4)); else if (q == Q(2,5)) r = scale(p_sub(sqrt_q(5), p_int(1)), Q(1,4));
  else return (PolyId)-1;
  return neg ? p_neg(r) : r; }
static PolyId half_cos(Q q) {  // cos(q*pi) via half-angle, denominators 8,16,10,20...
  PolyId c = cos_tab(q); if (c != (PolyId)-1) return c;
  mpz_class d = q.get_den(); if (d > 64) return (PolyId)-1;
  PolyId c2 = cos_tab(q * 2); if (c2 == (PolyId)-1) { if (mpz_odd_p(d.get_mpz_t())) return (PolyId)-1; c2 = half_cos(q * 2); if (c2 == (PolyId)-1) return c2; }
  PolyId v = p_sqrt(scale(p_add(p_int(1), c2), Q(1,2)));
  Q h = q / 2; mpz_class fl; fl = zfdiv(h); Q r = q - 2 * Q(fl);
  bool neg = r > Q(1,2) && r < Q(3,2); return neg ? p_neg(v) : v; }
static bool split_pi(PolyId a, Q& q, PolyId& rest) { q = 0; rest = 0;
  const auto t = polys[a].t; bool any = false;
  for (auto& p : t) { auto& f = monos[p.first].f;
    if (f.size() == 1 && f[0].second == 1 && atoms[f[0].first].k == A_PI) { q = p.second; any = true; }
    else { std::vector<std::pair<MonoId,Q>> one; one.push_back(p); rest = p_add(rest, mk_poly(std::move(one))); } }
  return any; }
// n*acos(c) + q*pi
static bool acos_multiple(PolyId a, long& n, PolyId& c) {
  auto& t = polys[a].t; if (t.size() != 1) return false; auto& f = monos[t[0].first].f;
  if (f.size() == 1 && f[0].second == 1 && atoms[f[0].first].k == A_ACOS && t[0].second.get_den() == 1) {
    n = t[0].second.get_num().get_si(); c = atoms[f[0].first].args[0]; return true; } return false; }
static void chebyshev(long n, PolyId c, PolyId& co, PolyId& si) {
  PolyId s = p_sqrt(p_sub(p_int(1), p_mul(c, c))); co = p_int(1); si = 0;
  for (long i = 0; i < std::labs(n); i++) { PolyId a = p_sub(p_mul(co, c), p_mul(si, s)), b = p_add(p_mul(si, c), p_mul(co, s)); co = a; si = b; }
  if (n < 0) si = p_neg(si); }
static void sincos(PolyId a, PolyId& co, PolyId& si) {
  Q q; PolyId rest; split_pi(a, q, rest); PolyId cr, sr;
  if (rest == 0) { cr = p_int(1); sr = 0; }
  else { long n; PolyId c;
    if (acos_multiple(rest, n, c)) chebyshev(n, c, cr, sr);
    else { bool neg = lead(rest) < 0; PolyId p = neg ? p_neg(rest) : rest;
      // multi-term sums: addition theorem term by term (keeps e^{i(a+b)} = e^{ia}e^{ib} exact)
      const auto t = polys[p].t;
      if (t.size() > 1 && t.size() <= 6) { cr = p_int(1); sr = 0;
        for (auto& x : t) { std::vector<std::pair<MonoId,Q>> one; one.push_back(x); PolyId c1, s1; sincos(mk_poly(std::move(one)), c1, s1);
          PolyId a1 = p_sub(p_mul(cr, c1), p_mul(sr, s1)), b1 = p_add(p_mul(sr, c1), p_mul(cr, s1)); cr = a1; sr = b1; } }
      else { cr = atom_poly(mk_atom(A_COS, "", {p}, false)); sr = atom_poly(mk_atom(A_SIN, "", {p}, false)); }
      if (neg) sr = p_neg(sr); } }
  if (q == 0) { co = cr; si = sr; return; }
  PolyId c0 = half_cos(q), s0 = half_cos(Q(1,2) - q);
  if (c0 == (PolyId)-1 || s0 == (PolyId)-1) { PolyId th = p_mul(from_q(q), p_pi());
    bool neg = q < 0; if (neg) th = p_neg(th);
    c0 = atom_poly(mk_atom(A_COS, "", {th}, false)); s0 = atom_poly(mk_atom(A_SIN, "", {th}, false)); if (neg) s0 = p_neg(s0); }
  co = p_sub(p_mul(c0, cr), p_mul(s0, sr)); si = p_add(p_mul(s0, cr), p_mul(c0, sr)); }
PolyId p_cos(PolyId a) { PolyId c, s; sincos(a, c, s); return c; }
PolyId p_sin(PolyId a) { PolyId c, s; sincos(a, c, s); return s; }
PolyId p_acos(PolyId a) {
  if (is_q(a)) { Q q = get_q(a); if (q == 1) return 0; if (q == -1) return p_pi(); if (q == 0) return scale(p_pi(), Q(1,2)); }
  return atom_poly(mk_atom(A_ACOS, "", {a}, false)); }
PolyId p_pow(PolyId a, PolyId b) {
  if (is_q(b)) { Q q = get_q(b); if (q.get_den() == 1) return p_powi(a, q.get_num().get_si());
    if (q.get_den() == 2) return p_powi(p_sqrt(a), q.get_num().get_si()); }
  return p_exp(p_mul(b, p_log(a))); }
PolyId p_uf(const char* name, std::vector<PolyId> args) {
  std::string n(name);
  if (n == "atan2" && args[0] == 0 && polys[args[1]].concrete && p_approx(args[1]) > 0) return 0;
  return atom_poly(mk_atom(A_UF, n, args, false)); }
PolyId p_j3(double v) {
  if (v == 0) return 0; double s = v * v; // nearest small rational
  double x = s; long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 40; i++) { long a = (long)std::floor(x); long p2 = a*p1 + p0, q2 = a*q1 + q0;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2; if (std::fabs((double)p1/q1 - s) < 1e-14) break;
    if (x - a < 1e-13) break; x = 1/(x - a); if (q1 > 100000000L) throw EngineError("3j not recognised"); }
  PolyId r = sqrt_q(Q(p1, q1)); return v < 0 ? p_neg(r) : r; }

double real_3j(int a, int b, int c, int d, int e, int f) { return gsl_sf_coupling_3j(a, b, c, d, e, f); }
std::string uf_name_of(PolyId p, PolyId arg) { auto& t = polys[p].t; if (t.size() != 1 || t[0].second != 1) return ""; auto& f = monos[t[0].first].f;
  if (f.size() != 1 || f[0].second != 1 || atoms[f[0].first].k != A_UF || atoms[f[0].first].args[0] != arg) return ""; return atoms[f[0].first].name; }

// ---------- numeric evaluation ----------
typedef std::map<std::string,double> Assign;
static long double uf_eval(const Atom& A, const std::vector<long double>& v) {
  const std::string& n = A.name;
  if (n.rfind("jl", 0) == 0) return gsl_sf_bessel_jl(atoi(n.c_str()+2), (double)v[0]);
  if (n == "atan2") return std::atan2(v[0], v[1]);
  if (n == "lngamma_r" || n == "lngamma_t") { gsl_sf_result a, b; gsl_sf_lngamma_complex_e((double)v[0], (double)v[1], &a, &b); return n.back() == 'r' ? a.val : b.val; }
  throw EngineError("no numeric model for UF " + n); }
struct Evaluator { const Assign* as; std::unordered_map<AtomId,long double> memo;
  long double atom(AtomId a) { auto it = memo.find(a); if (it != memo.end()) return it->second;
    const Atom A = atoms[a]; long double r = 0;
    switch (A.k) {
      case A_VAR: { if (!as) throw EngineError("not concrete"); auto f = as->find(A.name); if (f == as->end()) throw EngineError("unassigned " + A.name); r = f->second; break; }
      case A_PI: r = M_PIl; break;
      case A_SQRT: { long double v = poly(A.args[0]); r = v <= 0 ? 0 : sqrtl(v); break; }
      case A_EXP: r = expl(poly(A.args[0])); break; case A_LOG: r = logl(poly(A.args[0])); break;
      case A_SIN: r = sinl(poly(A.args[0])); break; case A_COS: r = cosl(poly(A.args[0])); break; case A_ACOS: r = acosl(poly(A.args[0])); break;
      case A_BASE: r = poly(A.args[0]); break;
      case A_UF: { std::vector<long double> v; for (auto p : A.args) v.push_back(poly(p)); r = uf_eval(A, v); break; } }
    memo[a] = r; return r; }
  long double poly(PolyId p) { long double s = 0; const auto& t0 = polys[p].t;
    for (size_t i = 0; i < t0.size(); i++) { long double m;
      { mpf_class c(polys[p].t[i].second.q(), 128); double hi = c.get_d(); mpf_class lo = c - hi; m = (long double)hi + (long double)lo.get_d(); }
      MonoId mm = polys[p].t[i].first; for (size_t j = 0; j < monos[mm].f.size(); j++) { auto f = monos[mm].f[j]; m *= powl(atom(f.first), f.second); }
      s += m; } return s; } };
static Evaluator conc_ev{nullptr, {}};
double p_approx(PolyId a) { Poly& p = polys[a]; if (p.has_approx) return (double)p.approx;
  if (!p.concrete) throw EngineError("numeric value of symbolic expression requested");
  long double v = conc_ev.poly(a); polys[a].approx = v; polys[a].has_approx = true; return (double)v; }

static std::string p_str(PolyId p) { std::string r; for (auto& x : polys[p].t) { r += (r.empty() ? "" : " + ") + std::string(x.second.get_str()); for (auto& f : monos[x.first].f) { const Atom& A = atoms[f.first]; static const char* kn[] = {"var","pi","sqrt","exp","log","sin","cos","acos","uf","base"};
    r += "*"; if (A.k == A_VAR || A.k == A_PI) r += A.name; else { r += std::string(kn[A.k]) + "(" ; for (auto q : A.args) r += p_str(q) + ","; r += ")"; } if (f.second != 1) r += "^" + std::to_string(f.second); } } return r.empty() ? "0" : r; }
// ---------- boxed handles ----------
static const uint64_t TAG = 0xFFFA000000000000ull;
double to_bits(PolyId p) { uint64_t u = p == 0 ? 0 : (TAG | p); double d; memcpy(&d, &u, 8); return d; }
PolyId from_bits(double d) { uint64_t u; memcpy(&u, &d, 8); if (u == 0) return 0;
  if ((u & 0xFFFF000000000000ull) == TAG) { PolyId p = (PolyId)(u & 0xFFFFFFFFu); if ((u & 0x0000FFFF00000000ull) == 0 && p < polys.size()) return p; }
  poison_read(u); return 0; }

// ---------- z3 ----------
static z3::context* C = nullptr; static z3::solver* S = nullptr;
static std::unordered_map<AtomId, z3::expr>* zatom; static std::unordered_map<PolyId, z3::expr>* zpoly;
struct Side { AtomId a; z3::expr e; };
static std::vector<Side>* sides;      // side constraints already created
static std::vector<AtomId> exp_atoms, log_atoms;
static size_t side_done = 0;
static std::vector<z3::expr>* pending_side;
struct VarInfo { std::string name; bool has_lo, has_hi; Q lo, hi; bool lo_open, hi_open; AtomId atom; bool isint; };
static std::vector<VarInfo> vars; static std::map<std::string,int> var_ix;
static z3::expr zq(const Q& q) { return C->real_val(q.get_str().c_str()); }
static z3::expr z_poly(PolyId p);
static void side(const z3::expr& e) { pending_side->push_back(e); }
static z3::expr z_atom(AtomId a) {
  auto it = zatom->find(a); if (it != zatom->end()) return it->second;
  const Atom A = atoms[a]; std::ostringstream nm; nm << (A.k == A_VAR ? A.name : ("a" + std::to_string(a)));
  z3::expr v = C->real_const(nm.str().c_str());
  if (A.k == A_UF) { z3::sort_vector sv(*C); z3::expr_vector ev(*C); for (auto p : A.args) { sv.push_back(C->real_sort()); ev.push_back(z_poly(p)); }
    z3::func_decl f = C->function(A.name.c_str(), sv, C->real_sort()); v = f(ev); }
  zatom->emplace(a, v);
  switch (A.k) {
    case A_PI: side(v > C->real_val("3141592653589793/1000000000000000") && v < C->real_val("3141592653589794/1000000000000000")); break;
    case A_SQRT: side(v >= 0 && v * v == z_poly(A.args[0])); break;
    case A_EXP: { z3::expr x = z_poly(A.args[0]); side(v > 0);
      side(z3::implies(x > 0, v > 1)); side(z3::implies(x < 0, v < 1)); side(z3::implies(x == 0, v == 1));
      for (auto b : exp_atoms) { z3::expr y = z_poly(atoms[b].args[0]), w = z_atom(b); side(z3::implies(x < y, v < w)); side(z3::implies(x > y, v > w)); side(z3::implies(x == y, v == w)); }
      for (auto b : log_atoms) { z3::expr y = z_poly(atoms[b].args[0]), w = z_atom(b); side(z3::implies(y > 0, (x < w) == (v < y) && (x == w) == (v == y))); }
      exp_atoms.push_back(a); break; }
    case A_LOG: { z3::expr x = z_poly(A.args[0]); side(z3::implies(x > 1, v > 0)); side(z3::implies(x < 1 && x > 0, v < 0)); side(z3::implies(x == 1, v == 0));
      if (!A.concrete && opts.logbounds) { static const double pt[] = {0.125, 0.5, 1, 1.25, 2, 3, 8}; for (int i = 0; i < 7; i++) { double l = std::log(pt[i]); z3::expr P = C->real_val(Q(pt[i]).get_str().c_str());   // tangents above, chords below
          side(z3::implies(x > 0, v <= C->real_val(Q(l + 1e-9).get_str().c_str()) + (x - P) / P));
          if (i) { double l0 = std::log(pt[i-1]); z3::expr R = C->real_val(Q(pt[i-1]).get_str().c_str()); side(z3::implies(x >= R && x <= P, v >= C->real_val(Q(l0 - 1e-9).get_str().c_str()) + (x - R) * C->real_val(Q((l - l0 - 1e-9) / (pt[i] - pt[i-1])).get_str().c_str()))); } } }
      for (auto b : log_atoms) { z3::expr y = z_poly(atoms[b].args[0]), w = z_atom(b); side(z3::implies(x < y && x > 0, v < w)); side(z3::implies(x > y && y > 0, v > w)); side(z3::implies(x == y, v == w)); }
      for (auto b : exp_atoms) { z3::expr y = z_poly(atoms[b].args[0]), w = z_atom(b); side(z3::implies(x > 0, (y < v) == (w < x) && (y == v) == (w == x))); }
      if (A.concrete) { double q = (double)conc_ev.atom(a); side(v > C->real_val(Q(q - 1e-9).get_str().c_str()) && v < C->real_val(Q(q + 1e-9).get_str().c_str())); }
      log_atoms.push_back(a); break; }
    case A_SIN: case A_COS: { AtomId o = mk_atom(A.k == A_SIN ? A_COS : A_SIN, "", A.args, false); z3::expr w = z_atom(o);
      if (A.k == A_SIN) side(v * v + w * w == 1);
      if (A.concrete) { double q = (double)conc_ev.atom(a); side(v > C->real_val(Q(q - 1e-9).get_str().c_str()) && v < C->real_val(Q(q + 1e-9).get_str().c_str())); } break; }
    case A_ACOS: { if (A.concrete) { double q = (double)conc_ev.atom(a); side(v > C->real_val(Q(q - 1e-9).get_str().c_str()) && v < C->real_val(Q(q + 1e-9).get_str().c_str())); } break; }
    case A_BASE: side(v == z_poly(A.args[0])); break;
    case A_UF: if (A.concrete) { double q = (double)conc_ev.atom(a); side(v > C->real_val(Q(q - 1e-9).get_str().c_str()) && v < C->real_val(Q(q + 1e-9).get_str().c_str())); } break;
    default: break; }
  return v; }
static std::unordered_map<AtomId, z3::expr>* zinv;
static z3::expr z_inv(AtomId a) { auto it = zinv->find(a); if (it != zinv->end()) return it->second;
  z3::expr v = C->real_const(("inv" + std::to_string(a)).c_str()); zinv->emplace(a, v); side(v * z_atom(a) == 1); return v; }
static z3::expr z_poly(PolyId p) {
  auto it = zpoly->find(p); if (it != zpoly->end()) return it->second;
  z3::expr_vector sum(*C); const auto t = polys[p].t;
  for (auto& x : t) { const auto f = monos[x.first].f; z3::expr_vector pr(*C);
    if (x.second != 1 || f.empty()) pr.push_back(zq(x.second));
    for (auto& g : f) { z3::expr b = g.second > 0 ? z_atom(g.first) : z_inv(g.first); for (int i = 0; i < std::abs(g.second); i++) pr.push_back(b); }
    if (pr.size() == 1) sum.push_back(pr[0]);
    else { std::vector<Z3_ast> as; for (unsigned i = 0; i < pr.size(); i++) as.push_back(pr[i]); sum.push_back(z3::to_expr(*C, Z3_mk_mul(*C, as.size(), as.data()))); } }
  z3::expr r = sum.empty() ? C->real_val(0) : (sum.size() == 1 ? sum[0] : z3::sum(sum));
  zpoly->emplace(p, r); return r; }
static z3::expr z_cond(PolyId d, Cmp c) {  // d > 0, d >= 0, d == 0
  z3::expr e = z_poly(d); return c == LT ? e > 0 : (c == LE ? e >= 0 : e == 0); }
static std::vector<z3::expr>* path;   // path condition, incl. variable ranges
static void flush_side(z3::solver& s) { for (; side_done < pending_side->size(); side_done++) s.add((*pending_side)[side_done]); }
static void wit_reset();
static void add_path(const z3::expr& e) { wit_reset(); flush_side(*S); path->push_back(e); S->add(e); }
static z3::check_result zcheck(z3::solver& s, const char* what) {
  auto t0 = std::chrono::steady_clock::now(); z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception& e) { fprintf(stderr, "z3: %s\n", e.msg()); }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); stats.solver_s += dt; stats.queries++;
  static const bool dbgq = getenv("SYMX_SLOW") != nullptr; if (dbgq && dt > 0.5) fprintf(stderr, "slow %s %.2fs r=%d\n", what, dt, (int)r); if (dbgq && dt > 0.5 && getenv("SYMX_DUMP")) fprintf(stderr, "%s\n", s.to_smt2().c_str());
  if (dt > stats.max_query_s) stats.max_query_s = dt; if (r == z3::unknown) stats.unknown++; (void)what; return r; }
static z3::check_result check_with(const z3::expr& e) {
  flush_side(*S); S->push(); S->add(e); flush_side(*S); z3::check_result r = zcheck(*S, "branch"); S->pop();
  // side constraints flushed inside the scope were popped: re-add
  return r; }

static bool rand_witness(Assign& as);
struct Choice { bool is_int; bool taken; bool alt; long long k; };
static std::vector<Choice> trace; static size_t tpos; static std::map<std::pair<PolyId,int>, bool> known;
static std::map<PolyId, long long> known_int;
static std::vector<std::string> path_desc;
static uint64_t n_decisions = 0;

static void side_safe_check(const z3::expr& e, z3::check_result& r) { r = check_with(e); }
static void pre_translate(PolyId d) { (void)z_poly(d); flush_side(*S); }

static int sign_concrete(PolyId d) {
  if (d == 0) return 0; double v = p_approx(d);
  if (std::fabs(v) > 1e-13) return v > 0 ? 1 : -1;
  if (is_q(d)) return sgn(get_q(d));
  long double w = polys[d].approx; long double sc = 0; for (auto& t : polys[d].t) { PolyId one; std::vector<std::pair<MonoId,Q>> o; o.push_back(t); one = mk_poly(std::move(o)); p_approx(one); sc = std::max(sc, fabsl(polys[one].approx)); }
  if (fabsl(w) > 1e-16L * sc * 64) return w > 0 ? 1 : -1;
  // algebraically equal but not normalised: ask z3
  z3::solver s(*C); s.set("timeout", 20000u); (void)z_poly(d); for (auto& e : *pending_side) s.add(e);
  s.push(); s.add(z_poly(d) != 0); z3::check_result r = zcheck(s, "const"); s.pop();
  if (r == z3::unsat) return 0;
  fprintf(stderr, "symx: ambiguous constant comparison (%Lg)\n", w); stats.ambiguous++; return 0; }

// c1*M1 - c2*M2 with only positive atoms, one of them an exponential: same sign as log(c1*M1) - log(c2*M2)
static PolyId log_form(PolyId d) {
  const auto t = polys[d].t; bool any = false;
  { bool logs = !t.empty(); for (auto& x : t) { auto& f = monos[x.first].f; if (f.size() != 1 || f[0].second != 1 || atoms[f[0].first].k != A_LOG) logs = false; }
    if (logs) { Q c; PolyId pr = content(d, c); PolyId P[2] = {p_int(1), p_int(1)}; long tot = 0; for (auto& x : polys[pr].t) tot += std::labs(x.second.get_num().get_si());
      if (tot > 24) return d; const auto u = polys[pr].t;   // sum n_i log a_i has the sign of prod a_i^n_i - 1
      for (auto& x : u) { long n = x.second.get_num().get_si(); PolyId& R = P[n < 0]; R = p_mul(R, p_powi(atoms[monos[x.first].f[0].first].args[0], std::labs(n))); }
      return p_sub(P[0], P[1]); } }
  if (t.size() != 2) return d;
  if (sgn(t[0].second) * sgn(t[1].second) >= 0) return d;
  for (auto& x : t) for (auto& f : monos[x.first].f) { if (!atoms[f.first].positive) return d; if (atoms[f.first].k == A_EXP) any = true; }
  if (!any) return d; PolyId l[2]; int sg[2];
  for (int i = 0; i < 2; i++) { sg[i] = sgn(t[i].second); std::vector<std::pair<MonoId,Q>> one; one.emplace_back(t[i].first, sg[i] > 0 ? t[i].second : -t[i].second); l[i] = p_log(mk_poly(std::move(one))); }
  return log_form(sg[0] > 0 ? p_sub(l[0], l[1]) : p_sub(l[1], l[0])); }

struct Range { PolyId lo, hi; bool lo_open, hi_open; };   // bounds are constants (rational or algebraic)
static int cmpc(PolyId a, PolyId b) { return sign_concrete(p_sub(a, b)); }
static std::map<AtomId, Range> ranges;   // per-path bounds of variables, from path facts only
struct Fact { PolyId d; Cmp c; bool val; };
static std::vector<Fact> facts;   // branch decisions of the current path
// d = coef*x + rem with a variable x and constants coef, rem: d >(=) 0 is x >(=) t or x <(=) t with t = -rem/coef
static bool linear_form(PolyId d, AtomId& x, PolyId& t, int& sg) {
  if (polys[d].concrete || polys[d].t.size() > 64) return false; x = 0; std::vector<std::pair<MonoId,Q>> cf, rm; bool have = false;
  const auto ts = polys[d].t;
  for (auto& u : ts) { bool conc = true; AtomId v = 0; const auto f = monos[u.first].f; for (auto& g : f) if (!atoms[g.first].concrete) { if (!conc || g.second != 1 || atoms[g.first].k != A_VAR) return false; conc = false; v = g.first; }
    if (conc) rm.push_back(u); else { if (have) return false; have = true; x = v; cf.push_back(u); } }
  if (!have || !ranges.count(x)) return false;
  PolyId co = p_div(mk_poly(std::move(cf)), atom_poly(x)), re = mk_poly(std::move(rm)); if (!polys[co].concrete || !polys[re].concrete) return false;
  sg = sign_concrete(co); if (!sg) return false; t = p_div(p_neg(re), co); return polys[t].concrete; }
// +1: true on the whole known range, -1: false on it, 0: neither
static int range_test(AtomId x, PolyId t, int sg, bool strict) { Range& R = ranges[x];
  int cl = cmpc(R.lo, t), ch = cmpc(R.hi, t);
  if (sg > 0) { if (cl > 0 || (cl == 0 && (!strict || R.lo_open))) return 1; if (ch < 0 || (ch == 0 && (strict || R.hi_open))) return -1; }
  else { if (ch < 0 || (ch == 0 && (!strict || R.hi_open))) return 1; if (cl > 0 || (cl == 0 && (strict || R.lo_open))) return -1; }
  return 0; }
bool decide(PolyId a, Cmp c, PolyId b) {
  PolyId d = p_sub(b, a); if (!polys[d].concrete) d = log_form(d);
  if (polys[d].concrete) { int s = sign_concrete(d); return c == LT ? s > 0 : (c == LE ? s >= 0 : s == 0); }
  // q*sqrt(A) against a rational constant: compare squares
  if (polys[d].t.size() <= 2) { Q k = 0, co = 0; AtomId sa = 0; bool ok = true; std::vector<std::pair<AtomId,int>> mf;
    for (auto& x : polys[d].t) { auto& f = monos[x.first].f; if (f.empty()) { k = x.second; continue; } int ns = 0; AtomId s1 = 0; std::vector<std::pair<AtomId,int>> rest;   // co * (positive monomial) * sqrt(A)
      for (auto& g : f) { if (g.second == 1 && atoms[g.first].k == A_SQRT && !atoms[g.first].concrete) { ns++; s1 = g.first; } else if (atoms[g.first].k == A_VAR && atoms[g.first].positive) rest.emplace_back(g.first, 2 * g.second); else ok = false; }
      if (ns != 1 || co != 0) ok = false; else { co = x.second; sa = s1; mf = rest; } }
    if (ok && co != 0 && c != EQ) { PolyId A = scale(atoms[sa].args[0], co * co); if (!mf.empty()) A = p_mul(A, mk_poly({{mk_mono(mf), Q(1)}})); PolyId K = from_q(k * k);   // d = k + co*sqrt(A)
      if (co > 0) { if (k > 0 || (k == 0 && c == LE)) return true; return c == LT ? decide(K, LT, A) : decide(K, LE, A); }   // sqrt > -k
      else { if (k < 0 || (k == 0 && c == LT)) return false; return c == LT ? decide(A, LT, K) : decide(A, LE, K); } } }
  n_decisions++;
  AtomId bv = 0; PolyId bt = 0; int bs = 0; bool lin = c != EQ && linear_form(d, bv, bt, bs);
  if (lin) { int r = range_test(bv, bt, bs, c == LT); if (r) { stats.pruned++; return r > 0; } }
  auto key = std::make_pair(d, (int)c); auto kn = known.find(key); if (kn != known.end()) return kn->second;
  if (c == LT || c == LE) { auto k2 = known.find(std::make_pair(p_neg(d), c == LT ? (int)LE : (int)LT)); if (k2 != known.end()) return !k2->second; }
  z3::expr eT(*C), eF(*C);
  if (lin && !is_q(bt)) {   // irrational threshold: the solver sees enclosing rational bounds (over-approximates the path), the range keeps the exact one
    double v = p_approx(bt), w = 1e-12 * std::max(1., std::fabs(v)); z3::expr x = z_atom(bv), lo = zq(Q(v - w)), hi = zq(Q(v + w));
    eT = bs > 0 ? x >= lo : x <= hi; eF = bs > 0 ? x <= hi : x >= lo; }
  else { pre_translate(d); eT = z_cond(d, c); eF = !eT; }
  bool val;
  if (tpos < trace.size()) { val = trace[tpos].taken; tpos++; add_path(val ? eT : eF); }
  else {
    z3::check_result rt = check_with(eT), rf = check_with(eF);
    if (rt == z3::unsat && rf == z3::unsat) throw PathAbort("infeasible path");
    Choice ch; ch.is_int = false; ch.k = 0;
    if (rt == z3::unsat) { ch.taken = false; ch.alt = false; }
    else if (rf == z3::unsat) { ch.taken = true; ch.alt = false; }
    else { ch.taken = true; ch.alt = true; stats.forks++; }
    trace.push_back(ch); tpos++; val = ch.taken; add_path(val ? eT : eF); }
  if (lin) { Range& R = ranges[bv]; bool low = (bs > 0) == val, op = (c == LT) == val;
    if (low) { int q = cmpc(bt, R.lo); if (q > 0 || (q == 0 && op)) { R.lo = bt; R.lo_open = op; } } else { int q = cmpc(bt, R.hi); if (q < 0 || (q == 0 && op)) { R.hi = bt; R.hi_open = op; } } }
  known[key] = val; facts.push_back({d, c, val}); return val; }

static long long floor_q(const Q& q) { return zfdiv(q).get_si(); }
static long long zfloor(z3::model& m, const z3::expr& e) {
  z3::expr v = m.eval(e, true);
  if (v.is_numeral()) { std::string s = Z3_get_numeral_string(*C, v); return floor_q(Q(s.c_str())); }
  if (v.is_algebraic()) { std::string s = v.get_decimal_string(15); return (long long)std::floor(atof(s.c_str())); }
  throw EngineError("model value not numeric"); }
long long to_int_floor(PolyId x) {
  if (is_q(x)) return floor_q(get_q(x));
  if (polys[x].concrete) { double v = p_approx(x); double r = std::round(v);
    if (std::fabs(v - r) < 1e-9 * std::max(1., std::fabs(v))) { PolyId d = p_sub(x, p_int((long long)r)); int s = sign_concrete(d); return s >= 0 ? (long long)r : (long long)r - 1; }
    return (long long)std::floor(v); }
  auto it = known_int.find(x); if (it != known_int.end()) return it->second;
  pre_translate(x); z3::expr e = z_poly(x);
  while (true) {
    bool taken; long long k;
    if (tpos < trace.size()) { taken = trace[tpos].taken; k = trace[tpos].k; }
    else {
      flush_side(*S); z3::check_result r = zcheck(*S, "int"); if (r == z3::unsat) throw PathAbort("infeasible");
      if (r == z3::unknown) { stats.incomplete++; throw PathAbort("unknown at integer conversion"); }
      z3::model m = S->get_model(); k = zfloor(m, e);
      z3::expr in = e >= C->real_val(std::to_string(k).c_str()) && e < C->real_val(std::to_string(k+1).c_str());
      z3::check_result rf = check_with(!in); Choice ch; ch.is_int = true; ch.k = k; ch.taken = true; ch.alt = (rf != z3::unsat); if (ch.alt) stats.forks++;
      trace.push_back(ch); taken = true; }
    tpos++;
    z3::expr in = e >= C->real_val(std::to_string(k).c_str()) && e < C->real_val(std::to_string(k+1).c_str());
    add_path(taken ? in : !in);
    if (taken) { known_int[x] = k; return k; } } }
long long to_int_trunc(PolyId x) {
  // bounded model: the literal fine-sampling sizes 1e5/1e6 are reduced to the configured number
  if (opts.nsample > 0 && is_q(x)) { static const PolyId m6 = p_int(1000000), m5 = p_int(100000); if (x == m6 || x == m5) return opts.nsample; }
  if (is_q(x)) { Q q = get_q(x); return zfdiv(q).get_si() + ((q < 0 && q.get_den() != 1) ? 1 : 0); }
  if (decide(x, LT, 0)) return -to_int_floor(p_neg(x)); return to_int_floor(x); }

// ---------- divisors ----------
static std::set<PolyId> divisors;
static void note_divisor(PolyId b) { divisors.insert(b); }

// ---------- variables ----------
SymReal mk_var(const std::string& name, const char* lo, const char* hi, bool lo_open, bool hi_open) {
  engine_init();
  VarInfo v; v.name = name; v.has_lo = lo != nullptr; v.has_hi = hi != nullptr; v.lo_open = lo_open; v.hi_open = hi_open; v.isint = false;
  auto rq = [](const char* s) { PolyId p = strchr(s, '/') ? from_q(Q(s)) : p_lit(s); return get_q(p); };
  if (lo) v.lo = rq(lo); if (hi) v.hi = rq(hi);
  bool pos = lo && (v.lo > 0 || (v.lo == 0 && lo_open));
  v.atom = mk_atom(A_VAR, name, {}, pos); 
  if (!var_ix.count(name)) { var_ix[name] = vars.size(); vars.push_back(v); }
  if (lo && hi) { auto it = ranges.find(v.atom); if (it == ranges.end()) ranges[v.atom] = Range{from_q(v.lo), from_q(v.hi), lo_open, hi_open}; }
  z3::expr e = z_atom(v.atom);
  if (lo) add_path(lo_open ? e > zq(v.lo) : e >= zq(v.lo)); if (hi) add_path(hi_open ? e < zq(v.hi) : e <= zq(v.hi));
  return SymReal::mk(atom_poly(v.atom)); }
long long mk_int(const std::string& name, long long lo, long long hi) {
  SymReal v = mk_var(name, std::to_string(lo).c_str(), std::to_string(hi + 1).c_str(), false, true);
  vars[var_ix[name]].isint = true;
  return to_int_floor(v.id()); }

// ---------- models ----------
static double z_dbl(const z3::expr& v) {
  if (v.is_numeral()) { Q q(Z3_get_numeral_string(*C, v)); return q.get_d(); }
  if (v.is_algebraic()) return atof(v.get_decimal_string(18).c_str());
  return 0; }
static Assign model_assign(z3::model& m) { Assign as; for (auto& v : vars) { z3::expr e = m.eval(z_atom(v.atom), true); as[v.name] = v.isint ? std::floor(z_dbl(e)) : z_dbl(e); } return as; }
static std::mt19937_64 rng;
// keeps models clear of irrational thresholds, where the solver's path condition is a (tiny) over-approximation
static std::vector<z3::expr> interior() { std::vector<z3::expr> r;
  for (auto& v : vars) { auto it = ranges.find(v.atom); if (it == ranges.end()) continue; Range& R = it->second; if (is_q(R.lo) && is_q(R.hi)) continue;
    double lo = p_approx(R.lo), hi = p_approx(R.hi), d = std::min(1e-6 * std::max({1e-300, std::fabs(lo), std::fabs(hi)}), (hi - lo) / 4); if (d <= 0) continue; z3::expr x = z_atom(v.atom);
    if (!is_q(R.lo)) r.push_back(x >= zq(Q(lo + d))); if (!is_q(R.hi)) r.push_back(x <= zq(Q(hi - d))); }
  return r; }
// the solver knows exp/log only through axioms: drop models that do not follow the path numerically
static bool on_path(const Assign& as) { Assign cp = as; Evaluator ev{&cp, {}};
  try { for (auto& f : facts) { long double v = ev.poly(f.d); if (fabsl(v) < 1e-9L) continue; bool t = f.c == EQ ? false : v > 0; if (t != f.val) return false; } } catch (std::exception&) { return true; }
  return true; }
static bool rand_witness1(Assign& as);
static bool rand_witness(Assign& as) { for (int i = 0; i < 12; i++) { if (!rand_witness1(as)) return false; if (on_path(as)) return true; } return false; }
static bool rand_witness1(Assign& as) {
  flush_side(*S); S->push(); bool ok = false;
  for (auto& e : interior()) S->add(e);
  for (auto& v : vars) { Q lo = v.has_lo ? v.lo : Q(-3), hi = v.has_hi ? v.hi : (v.has_lo ? v.lo + 4 : Q(4)); auto rg = ranges.find(v.atom); Q den(1024);
    if (rg != ranges.end() && !v.isint) { lo = Q(p_approx(rg->second.lo)); hi = Q(p_approx(rg->second.hi)); Q w = hi - lo; if (w <= 0) w = Q(1, 1024); while (den * w < 512) den *= 1024; }
    for (int a = 0; a < 3; a++) { long n = 1 + rng() % 255; Q q = lo + (hi - lo) * Q(n, 256L); q.canonicalize(); 
      Q r; { Q sc = q * den; mpz_class f = zfdiv(sc); r = Q(f) / den; r.canonicalize(); }
      if (v.isint) r = Q((long)floor_q(r));
      S->push(); S->add(z_atom(v.atom) == zq(r)); z3::check_result c = zcheck(*S, "wit"); S->pop();
      if (c == z3::sat) { S->add(z_atom(v.atom) == zq(r)); break; } } }
  if (zcheck(*S, "wit") == z3::sat) { z3::model m = S->get_model(); as = model_assign(m); ok = true; }
  S->pop(); return ok; }

// ---------- assertions ----------
static std::vector<Violation> violations; static std::vector<Trace> traces; static std::vector<Obs> cur_obs;
static std::map<std::string,long> label_hits;
std::vector<Violation>& get_violations() { return violations; }

static Assign wit; static bool wit_tried = false, wit_ok = false;
static void wit_reset() { wit_tried = false; wit_ok = false; }

static std::string lbase(const std::string& l) { return l.substr(0, l.find('[')); }
static void report(const std::string& label, const std::string& kind, z3::model* m) {
  Violation v; v.label = label; v.kind = kind; if (m) v.assign = model_assign(*m); v.detail = "";
  violations.push_back(v); }
static PolyId log_form(PolyId d);
static void assert_formula(const std::string& label, PolyId d, int mode) {
  // mode 0: d == 0; 1: d >= 0 ; 2: d > 0
  stats.asserts++; label_hits[label]++; if (!polys[d].concrete) d = log_form(d);
  if (polys[d].concrete && mode != 0) { int s = sign_concrete(d); stats.closed_const++; if (mode == 1 ? s >= 0 : s > 0) return; }
  if (mode != 0) { AtomId x; PolyId t; int sg; if (linear_form(d, x, t, sg) && range_test(x, t, sg, mode == 2) > 0) { stats.closed_const++; return; } }
  if (mode == 0 && d == 0) { stats.closed_nf++; return; }
  if (mode == 0 && !polys[d].concrete) { PolyId N = numerator(d); if (N == 0) { stats.closed_nf++; return; } }
  for (auto& v : violations) if (lbase(v.label) == lbase(label)) { stats.skipped++; return; }
  // a witness of the current path, supplied by the solver, may refute at once
  if (!wit_tried) { wit_tried = true; wit_ok = rand_witness(wit); }
  if (wit_ok) { try { Evaluator ev{&wit, {}}; long double v = ev.poly(d); bool bad = mode == 0 ? fabsl(v) > 1e-5L : v < -1e-5L;
      if (bad) { Violation vv; vv.label = label; vv.kind = "assert"; vv.assign = wit; vv.detail = "deviation=" + std::to_string((double)v); violations.push_back(vv); return; } } catch (std::exception&) {} }
  static const bool dbga = getenv("SYMX_SHOW") != nullptr; if (dbga) fprintf(stderr, "open %s: %s\n", label.c_str(), p_str(d).substr(0, 3000).c_str());
  (void)z_poly(d); flush_side(*S);
  z3::expr e = z_poly(d); z3::expr neg = mode == 0 ? (e != 0) : (mode == 1 ? e < 0 : e <= 0);
  // prefer a large deviation
  std::vector<z3::expr> tries;
  if (mode == 0) { tries.push_back(e > C->real_val("1/1000") || e < C->real_val("-1/1000")); tries.push_back(e > C->real_val("1/1000000") || e < C->real_val("-1/1000000")); }
  else tries.push_back(e < C->real_val("-1/1000"));
  tries.push_back(neg);
  z3::check_result last = z3::unknown;
  for (size_t i = 0; i < tries.size(); i++) {
    S->push(); S->add(tries[i]); z3::check_result r = z3::unknown; auto in = interior();
    if (!in.empty()) { S->push(); for (auto& x : in) S->add(x); r = zcheck(*S, "assert"); if (r == z3::sat) { z3::model m = S->get_model(); report(label, "assert", &m); S->pop(); S->pop(); return; } S->pop(); }
    r = zcheck(*S, "assert");
    if (r == z3::sat) { z3::model m = S->get_model(); report(label, "assert", &m);
      // numeric value of the deviation
      try { Evaluator ev{&violations.back().assign, {}}; violations.back().detail = "deviation=" + std::to_string((double)ev.poly(d)); } catch (std::exception& ex) {}
      S->pop(); return; }
    S->pop(); last = r; }
  if (last == z3::unsat) { stats.closed_solver++; return; }
  // fallback: one-shot nlsat
  { z3::tactic t = z3::try_for(z3::tactic(*C, "simplify") & z3::tactic(*C, "purify-arith") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "qfnra-nlsat"), 60000); 
    try { z3::solver s2 = t.mk_solver(); for (auto& x : *pending_side) s2.add(x); for (auto& x : *path) s2.add(x); s2.add(neg);
      z3::check_result r = zcheck(s2, "assert2");
      if (r == z3::unsat) { stats.closed_solver++; return; }
      if (r == z3::sat) { z3::model m = s2.get_model(); report(label, "assert", &m); return; } } catch (z3::exception& ex) { fprintf(stderr, "z3: %s\n", ex.msg()); } }
  // last resort: a concrete witness of the path may already refute the assertion
  { Assign as; if (rand_witness(as)) { try { Evaluator ev{&as, {}}; long double v = ev.poly(d); bool bad = mode == 0 ? fabsl(v) > 1e-6L : v < -1e-6L;
      if (bad) { Violation vv; vv.label = label; vv.kind = "assert"; vv.assign = as; vv.detail = "deviation=" + std::to_string((double)v); violations.push_back(vv); return; } } catch (std::exception&) {} } }
  stats.undecided++; fprintf(stderr, "symx: undecided assertion %s\n", label.c_str()); }
void h_eq(const std::string& label, const SymReal& a, const SymReal& b) {
  PolyId pa = a.id(), pb = b.id(); cur_obs.push_back({label, pa}); assert_formula(label, p_sub(pa, pb), 0); }
void h_le(const std::string& label, const SymReal& a, const SymReal& b) { cur_obs.push_back({label, a.id()}); assert_formula(label, p_sub(b.id(), a.id()), 1); }
void h_lt(const std::string& label, const SymReal& a, const SymReal& b) { cur_obs.push_back({label, a.id()}); assert_formula(label, p_sub(b.id(), a.id()), 2); }
void h_obs(const std::string& label, const SymReal& a) { cur_obs.push_back({label, a.id()}); }
static bool fail_here(const std::string& label, const std::string& kind) {
  stats.asserts++;
  for (auto& v : violations) if (lbase(v.label) == lbase(label)) { stats.skipped++; return true; }
  // path witness: prefer an interior point
  Assign as; if (rand_witness(as)) { Violation v; v.label = label; v.kind = kind; v.assign = as; violations.push_back(v); return true; }
  flush_side(*S); z3::check_result r = zcheck(*S, "fail"); if (r == z3::sat) { z3::model m = S->get_model(); report(label, kind, &m); return true; }
  if (r == z3::unknown) { stats.undecided++; } return false; }
void h_true(const std::string& label, bool ok) { label_hits[label]++; if (ok) { stats.asserts++; stats.closed_const++; } else fail_here(label, "assert"); }
void h_assume(bool ok) { if (!ok) throw PathAbort("assume"); }
void poison_read(uint64_t bits) {
  fprintf(stderr, "symx: read of uninitialised memory (bits %016llx)\n", (unsigned long long)bits);
  if (getenv("SYMX_ABORT_POISON")) abort();
  fail_here("uninitialised-read", "uninit"); throw PathAbort("poison"); }

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string jassign(const Assign& as) { std::ostringstream o; o << "{"; bool f = true; for (auto& p : as) { if (!f) o << ","; f = false; char b[64]; snprintf(b, 64, "%.17g", p.second); o << "\"" << jesc(p.first) << "\":" << b; } o << "}"; return o.str(); }
void write_result(const char* file, bool finished, const std::string& err) {
  FILE* f = fopen(file, "w"); if (!f) return;
  fprintf(f, "{\"finished\":%s,\"error\":\"%s\",\"paths\":%ld,\"aborted_paths\":%ld,\"forks\":%ld,\"decisions\":%llu,\"ops\":%ld,\"polys\":%zu,\"atoms\":%zu,\"queries\":%ld,\"unknown\":%ld,\"undecided\":%ld,\"incomplete\":%ld,\"ambiguous\":%ld,\"asserts\":%ld,\"closed_nf\":%ld,\"closed_const\":%ld,\"closed_solver\":%ld,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"reached\":%ld,\"divisors\":%zu,",
    finished ? "true" : "false", jesc(err).c_str(), stats.paths, stats.aborted, stats.forks, (unsigned long long)n_decisions, stats.ops, polys.size(), atoms.size(), stats.queries, stats.unknown, stats.undecided, stats.incomplete, stats.ambiguous, stats.asserts, stats.closed_nf, stats.closed_const, stats.closed_solver, stats.solver_s, stats.max_query_s, stats.reached, divisors.size());
  fprintf(f, "\"labels\":{"); bool first = true; std::map<std::string,long> agg; for (auto& l : label_hits) { std::string k = l.first.substr(0, l.first.find('[')); agg[k] += l.second; }
  for (auto& l : agg) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(l.first).c_str(), l.second); first = false; }
  fprintf(f, "},\"violations\":["); first = true;
  for (auto& v : violations) { fprintf(f, "%s{\"label\":\"%s\",\"kind\":\"%s\",\"detail\":\"%s\",\"assign\":%s}", first ? "" : ",", jesc(v.label).c_str(), jesc(v.kind).c_str(), jesc(v.detail).c_str(), jassign(v.assign).c_str()); first = false; }
  fprintf(f, "],\"traces\":["); first = true;
  for (auto& t : traces) { fprintf(f, "%s{\"assign\":%s,\"obs\":[", first ? "" : ",", jassign(t.assign).c_str()); first = false; bool g = true;
    for (auto& o : t.obs) { fprintf(f, "%s[\"%s\",%.17g]", g ? "" : ",", jesc(o.first).c_str(), o.second); g = false; } fprintf(f, "]}"); }
  fprintf(f, "]}\n"); fclose(f); }

static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const char* g_out = nullptr;
// the sanitizer holds its thread registry here, so z3 must not start a timer thread: bound the queries by resources instead
static void no_threads() { if (!S) return; z3::params q(*C); q.set("timeout", 4294967295u); q.set("rlimit", 20000000u); S->set(q); }
extern "C" void __asan_on_error() {
  static bool once = false; if (once) return; once = true;
  no_threads(); fail_here("memory-error", "asan"); if (g_out) write_result(g_out, true, ""); }

int run(std::function<void()> harness, const char* out) {
  engine_init(); g_out = out; rng.seed(opts.seed * 7919 + 17);
  C = new z3::context(); zatom = new std::unordered_map<AtomId, z3::expr>(); zpoly = new std::unordered_map<PolyId, z3::expr>(); zinv = new std::unordered_map<AtomId, z3::expr>();
  pending_side = new std::vector<z3::expr>(); path = new std::vector<z3::expr>();
  double t0 = now_s(); std::string err; bool finished = true;
  while (true) {
    z3::solver s(*C); z3::params prm(*C); prm.set("timeout", (unsigned)opts.query_ms); s.set(prm); S = &s; side_done = 0; path->clear(); vars.clear(); var_ix.clear();
    known.clear(); known_int.clear(); ranges.clear(); facts.clear(); cur_obs.clear(); tpos = 0; bool complete = false;
    try { harness(); complete = true; stats.reached++; }
    catch (PathAbort& e) { stats.aborted++; }
    catch (DivByZero& e) { fail_here("division-by-zero", "div0"); }
    catch (EngineError& e) { err = e.what(); finished = false; break; }
    catch (z3::exception& e) { err = e.msg(); finished = false; break; }
    catch (std::exception& e) { fail_here(std::string("uncaught-exception"), "exception"); fprintf(stderr, "symx: uncaught exception: %s\n", e.what()); }
    stats.paths++;
    if (complete && (int)traces.size() < opts.max_traces) {
      bool want = true; if (stats.paths > opts.max_traces / 2) want = (rng() % 4 == 0);
      if (want) { Assign as; if (rand_witness(as)) { Trace t; t.assign = as; Evaluator ev{&t.assign, {}};
        try { for (auto& o : cur_obs) t.obs.emplace_back(o.label, (double)ev.poly(o.p)); traces.push_back(t); }
        catch (EngineError& e) { fprintf(stderr, "symx: trace not evaluated: %s\n", e.what()); } } } }
    S = nullptr;
    while (!trace.empty() && !trace.back().alt) trace.pop_back();
    if (trace.empty()) break;
    trace.back().alt = false; trace.back().taken = !trace.back().taken;
    if (trace.back().is_int) { /* taken false: same k excluded */ }
    if ((int)violations.size() >= opts.max_viol) break;
    if (now_s() - t0 > opts.budget_s || stats.paths >= opts.max_paths) { finished = false; err = "budget"; break; } }
  write_result(out, finished, err);
  return 0; }
}  // namespace symx
