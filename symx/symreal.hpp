// SymReal: a drop-in replacement for `double` whose values are exact symbolic
// reals (interned polynomials over atoms).  The repository's own C++ source is
// compiled with `double` replaced by this class, so running it records, for a
// path, the exact real-valued function it computes.
#ifndef SYMREAL_HPP
#define SYMREAL_HPP
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <istream>
#include <ostream>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

namespace symx {
typedef uint32_t PolyId;
enum Cmp { LT, LE, EQ };
PolyId p_int(long long v);
PolyId p_dbl(double v);
PolyId p_lit(const char* s);
PolyId p_add(PolyId a, PolyId b);
PolyId p_sub(PolyId a, PolyId b);
PolyId p_mul(PolyId a, PolyId b);
PolyId p_div(PolyId a, PolyId b);
PolyId p_neg(PolyId a);
PolyId p_sqrt(PolyId a);
PolyId p_exp(PolyId a);
PolyId p_log(PolyId a);
PolyId p_sin(PolyId a);
PolyId p_cos(PolyId a);
PolyId p_acos(PolyId a);
PolyId p_powi(PolyId a, long long n);
PolyId p_pow(PolyId a, PolyId b);
PolyId p_pi();
PolyId p_uf(const char* name, std::vector<PolyId> args);
PolyId p_j3(double v);                     // +-sqrt(rational) recognised
bool   decide(PolyId a, Cmp c, PolyId b);  // forks
long long to_int_trunc(PolyId a);          // forks
long long to_int_floor(PolyId a);          // forks
bool   p_isconst(PolyId a);
double p_approx(PolyId a);
void   poison_read(uint64_t bits);
PolyId from_bits(double d);
double to_bits(PolyId p);
}

struct SymReal {
  double v;
  SymReal() = default;
  SymReal(int x) : v(symx::to_bits(symx::p_int(x))) {}
  SymReal(unsigned x) : v(symx::to_bits(symx::p_int(x))) {}
  SymReal(long x) : v(symx::to_bits(symx::p_int(x))) {}
  SymReal(unsigned long x) : v(symx::to_bits(symx::p_int((long long)x))) {}
  SymReal(long long x) : v(symx::to_bits(symx::p_int(x))) {}
  SymReal(unsigned long long x) : v(symx::to_bits(symx::p_int((long long)x))) {}
  SymReal(bool x) : v(symx::to_bits(symx::p_int(x ? 1 : 0))) {}
  SymReal(float x) : v(symx::to_bits(symx::p_dbl(x))) {}
  SymReal(double x) : v(symx::to_bits(symx::p_dbl(x))) {}
  symx::PolyId id() const { return symx::from_bits(v); }
  static SymReal mk(symx::PolyId p) { SymReal r; r.v = symx::to_bits(p); return r; }
  static SymReal lit(const char* s) { return mk(symx::p_lit(s)); }
  template <class T, class = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && (sizeof(T) >= 4)>>
  operator T() const { return (T)symx::to_int_trunc(id()); }
  explicit operator bool() const { return !symx::decide(id(), symx::EQ, 0); }
  explicit operator float() const { return (float)symx::p_approx(id()); }
  explicit operator double() const { return symx::p_approx(id()); }
  SymReal operator-() const { return mk(symx::p_neg(id())); }
  SymReal operator+() const { return *this; }
  SymReal& operator+=(const SymReal& o) { *this = mk(symx::p_add(id(), o.id())); return *this; }
  SymReal& operator-=(const SymReal& o) { *this = mk(symx::p_sub(id(), o.id())); return *this; }
  SymReal& operator*=(const SymReal& o) { *this = mk(symx::p_mul(id(), o.id())); return *this; }
  SymReal& operator/=(const SymReal& o) { *this = mk(symx::p_div(id(), o.id())); return *this; }
  SymReal& operator++() { return *this += SymReal(1); }
  SymReal& operator--() { return *this -= SymReal(1); }
  SymReal operator++(int) { SymReal t = *this; *this += SymReal(1); return t; }
};
static_assert(sizeof(SymReal) == sizeof(double), "size");
static_assert(std::is_trivially_copyable<SymReal>::value, "trivial");

namespace symx {
template <class T> struct is_num : std::integral_constant<bool,
  std::is_arithmetic<T>::value || std::is_same<T, SymReal>::value> {};
template <class A, class B> struct mixed : std::integral_constant<bool,
  (std::is_same<A, SymReal>::value || std::is_same<B, SymReal>::value)
  && is_num<A>::value && is_num<B>::value> {};
}
#define SYMX_BIN(op, fn) \
template <class A, class B, class = std::enable_if_t<symx::mixed<A, B>::value>> \
inline SymReal operator op(const A& a, const B& b) { \
  return SymReal::mk(symx::fn(SymReal(a).id(), SymReal(b).id())); }
SYMX_BIN(+, p_add) SYMX_BIN(-, p_sub) SYMX_BIN(*, p_mul) SYMX_BIN(/, p_div)
#define SYMX_CMP(op, expr) \
template <class A, class B, class = std::enable_if_t<symx::mixed<A, B>::value>> \
inline bool operator op(const A& a_, const B& b_) { \
  symx::PolyId a = SymReal(a_).id(), b = SymReal(b_).id(); return expr; }
SYMX_CMP(<, symx::decide(a, symx::LT, b))
SYMX_CMP(<=, symx::decide(a, symx::LE, b))
SYMX_CMP(>, symx::decide(b, symx::LT, a))
SYMX_CMP(>=, symx::decide(b, symx::LE, a))
SYMX_CMP(==, symx::decide(a, symx::EQ, b))
SYMX_CMP(!=, !symx::decide(a, symx::EQ, b))

namespace symx {
template <class A, class B, class X> inline decltype(auto) sel(X&& x) {
  typedef std::decay_t<A> DA; typedef std::decay_t<B> DB;
  if constexpr (mixed<DA, DB>::value && !std::is_same<DA, DB>::value) return SymReal(x);
  else if constexpr (std::is_lvalue_reference<X&&>::value) return static_cast<X&&>(x);
  else return std::decay_t<X>(std::move(x)); }
}
inline SymReal operator""_sym(const char* s) { return SymReal::lit(s); }
#define SYM_PI (SymReal::mk(symx::p_pi()))

namespace symx {
// A printed symbolic value is the text "nan(0x5a........)" whose payload is its id; every text-to-number route maps it back.
const uint64_t TOKEN = 0x5a00000000ull;
inline std::string token(const SymReal& x) { char b[40]; snprintf(b, sizeof b, "nan(0x%llx)", (unsigned long long)(TOKEN | x.id())); return b; }
inline bool untoken(double d, SymReal& r) { uint64_t u; memcpy(&u, &d, 8); if ((u & 0x7fffffff00000000ull) == (0x7ff8000000000000ull | TOKEN)) { r = SymReal::mk((PolyId)(u & 0xffffffffu)); return true; } return false; }
inline size_t parse_real(const char* s, SymReal& r) {   // characters used, 0 if none
  char* e = nullptr; double d = std::strtod(s, &e); if (e == s) return 0; if (untoken(d, r)) return e - s;
  std::string t(s, (const char*)e); size_t a = t.find_first_not_of(" \t\n"); bool plain = true; for (char c : t.substr(a)) if (!strchr("0123456789+-.eE", c)) plain = false;
  r = plain ? SymReal::lit(t.substr(a).c_str()) : SymReal(d); return e - s; }
}
namespace std {
inline SymReal sqrt(const SymReal& x) { return SymReal::mk(symx::p_sqrt(x.id())); }
inline SymReal exp(const SymReal& x) { return SymReal::mk(symx::p_exp(x.id())); }
inline SymReal log(const SymReal& x) { return SymReal::mk(symx::p_log(x.id())); }
inline SymReal log10(const SymReal& x) { return std::log(x) / std::log(SymReal(10)); }
inline SymReal log2(const SymReal& x) { return std::log(x) / std::log(SymReal(2)); }
inline SymReal sin(const SymReal& x) { return SymReal::mk(symx::p_sin(x.id())); }
inline SymReal cos(const SymReal& x) { return SymReal::mk(symx::p_cos(x.id())); }
inline SymReal tan(const SymReal& x) { return std::sin(x) / std::cos(x); }
inline SymReal acos(const SymReal& x) { return SymReal::mk(symx::p_acos(x.id())); }
inline SymReal fabs(const SymReal& x) { return (x < SymReal(0)) ? -x : x; }
inline SymReal abs(const SymReal& x) { return (x < SymReal(0)) ? -x : x; }
inline SymReal floor(const SymReal& x) { return SymReal(symx::to_int_floor(x.id())); }
inline SymReal ceil(const SymReal& x) { return SymReal(-symx::to_int_floor((-x).id())); }
inline SymReal trunc(const SymReal& x) { return SymReal(symx::to_int_trunc(x.id())); }
inline SymReal round(const SymReal& x) {
  return (x < SymReal(0)) ? -SymReal(symx::to_int_floor((-x + SymReal(1)/SymReal(2)).id()))
                          : SymReal(symx::to_int_floor((x + SymReal(1)/SymReal(2)).id())); }
inline SymReal fmod(const SymReal& x, const SymReal& y) {
  return x - y * SymReal(symx::to_int_trunc((x / y).id())); }
template <class B, class = std::enable_if_t<std::is_integral<B>::value>>
inline SymReal pow(const SymReal& a, B n) { return SymReal::mk(symx::p_powi(a.id(), (long long)n)); }
inline SymReal pow(const SymReal& a, const SymReal& b) { return SymReal::mk(symx::p_pow(a.id(), b.id())); }
template <class A, class = std::enable_if_t<std::is_integral<A>::value>>
inline SymReal pow(A a, const SymReal& b) { return SymReal::mk(symx::p_pow(SymReal(a).id(), b.id())); }
inline SymReal hypot(const SymReal& a, const SymReal& b) { return std::sqrt(a*a + b*b); }
inline SymReal fmax(const SymReal& a, const SymReal& b) { return a < b ? b : a; }
inline SymReal fmin(const SymReal& a, const SymReal& b) { return b < a ? b : a; }
inline bool isnan(const SymReal&) { return false; }
inline bool isinf(const SymReal&) { return false; }
inline bool isfinite(const SymReal&) { return true; }
inline string to_string(const SymReal& x) { return symx::p_isconst(x.id()) ? std::to_string(symx::p_approx(x.id())) : symx::token(x); }
inline ostream& operator<<(ostream& o, const SymReal& x) { if (symx::p_isconst(x.id())) return o << symx::p_approx(x.id()); return o << symx::token(x); }
inline istream& operator>>(istream& i, SymReal& x) {
  string tok; if (i >> tok) { SymReal r; size_t n = symx::parse_real(tok.c_str(), r);
    if (n == 0) { x = SymReal(0); i.setstate(ios::failbit); } else x = r; }
  else { x = SymReal(0); }
  return i; }
template <> struct numeric_limits<SymReal> {
  static constexpr bool is_specialized = true;
  static SymReal max() { return SymReal::lit("1e300"); }
  static SymReal lowest() { return SymReal::lit("-1e300"); }
  static SymReal min() { return SymReal::lit("1e-300"); }
  static SymReal epsilon() { return SymReal::lit("2.220446049250313e-16"); }
  static SymReal infinity() { return SymReal::lit("1e305"); }
  static SymReal quiet_NaN() { return SymReal::lit("1.23456e304"); }
};

template <> class complex<SymReal> {
  SymReal re_, im_;
 public:
  typedef SymReal value_type;
  complex() : re_(0), im_(0) {}
  template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
  complex(const A& a) : re_(SymReal(a)), im_(SymReal(0)) {}
  complex(const SymReal& a, const SymReal& b) : re_(a), im_(b) {}
  complex(const complex&) = default;
  complex& operator=(const complex&) = default;
  template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
  complex& operator=(const A& a) { re_ = SymReal(a); im_ = SymReal(0); return *this; }
  SymReal real() const { return re_; }
  SymReal imag() const { return im_; }
  void real(const SymReal& x) { re_ = x; }
  void imag(const SymReal& x) { im_ = x; }
  complex& operator+=(const complex& o) { re_ += o.re_; im_ += o.im_; return *this; }
  complex& operator-=(const complex& o) { re_ -= o.re_; im_ -= o.im_; return *this; }
  complex& operator*=(const complex& o) {
    SymReal r = re_ * o.re_ - im_ * o.im_, i = re_ * o.im_ + im_ * o.re_; re_ = r; im_ = i; return *this; }
  complex& operator/=(const complex& o) {
    SymReal n = o.re_ * o.re_ + o.im_ * o.im_;
    SymReal r = (re_ * o.re_ + im_ * o.im_) / n, i = (im_ * o.re_ - re_ * o.im_) / n;
    re_ = r; im_ = i; return *this; }
  template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
  complex& operator*=(const A& a) { re_ *= SymReal(a); im_ *= SymReal(a); return *this; }
  template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
  complex& operator/=(const A& a) { re_ /= SymReal(a); im_ /= SymReal(a); return *this; }
  template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
  complex& operator+=(const A& a) { re_ += SymReal(a); return *this; }
  template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
  complex& operator-=(const A& a) { re_ -= SymReal(a); return *this; }
  complex operator-() const { return complex(-re_, -im_); }
  complex operator+() const { return *this; }
};
typedef complex<SymReal> symcomplex_;
#define SYMX_CBIN(op) \
inline symcomplex_ operator op(const symcomplex_& a, const symcomplex_& b) { symcomplex_ r = a; r op##= b; return r; } \
template <class A, class = std::enable_if_t<symx::is_num<A>::value>> \
inline symcomplex_ operator op(const symcomplex_& a, const A& b) { symcomplex_ r = a; r op##= b; return r; } \
template <class A, class = std::enable_if_t<symx::is_num<A>::value>> \
inline symcomplex_ operator op(const A& a, const symcomplex_& b) { symcomplex_ r(a); r op##= b; return r; } \
inline symcomplex_ operator op(const symcomplex_& a, const SymReal& b) { symcomplex_ r = a; r op##= b; return r; } \
inline symcomplex_ operator op(const SymReal& a, const symcomplex_& b) { symcomplex_ r(a); r op##= b; return r; }
SYMX_CBIN(+) SYMX_CBIN(-) SYMX_CBIN(*) SYMX_CBIN(/)
inline bool operator==(const symcomplex_& a, const symcomplex_& b) { return a.real() == b.real() && a.imag() == b.imag(); }
template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
inline bool operator==(const symcomplex_& a, const A& b) { return a.real() == SymReal(b) && a.imag() == SymReal(0); }
inline bool operator!=(const symcomplex_& a, const symcomplex_& b) { return !(a == b); }
template <class A, class = std::enable_if_t<symx::is_num<A>::value>>
inline bool operator!=(const symcomplex_& a, const A& b) { return !(a == b); }
inline bool operator==(const symcomplex_& a, const SymReal& b) { return a.real() == b && a.imag() == SymReal(0); }
inline bool operator!=(const symcomplex_& a, const SymReal& b) { return !(a == b); }
inline SymReal real(const symcomplex_& z) { return z.real(); }
inline SymReal imag(const symcomplex_& z) { return z.imag(); }
inline SymReal norm(const symcomplex_& z) { return z.real()*z.real() + z.imag()*z.imag(); }
inline SymReal abs(const symcomplex_& z) { return std::sqrt(std::norm(z)); }
inline symcomplex_ conj(const symcomplex_& z) { return symcomplex_(z.real(), -z.imag()); }
inline symcomplex_ exp(const symcomplex_& z) {
  SymReal m = std::exp(z.real());
  return symcomplex_(m * std::cos(z.imag()), m * std::sin(z.imag())); }
inline symcomplex_ polar(const SymReal& r, const SymReal& t) { return symcomplex_(r*std::cos(t), r*std::sin(t)); }
inline symcomplex_ pow(const symcomplex_& z, int n) {
  symcomplex_ r(1); long long m = n < 0 ? -(long long)n : (long long)n;
  for (long long i = 0; i < m; i++) r *= z;
  return n < 0 ? symcomplex_(1) / r : r; }
// transcendental complex functions: real/imaginary parts as uninterpreted functions
inline symcomplex_ log(const symcomplex_& z) {
  return symcomplex_(std::log(std::norm(z)) / SymReal(2), SymReal::mk(symx::p_uf("atan2", {z.imag().id(), z.real().id()}))); }
inline symcomplex_ pow(const symcomplex_& z, const symcomplex_& w) { return std::exp(w * std::log(z)); }
inline symcomplex_ pow(const symcomplex_& z, const SymReal& w) { return std::exp(w * std::log(z)); }
inline symcomplex_ sin(const symcomplex_& z) {
  SymReal ep = std::exp(z.imag()), em = std::exp(-z.imag());
  return symcomplex_(std::sin(z.real()) * (ep + em) / SymReal(2), std::cos(z.real()) * (ep - em) / SymReal(2)); }
inline ostream& operator<<(ostream& o, const symcomplex_& z) { return o << "(" << z.real() << "," << z.imag() << ")"; }
template <> struct hash<SymReal> { size_t operator()(const SymReal& x) const { return x.id(); } };
}  // namespace std

// unqualified C names
using std::sqrt; using std::exp; using std::log; using std::sin; using std::cos;
using std::fabs; using std::abs; using std::floor; using std::ceil; using std::pow; using std::round;
inline SymReal symx_stod(const std::string& s) {
  SymReal r; size_t n = symx::parse_real(s.c_str(), r); if (!n) throw std::invalid_argument("stod"); return r; }
#endif
