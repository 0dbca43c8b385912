// Exact rationals: 64-bit fast path, GMP fallback.
#ifndef SYMX_RAT
#define SYMX_RAT
#include <gmpxx.h>
#include <memory>
#include <numeric>
#include <string>
namespace symx {
class Rat {
  long long n = 0, d = 1; std::shared_ptr<mpq_class> b;
  static unsigned long long ug(unsigned long long a, unsigned long long c) { return std::gcd(a, c); }
  void setbig(const mpq_class& q) {
    if (q.get_num().fits_slong_p() && q.get_den().fits_slong_p()) { long a = q.get_num().get_si(), c = q.get_den().get_si(); if (a > -(1LL<<62) && a < (1LL<<62) && c < (1LL<<62)) { n = a; d = c; b.reset(); return; } }
    b = std::make_shared<mpq_class>(q); n = 0; d = 1; }
  bool set128(__int128 a, __int128 c) { // c>0
    bool neg = a < 0; unsigned __int128 u = neg ? -(unsigned __int128)a : (unsigned __int128)a, v = c;
    if ((u >> 63) == 0 && (v >> 63) == 0) { unsigned long long g = ug((unsigned long long)u, (unsigned long long)v); if (g > 1) { u /= g; v /= g; } }
    else { unsigned __int128 x = u, y = v; while (y) { unsigned __int128 t = x % y; x = y; y = t; } if (x > 1) { u /= x; v /= x; } }
    if ((u >> 62) || (v >> 62)) return false; n = neg ? -(long long)u : (long long)u; d = (long long)v; b.reset(); return true; }
 public:
  Rat() = default; Rat(int v) : n(v) {} Rat(long v) { *this = Rat((long long)v); } Rat(long long v) { if (v > -(1LL<<62) && v < (1LL<<62)) n = v; else setbig(mpq_class(mpz_class((long)v))); }
  Rat(unsigned long v) { if (v < (1UL<<62)) n = (long long)v; else setbig(mpq_class(mpz_class(v))); }
  Rat(long a, long c) { if (c < 0) { a = -a; c = -c; } long long g = std::gcd(a, c); n = a / g; d = c / g; }
  Rat(int a, int c) : Rat((long)a, (long)c) {}
  Rat(const mpz_class& a) { setbig(mpq_class(a)); } Rat(const mpz_class& a, const mpz_class& c) { mpq_class q(a, c); q.canonicalize(); setbig(q); }
  Rat(const mpz_class& a, int c) { mpq_class q(a, mpz_class(c)); q.canonicalize(); setbig(q); }
  Rat(const mpq_class& q) { setbig(q); } explicit Rat(double v) { mpq_class q(v); q.canonicalize(); setbig(q); }
  explicit Rat(const char* s) { mpq_class q(s); q.canonicalize(); setbig(q); }
  mpq_class q() const { if (b) return *b; return mpq_class(mpz_class((long)n), mpz_class((long)d)); }
  mpz_class get_num() const { return b ? b->get_num() : mpz_class((long)n); } mpz_class get_den() const { return b ? b->get_den() : mpz_class((long)d); }
  double get_d() const { return b ? b->get_d() : (double)n / (double)d; } std::string get_str() const { return q().get_str(); }
  void canonicalize() {}
  int sign() const { return b ? ::sgn(*b) : (n > 0) - (n < 0); }
  friend Rat operator+(const Rat& x, const Rat& y) { Rat r; if (!x.b && !y.b) { if (x.d == 1 && y.d == 1) { if (r.set128((__int128)x.n + y.n, 1)) return r; }
      else { __int128 a = (__int128)x.n * y.d, c = (__int128)y.n * x.d, s; if (!__builtin_add_overflow(a, c, &s) && r.set128(s, (__int128)x.d * y.d)) return r; } }
    r.setbig(x.q() + y.q()); return r; }
  friend Rat operator*(const Rat& x, const Rat& y) { Rat r; if (!x.b && !y.b && r.set128((__int128)x.n * y.n, (__int128)x.d * y.d)) return r; r.setbig(x.q() * y.q()); return r; }
  Rat operator-() const { Rat r = *this; if (b) r.setbig(-*b); else r.n = -n; return r; }
  friend Rat operator-(const Rat& x, const Rat& y) { return x + (-y); }
  friend Rat operator/(const Rat& x, const Rat& y) { Rat r; if (!x.b && !y.b) { __int128 a = (__int128)x.n * y.d, c = (__int128)x.d * y.n; if (c < 0) { a = -a; c = -c; } if (r.set128(a, c)) return r; } r.setbig(x.q() / y.q()); return r; }
  Rat& operator+=(const Rat& o) { return *this = *this + o; } Rat& operator-=(const Rat& o) { return *this = *this - o; } Rat& operator*=(const Rat& o) { return *this = *this * o; } Rat& operator/=(const Rat& o) { return *this = *this / o; }
  friend bool operator==(const Rat& x, const Rat& y) { if (!x.b && !y.b) return x.n == y.n && x.d == y.d; if (!x.b || !y.b) return false; return *x.b == *y.b; }
  friend bool operator!=(const Rat& x, const Rat& y) { return !(x == y); }
  friend bool operator<(const Rat& x, const Rat& y) { if (!x.b && !y.b) return (__int128)x.n * y.d < (__int128)y.n * x.d; return x.q() < y.q(); }
  friend bool operator>(const Rat& x, const Rat& y) { return y < x; } friend bool operator<=(const Rat& x, const Rat& y) { return !(y < x); } friend bool operator>=(const Rat& x, const Rat& y) { return !(x < y); }
  size_t hash() const { if (!b) return (size_t)n * 0x9E3779B97F4A7C15ull + (size_t)d * 0xC2B2AE3D27D4EB4Full; return mpz_get_ui(b->get_num_mpz_t()) * 0x9E3779B97F4A7C15ull + mpz_get_ui(b->get_den_mpz_t()) * 0xC2B2AE3D27D4EB4Full + 77 + sign(); }
};
inline int sgn(const Rat& q) { return q.sign(); }
}
#endif
