#ifndef SYMX_PRELUDE
#define SYMX_PRELUDE
#include <sys/stat.h>
#include <algorithm>
#include <cassert>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <array>
#include <vector>
#include "symreal.hpp"
#include "engine.hpp"
namespace std {
// sscanf with exact values: real conversions understand printed tokens; everything else is delegated
inline bool symx_conv(const char*& s, const std::string& spec, SymReal* p) { size_t n = symx::parse_real(s, *p); if (!n) return false; s += n; return true; }
template <class T> inline bool symx_conv(const char*& s, const std::string& spec, T* p) { int n = -1; int r = std::sscanf(s, (spec + "%n").c_str(), p, &n); if (r < 1) return false; s += n; return true; }
inline bool symx_conv(const char*& s, const std::string& spec, double* p) { SymReal r; if (!symx_conv(s, spec, &r)) return false; *p = symx::p_approx(r.id()); return true; }
inline bool symx_lits(const char*& s, const char*& f, std::string& spec) {   // advance over literals and suppressed conversions; true at a storing conversion
  for (;;) { if (!*f) return false;
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*f)) f++; while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) { f = ""; return false; } s++; f++; continue; }
    if (f[1] == '%') { while (isspace((unsigned char)*s)) s++; if (*s != '%') { f = ""; return false; } s++; f += 2; continue; }
    spec = "%"; f++; while (*f && !strchr("diouxXeEfFgGaAcspn[", *f)) spec += *f++; if (*f == '[') { while (*f && *f != ']') spec += *f++; } if (*f) spec += *f++;
    if (spec[1] != '*') return true;
    int n = -1; std::sscanf(s, (spec + "%n").c_str(), &n); if (n < 0) { f = ""; return false; } s += n; } }
inline int symx_scan_(const char* s, const char* f) { std::string spec; symx_lits(s, f, spec); return 0; }
template <class A, class... R> inline int symx_scan_(const char* s, const char* f, A* a, R*... r) {
  std::string spec; if (!symx_lits(s, f, spec)) return 0; if (!symx_conv(s, spec, a)) return 0; return 1 + symx_scan_(s, f, r...); }
template <class... A> inline int symx_sscanf(const char* s, const char* f, A*... a) {
  const char* t = s; while (isspace((unsigned char)*t)) t++; if (!*t && sizeof...(a)) return EOF; return symx_scan_(s, f, a...); }
inline SymReal symx_stod_(const std::string& s) { return symx_stod(s); }
inline int symx_fetestexcept(int) { return 0; }   // exact arithmetic raises no floating-point flags
[[noreturn]] inline void symx_exit_(int c) { throw std::runtime_error("exit(" + std::to_string(c) + ")"); }
}
namespace symx {
// fprintf/snprintf with exact values: a real argument is printed as its token, everything else as usual
inline void put(std::string& o, std::string spec, const SymReal& r) { (void)spec; o += token(r); }
inline void put(std::string& o, std::string spec, double r) { put(o, spec, SymReal(r)); }
inline void put(std::string& o, std::string spec, const char* s) { char b[4096]; snprintf(b, sizeof b, spec.c_str(), s); o += b; }
template <class T, class = std::enable_if_t<std::is_integral<T>::value>> inline void put(std::string& o, std::string spec, T v) {
  std::string t; for (char c : spec) if (!strchr("hlzjt", c)) t += c; char b[256]; char c = t.back(); if (c == 'c') snprintf(b, sizeof b, t.c_str(), (int)v); else { t.insert(t.size() - 1, "ll"); snprintf(b, sizeof b, t.c_str(), (long long)v); } o += b; }
inline void fmt_(std::string& o, const char* f) { for (; *f; f++) { if (f[0] == '%' && f[1] == '%') f++; o += *f; } }
template <class A, class... R> inline void fmt_(std::string& o, const char* f, const A& a, const R&... r) {
  for (; *f; f++) { if (f[0] == '%' && f[1] == '%') { o += '%'; f++; continue; }
    if (*f == '%') { std::string s = "%"; f++; while (*f && !strchr("diouxXeEfFgGaAcsp", *f)) s += *f++; s += *f++; put(o, s, a); fmt_(o, f, r...); return; }
    o += *f; } }
}
namespace std {
template <class... A> inline int symx_fprintf(FILE* f, const char* fmt, const A&... a) {
  if (f == stderr || f == stdout) return 0;
  std::string o; symx::fmt_(o, fmt, a...); std::fwrite(o.data(), 1, o.size(), f); return (int)o.size(); }
}
using std::symx_fprintf;
#endif
