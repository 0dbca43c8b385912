// Harness API.  One harness source is compiled twice: against the symbolic
// library (SYMX) and against the repository compiled natively (double), where it
// replays assignments produced by the solver.
#ifndef HARNESS_HPP
#define HARNESS_HPP
#ifdef SYMX
#include "symx_prelude.hpp"
#include "stubs/fftw3.h"
typedef SymReal real;
#else
#include <algorithm>
#include <cassert>
#include <array>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/stat.h>
#include <fftw3.h>
#include <gsl/gsl_spline.h>
typedef double real;
#endif
typedef std::complex<real> cplx;
namespace H {
std::string cfg(const char* key, const char* dflt = "");
int cfgi(const char* key, int dflt = 0);
real rl(const char* s);                       // exact rational/decimal literal
real pi();
real var(const std::string& name, const char* lo, const char* hi);    // lo <= v <= hi
real var_co(const std::string& name, const char* lo, const char* hi); // lo <= v < hi
real var_oo(const std::string& name, const char* lo, const char* hi); // lo < v < hi
int ivar(const std::string& name, int lo, int hi);
void assume(bool);
void eq(const std::string&, const real&, const real&);
void le(const std::string&, const real&, const real&);
void lt(const std::string&, const real&, const real&);
void truth(const std::string&, bool);
void obs(const std::string&, const real&);
inline void eqc(const std::string& l, const cplx& a, const cplx& b) { eq(l + ".re", a.real(), b.real()); eq(l + ".im", a.imag(), b.imag()); }
inline std::string ix(const char* b, long i) { return std::string(b) + "[" + std::to_string(i) + "]"; }
inline std::string ix(const char* b, long i, long j) { return std::string(b) + "[" + std::to_string(i) + "," + std::to_string(j) + "]"; }
inline std::string ix(const char* b, long i, long j, long k) { return std::string(b) + "[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + "]"; }
real parse(const std::string&);                // number (or printed symbolic value) from text
std::string text(const real&);                 // what parse() reads back
bool native();
double num(const real&);                      // numeric value of a concrete real
void tol(double abs_rel);                     // native comparison tolerance
}
void harness();   // defined by each harness file
#define private public
#define protected public
#endif
