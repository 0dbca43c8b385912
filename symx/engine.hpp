#ifndef SYMX_ENGINE_HPP
#define SYMX_ENGINE_HPP
#include "symreal.hpp"
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace symx {
struct Stats { long ops=0, queries=0, unknown=0, undecided=0, incomplete=0, ambiguous=0, asserts=0, closed_nf=0, closed_const=0, closed_solver=0, paths=0, aborted=0, forks=0, reached=0, skipped=0, pruned=0, div_by_zero=0; double solver_s=0, max_query_s=0; };
struct Options { int query_ms=20000; double budget_s=600; long max_paths=1000000; int max_traces=12; int max_viol=2; long seed=1; long nsample=0; bool inf=false, logbounds=false; };
struct Violation { std::string label, kind, detail; std::map<std::string,double> assign; };
struct Obs { std::string label; PolyId p; };
struct Trace { std::map<std::string,double> assign; std::vector<std::pair<std::string,double>> obs; };
struct PathAbort { std::string why; PathAbort(const char* w) : why(w) {} };
struct DivByZero {};
struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };
Stats& get_stats(); Options& get_opts(); void engine_init();
SymReal mk_var(const std::string& name, const char* lo, const char* hi, bool lo_open, bool hi_open);
long long mk_int(const std::string& name, long long lo, long long hi);
void h_eq(const std::string&, const SymReal&, const SymReal&);
void h_le(const std::string&, const SymReal&, const SymReal&);
void h_lt(const std::string&, const SymReal&, const SymReal&);
void h_obs(const std::string&, const SymReal&);
void h_true(const std::string&, bool);
void h_assume(bool);
int run(std::function<void()> harness, const char* out);
}
#endif
