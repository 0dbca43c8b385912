#include "harness.hpp"
#include "engine.hpp"
#undef private
#undef protected
static std::map<std::string,std::string> conf;
namespace H {
std::string cfg(const char* k, const char* d) { auto it = conf.find(k); return it == conf.end() ? d : it->second; }
int cfgi(const char* k, int d) { auto it = conf.find(k); return it == conf.end() ? d : atoi(it->second.c_str()); }
real rl(const char* s) { std::string t(s); size_t p = t.find('/'); if (p == std::string::npos) return SymReal::lit(s); return SymReal::lit(t.substr(0,p).c_str()) / SymReal::lit(t.substr(p+1).c_str()); }
real pi() { return SYM_PI; }
real var(const std::string& n, const char* lo, const char* hi) { return symx::mk_var(n, lo, hi, false, false); }
real var_co(const std::string& n, const char* lo, const char* hi) { return symx::mk_var(n, lo, hi, false, true); }
real var_oo(const std::string& n, const char* lo, const char* hi) { return symx::mk_var(n, lo, hi, true, true); }
int ivar(const std::string& n, int lo, int hi) { return (int)symx::mk_int(n, lo, hi); }
void assume(bool b) { symx::h_assume(b); }
void eq(const std::string& l, const real& a, const real& b) { symx::h_eq(l, a, b); }
void le(const std::string& l, const real& a, const real& b) { symx::h_le(l, a, b); }
void lt(const std::string& l, const real& a, const real& b) { symx::h_lt(l, a, b); }
void truth(const std::string& l, bool b) { symx::h_true(l, b); }
void obs(const std::string& l, const real& a) { symx::h_obs(l, a); }
real parse(const std::string& s) { SymReal r; if (!symx::parse_real(s.c_str(), r)) throw std::runtime_error("not a number: " + s); return r; }
std::string text(const real& x) { return symx::token(x); }
bool native() { return false; }
double num(const real& x) { return symx::p_approx(x.id()); }
void tol(double) {}
}
int main(int argc, char** argv) {
  const char* out = "/dev/stdout"; auto& o = symx::get_opts();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; size_t p = a.find('='); if (p == std::string::npos) continue; std::string k = a.substr(0,p), v = a.substr(p+1);
    if (k == "--out") out = strdup(v.c_str()); else if (k == "--budget") o.budget_s = atof(v.c_str()); else if (k == "--query-ms") o.query_ms = atoi(v.c_str());
    else if (k == "--seed") o.seed = atol(v.c_str()); else if (k == "--traces") o.max_traces = atoi(v.c_str()); else if (k == "--max-paths") o.max_paths = atol(v.c_str()); else conf[k] = v; if (k == "nsample") o.nsample = atol(v.c_str()); if (k == "inf") o.inf = v == "1"; if (k == "logbounds") o.logbounds = v == "1"; }
  return symx::run(harness, out); }
