// Native replayer: runs the harness on the repository's real double-precision
// build with a concrete assignment, prints observed values and failing assertions.
#include "harness.hpp"
#undef private
#undef protected
static std::map<std::string,std::string> conf; static std::map<std::string,double> as; static double TOL = 1e-7;
struct Skip {}; static FILE* out = stdout; static int nfail = 0;
namespace H {
std::string cfg(const char* k, const char* d) { auto it = conf.find(k); return it == conf.end() ? d : it->second; }
int cfgi(const char* k, int d) { auto it = conf.find(k); return it == conf.end() ? d : atoi(it->second.c_str()); }
real rl(const char* s) { std::string t(s); size_t p = t.find('/'); if (p == std::string::npos) return atof(s); return atof(t.substr(0,p).c_str()) / atof(t.substr(p+1).c_str()); }
real pi() { return M_PI; }
static real get(const std::string& n) { auto it = as.find(n); if (it == as.end()) { fprintf(stderr, "unassigned %s\n", n.c_str()); return 0.5; } return it->second; }
real var(const std::string& n, const char*, const char*) { return get(n); }
real var_co(const std::string& n, const char*, const char*) { return get(n); }
real var_oo(const std::string& n, const char*, const char*) { return get(n); }
int ivar(const std::string& n, int, int) { return (int)std::floor(get(n) + 1e-9); }
void assume(bool b) { if (!b) throw Skip(); }
static void o(const std::string& l, double a) { fprintf(out, "OBS %s %.17g\n", l.c_str(), a); }
static void fail(const std::string& l, double a, double b) { nfail++; fprintf(out, "FAIL %s %.17g %.17g\n", l.c_str(), a, b); }
static double sc(double a, double b) { return TOL * std::max(1., std::max(std::fabs(a), std::fabs(b))); }
void eq(const std::string& l, const real& a, const real& b) { o(l, a); if (!(std::fabs(a - b) <= sc(a, b))) fail(l, a, b); }
void le(const std::string& l, const real& a, const real& b) { o(l, a); if (!(a <= b + sc(a, b))) fail(l, a, b); }
void lt(const std::string& l, const real& a, const real& b) { o(l, a); if (!(a < b)) fail(l, a, b); }
void truth(const std::string& l, bool b) { if (!b) fail(l, 0, 1); }
void obs(const std::string& l, const real& a) { o(l, a); }
real parse(const std::string& s) { char* e; double d = strtod(s.c_str(), &e); if (e == s.c_str()) throw std::runtime_error("not a number: " + s); return d; }
std::string text(const real& x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
bool native() { return true; }
double num(const real& x) { return x; }
void tol(double t) { TOL = t; }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; size_t p = a.find('='); if (p == std::string::npos) continue; std::string k = a.substr(0,p), v = a.substr(p+1);
    if (k == "--assign") { std::ifstream f(v); std::string n; double d; std::string line; while (std::getline(f, line)) { size_t t = line.find('\t'); if (t == std::string::npos) continue; n = line.substr(0, t); d = atof(line.c_str()+t+1); as[n] = d; } }
    else if (k == "--out") { out = fopen(v.c_str(), "w"); } else conf[k] = v; }
  setvbuf(out, nullptr, _IOLBF, 0);
  try { harness(); fprintf(out, "DONE %d\n", nfail); }
  catch (Skip&) { fprintf(out, "SKIP\n"); }
  catch (std::exception& e) { fprintf(out, "FAIL uncaught-exception 0 1\nEXC %s\nDONE %d\n", e.what(), nfail + 1); }
  fclose(out); return 0; }
