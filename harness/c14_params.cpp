// C14: parameter validation, derivation, copying and reading.
#include "harness.hpp"
#include "hutil.hpp"
#include <unistd.h>
typedef trv::ParameterSet P;
template <class E> static bool rejected(std::function<void()> f) { try { f(); } catch (E&) { return true; } return false; }
static void same(const std::string& l, P& p, P& q, bool paths = true) {
#define S(f) H::truth(l + ":" #f, p.f == q.f);
#define R(f) H::eq(l + ":" #f, p.f, q.f);
  if (paths) { S(catalogue_dir) S(measurement_dir) S(data_catalogue_file) S(rand_catalogue_file) S(fftw_wisdom_file_f) S(fftw_wisdom_file_b) S(use_fftw_wisdom) S(save_binned_vectors) }
  S(catalogue_columns) S(catalogue_dataset) S(output_tag) R(boxsize[0]) R(boxsize[1]) R(boxsize[2]) S(ngrid[0]) S(ngrid[1]) S(ngrid[2]) R(expand) R(cutoff_nyq) S(alignment) S(padscale) R(padfactor) S(assignment) S(interlace) R(volume) S(nmesh) S(assignment_order) S(catalogue_type) S(statistic_type) S(npoint) S(space) S(ell1) S(ell2) S(ELL) S(i_wa) S(j_wa) S(form) S(norm_convention) S(shape) S(binning) R(bin_min) R(bin_max) S(num_bins) S(idx_bin) S(fftw_scheme) S(fftw_planner_flag) S(verbose) S(progbar)
}
static const char* CT[] = {"survey", "random", "sim", "none", "galaxies"};
static const char* ST[] = {"powspec", "2pcf", "2pcf-win", "bispec", "3pcf", "3pcf-win", "3pcf-win-wa", "modes", "pairs", "powerspec"};
static const char* FM[] = {"full", "diag", "off-diag", "row", "triu"};
static const char* NC[] = {"none", "particle", "mesh", "mesh-mixed", "meshmixed"};
static const char* BN[] = {"lin", "log", "linpad", "logpad", "custom", "pad"};
static const char* IL[] = {"true", "on", "false", "off", "yes"};
static const char* AS[] = {"ngp", "cic", "tsc", "pcs", "TSC"};
static const char* FW[] = {"estimate", "measure", "patient", "exhaustive"};
static const char* AL[] = {"centre", "pad", "center"};
static const char* PS[] = {"box", "grid", "cell"};
static const char* pick(const char* nm, const char** v, int n, const char* d) { return H::cfgi(nm, 0) ? v[H::ivar(nm, 0, n - 1)] : H::cfg((std::string(nm) + "0").c_str(), d).c_str(); }
static P base() { P p; p.catalogue_dir = "in"; p.measurement_dir = "out"; p.output_tag = "_t"; p.data_catalogue_file = "d.dat"; p.rand_catalogue_file = "r.dat"; for (int a = 0; a < 3; a++) { p.boxsize[a] = real(4 + a); p.ngrid[a] = 6 + 2 * a; } p.bin_min = H::rl("1/8"); p.bin_max = H::rl("3/2"); p.num_bins = 8; p.idx_bin = 0; p.verbose = 60; p.catalogue_type = "survey"; p.statistic_type = "powspec"; return p; }
static bool in(const std::string& s, const char** v, int n) { for (int i = 0; i < n - 1; i++) if (s == v[i]) return true; return false; }
static std::string SV(const char* n, const char* d) { return H::cfg(n, d); }
static std::string str(const char* nm, const char** v, int n, const char* d) { if (H::cfgi(nm, 0)) return v[H::ivar(nm, 0, n - 1)]; return H::cfg((std::string(nm) + "0").c_str(), d); }
static std::string prefix(const std::string& d, const std::string& f) { return f.rfind("/", 0) == 0 ? f : d + "/" + f; }
static void validate() {
  P p = base(); int N3;
  p.catalogue_type = str("ct", CT, 5, "survey"); p.statistic_type = str("st", ST, 10, "powspec"); p.form = str("fm", FM, 5, "diag"); p.norm_convention = str("nc", NC, 5, "particle"); p.binning = str("bn", BN, 6, "lin"); p.interlace = str("il", IL, 5, "off"); p.assignment = str("as", AS, 5, "tsc"); p.fftw_scheme = str("fw", FW, 4, "estimate"); p.alignment = str("al", AL, 3, "centre"); p.padscale = str("ps", PS, 3, "box");
  if (H::cfgi("ell", 0)) { p.ell1 = H::ivar("ell1", 0, 2); p.ell2 = H::ivar("ell2", 0, 2); p.ELL = 2; }
  if (H::cfgi("bins", 0)) { p.num_bins = H::ivar("num_bins", 0, 9); p.idx_bin = H::ivar("idx_bin", -4, 9); }
  if (H::cfgi("range", 0)) { p.bin_min = H::var("bin_min", "-1", "3"); p.bin_max = H::var("bin_max", "-1", "3"); }
  if (H::cfgi("padf", 0)) p.padfactor = H::var("padfactor", "-1", "9");
  int bx = H::cfgi("box", 0); if (bx == 1) { for (int a = 0; a < 3; a++) p.boxsize[a] = H::var("box" + std::to_string(a), "1/4", "16"); } else if (bx == 2) { for (int a = 0; a < 3; a++) p.boxsize[a] = real(0); p.expand = H::var("expand", "0", "3"); }
  int gr = H::cfgi("grid", 0); if (gr == 1) { for (int a = 0; a < 3; a++) p.ngrid[a] = H::ivar("ng" + std::to_string(a), 1, 5); } else if (gr == 2) { for (int a = 0; a < 3; a++) p.ngrid[a] = 0; p.cutoff_nyq = H::var("cutoff", H::cfg("clo", "-1/2").c_str(), H::cfg("chi", "5/2").c_str()); if (H::cfgi("czero", 0)) p.cutoff_nyq = real(0); }
  int sv = H::cfgi("save", 0) ? H::ivar("save", 0, 4) : 0; const char* svs[] = {"false", "true", "bv.dat", "/abs/bv.dat", ""}; p.save_binned_vectors = svs[sv];
  int wz = H::cfgi("wis", 0) ? H::ivar("wis", 0, 2) : 0; const char* wzs[] = {"false", "wdir", ""}; p.use_fftw_wisdom = wzs[wz];
  int dr = H::cfgi("dirs", 0) ? H::ivar("dirs", 0, 3) : 0; if (dr & 1) p.catalogue_dir = ""; if (dr & 2) p.measurement_dir = "";
  int fl = H::cfgi("files", 0) ? H::ivar("files", 0, 5) : 0; const char* fls[] = {"d.dat", "d.dat::e.dat", "d.dat::", "/abs/d.dat::e.dat::f.dat", "", "${HVAR}/d.dat"}; p.data_catalogue_file = fls[fl]; setenv("HVAR", "/home/x", 1);
  P q = p;  // the requested values
  bool gpu = false; (void)gpu; bool init = H::cfgi("init", 1); bool got = !rejected<trv::sys::InvalidParameterError>([&] { p.validate(init); });
  // documented acceptance rule
  std::string st = q.statistic_type, ct = q.catalogue_type; bool win = st == "2pcf-win" || st == "3pcf-win" || st == "3pcf-win-wa", mp = st == "modes" || st == "pairs"; bool two = st == "powspec" || st == "2pcf" || st == "2pcf-win", three = !two && !mp;
  bool ok = in(ct, CT, 5) && in(st, ST, 10) && in(q.form, FM, 5) && in(q.norm_convention, NC, 5) && in(q.binning, BN, 6) && in(q.interlace, IL, 5) && in(q.assignment, AS, 5) && in(q.fftw_scheme, FW, 4) && in(q.alignment, AL, 3) && in(q.padscale, PS, 3);
  if (ok) { if (win) ok = ct == "random"; else if (!mp) ok = ct == "survey" || ct == "sim"; }
  if (ok && q.norm_convention == "mesh-mixed") ok = two;
  if (ok) ok = q.bin_min >= real(0) && q.bin_min < q.bin_max && q.num_bins >= 2 && std::abs(q.idx_bin) < q.num_bins && !((q.binning == "linpad" || q.binning == "logpad") && q.num_bins < 7) && !(three && q.form == "row" && q.idx_bin < 0);
  if (ok && bx == 2) ok = q.expand >= real(1);
  bool space_f = st == "powspec" || st == "bispec" || st == "modes"; bool derive = gr == 2;
  if (ok && derive) ok = bx == 2 ? q.cutoff_nyq >= real(0) : q.cutoff_nyq > real(0);
  if (ok && wz) ok = wz == 2 || q.fftw_scheme == "measure" || q.fftw_scheme == "patient";
  if (wz == 2 && init) ok = ok && (q.fftw_scheme == "measure" || q.fftw_scheme == "patient");
  int ng[3] = {p.ngrid[0], p.ngrid[1], p.ngrid[2]};
  if (ok && q.alignment == "pad") { ok = q.padfactor >= real(0); if (ok && q.padscale == "box") ok = q.padfactor < real(1); if (ok && q.padscale == "grid") for (int a = 0; a < 3; a++) ok = ok && q.padfactor < real(ng[a]); }
  H::truth(ok ? "valid-set-accepted" : "invalid-set-rejected", got == ok);
  if (!got || !ok) return;
  H::eq("volume", p.volume, q.boxsize[0] * q.boxsize[1] * q.boxsize[2]); long long nm = 1; for (int a = 0; a < 3; a++) { H::eq(H::ix("boxsize-kept", a), p.boxsize[a], q.boxsize[a]); nm *= p.ngrid[a]; if (!derive) H::truth("ngrid-kept", p.ngrid[a] == q.ngrid[a]); } H::truth("nmesh", p.nmesh == nm);
  if (derive && bx != 2) for (int a = 0; a < 3; a++) { H::truth("grid-even", p.ngrid[a] > 0 && p.ngrid[a] % 2 == 0); // the mesh resolves the cutoff and is the smallest even one that does
    real need = space_f ? q.boxsize[a] * q.cutoff_nyq / H::pi() : real(2) * q.boxsize[a] / q.cutoff_nyq; H::le("grid-resolves-cutoff", need, real(p.ngrid[a])); H::lt("grid-not-oversized", real(p.ngrid[a] - 2), need); }
  H::truth("assignment-order", p.assignment_order == (q.assignment == "ngp" ? 1 : q.assignment == "cic" ? 2 : q.assignment == "tsc" ? 3 : 4));
  bool on = q.interlace == "true" || q.interlace == "on"; H::truth("interlace", p.interlace == (on && !three ? "true" : "false"));
  H::truth("npoint", p.npoint == (two ? "2pt" : three ? "3pt" : "none")); H::truth("space", p.space == (space_f ? "fourier" : "config")); H::truth("shape", p.shape == (q.form == "full" && q.ell1 == q.ell2 ? "triu" : q.form));
  H::truth("planner", p.fftw_planner_flag == (q.fftw_scheme == "estimate" ? FFTW_ESTIMATE : q.fftw_scheme == "measure" ? FFTW_MEASURE : FFTW_PATIENT));
  H::truth("inputs-kept", p.form == q.form && p.norm_convention == q.norm_convention && p.binning == q.binning && p.num_bins == q.num_bins && p.idx_bin == q.idx_bin && p.ell1 == q.ell1 && p.ell2 == q.ell2 && p.ELL == q.ELL && p.catalogue_type == ct && p.statistic_type == st && p.alignment == q.alignment && p.padscale == q.padscale); H::eq("bin-min-kept", p.bin_min, q.bin_min); H::eq("bin-max-kept", p.bin_max, q.bin_max); H::eq("padfactor-kept", p.padfactor, q.padfactor);
  std::string md = (dr & 2) ? "./" : init ? "out/" : "out", cd = (dr & 1) ? "" : init ? "in/" : "in"; H::truth("measurement-dir", p.measurement_dir == md); H::truth("catalogue-dir", p.catalogue_dir == cd);
  std::string dflt = md + "binned_vectors_t"; std::string s0 = sv == 0 || sv == 4 ? "" : sv == 1 ? dflt : sv == 2 ? (init ? md + "bv.dat" : "bv.dat") : "/abs/bv.dat"; if (mp && s0 == "") s0 = dflt; H::truth("save-binned-vectors", p.save_binned_vectors == s0);
  auto files = [&](const std::string& f, bool used) { if (!used) return std::string(); std::string r; for (auto& t : trv::sys::split_string(f, "::")) r += (r == "" ? "" : "::") + (t[0] == '/' || !init ? (t[0] == '$' ? "/home/x/d.dat" : t) : t[0] == '$' ? cd + "/home/x/d.dat" : cd + t); return r; };
  H::truth("data-files", p.data_catalogue_file == files(fls[fl], ct == "survey" || ct == "sim")); H::truth("rand-files", p.rand_catalogue_file == files("r.dat", ct == "survey" || ct == "random"));
  if (wz == 1) { std::string w = init ? "wdir/" : "wdir", g = std::to_string(p.ngrid[0]) + "x" + std::to_string(p.ngrid[1]) + "x" + std::to_string(p.ngrid[2]) + ".wisdom"; auto ends = [&](const std::string& s, const char* tag) { return s.rfind(w, 0) == 0 && s.find(tag) != std::string::npos && s.size() >= g.size() && s.substr(s.size() - g.size()) == g; }; H::truth("wisdom-files", p.use_fftw_wisdom == w && ends(p.fftw_wisdom_file_f, "cif") && ends(p.fftw_wisdom_file_b, "cib")); }
  P r = p; H::truth("revalidation-accepted", !rejected<trv::sys::InvalidParameterError>([&] { r.validate(); })); same("idempotent", r, p); }
static void copy() {
  P p; p.catalogue_dir = "a/"; p.measurement_dir = "b/"; p.data_catalogue_file = "c"; p.rand_catalogue_file = "d"; p.catalogue_columns = "e"; p.catalogue_dataset = "f"; p.output_tag = "g"; for (int a = 0; a < 3; a++) { p.boxsize[a] = H::var("b" + std::to_string(a), "1", "9"); p.ngrid[a] = 5 + a; } p.expand = H::var("e", "1", "3"); p.cutoff_nyq = H::var("c", "0", "3"); p.alignment = "pad"; p.padscale = "grid"; p.padfactor = H::var("pf", "0", "3"); p.assignment = "pcs"; p.interlace = "true"; p.volume = H::var("v", "1", "9"); p.nmesh = 5000000000LL; p.assignment_order = 4; p.catalogue_type = "sim"; p.statistic_type = "3pcf"; p.npoint = "3pt"; p.space = "config"; p.ell1 = 1; p.ell2 = 2; p.ELL = 3; p.i_wa = 4; p.j_wa = 5; p.form = "full"; p.norm_convention = "mesh"; p.shape = "triu"; p.binning = "logpad"; p.bin_min = H::var("lo", "0", "1"); p.bin_max = H::var("hi", "1", "2"); p.num_bins = 11; p.idx_bin = 6; p.fftw_scheme = "patient"; p.fftw_planner_flag = FFTW_PATIENT; p.use_fftw_wisdom = "w"; p.fftw_wisdom_file_f = "wf"; p.fftw_wisdom_file_b = "wb"; p.save_binned_vectors = "s"; p.verbose = 42; p.progbar = "20";
  P q(p); same("copied", q, p); P c = p; same("copy-initialised", c, p); P d; d = p; same("assigned", d, p);
  // a copied set behaves like the original: its file lists are used in the same way
  P m = base(); m.data_catalogue_file = "u.dat::v.dat"; m.validate(true); P k(m); m.validate(); k.validate(); same("copy-validates-alike", k, m); }
static void fromfile() {
  std::map<std::string, std::string> kv; std::vector<std::string> keys; auto put = [&](const char* k, const std::string& v) { kv[k] = v; keys.push_back(k); };
  P q; int skip = H::cfgi("unset", 0); int tr = H::cfgi("tricky", 0); q.verbose = 60;
  auto ps = [&](const char* k, std::string& f, const std::string& v) { f = v; put(k, v); }; auto pr = [&](const char* k, real& f, const real& v) { f = v; put(k, H::text(v)); }; auto pi_ = [&](const char* k, int& f, int v) { f = v; put(k, std::to_string(v)); };
  ps("catalogue_dir", q.catalogue_dir, tr ? "/data/uniform_expand/boxsize_x" : "cats"); ps("measurement_dir", q.measurement_dir, tr ? "./assignment-form_interlace_output_tag" : "out"); ps("data_catalogue_file", q.data_catalogue_file, tr ? "binning_padscale.ngrid_x" : "d.dat"); ps("rand_catalogue_file", q.rand_catalogue_file, tr ? "catalogue_type-statistic_type::alignment.dat" : "r.dat"); ps("catalogue_columns", q.catalogue_columns, "x,y,z,nz"); ps("catalogue_dataset", q.catalogue_dataset, tr ? "num_bins/form/progbar" : "set"); ps("output_tag", q.output_tag, tr ? "_ell1_ELL_norm_convention_verbose" : "_tag");
  if (!(skip & 1)) { const char* b[3] = {"boxsize_x", "boxsize_y", "boxsize_z"}; for (int a = 0; a < 3; a++) pr(b[a], q.boxsize[a], a == 0 ? H::var("bx", "1", "9") : real(5 + a)); }
  if (!(skip & 2)) { pi_("ngrid_x", q.ngrid[0], 4); pi_("ngrid_y", q.ngrid[1], 5); pi_("ngrid_z", q.ngrid[2], 6); }
  pr("expand", q.expand, H::var("ex", "1", "2")); pr("cutoff_nyq", q.cutoff_nyq, skip == 2 ? H::rl("1/2") : H::var("cut", "0", "2"));
  if (!(skip & 4)) { ps("alignment", q.alignment, "pad"); ps("padscale", q.padscale, skip == 2 ? "box" : skip & 2 ? "box" : "grid"); pr("padfactor", q.padfactor, H::var_co("pf", "0", "1")); ps("assignment", q.assignment, "pcs"); ps("interlace", q.interlace, "on"); ps("form", q.form, "off-diag"); ps("norm_convention", q.norm_convention, "mesh"); ps("binning", q.binning, "linpad"); ps("fftw_scheme", q.fftw_scheme, "patient"); ps("save_binned_vectors", q.save_binned_vectors, tr ? "use_fftw_wisdom" : "true"); ps("progbar", q.progbar, "20"); ps("use_fftw_wisdom", q.use_fftw_wisdom, "wis"); }
  ps("catalogue_type", q.catalogue_type, "survey"); ps("statistic_type", q.statistic_type, H::cfg("stat", "2pcf")); pi_("ell1", q.ell1, 2); pi_("ell2", q.ell2, 1); pi_("ELL", q.ELL, 3); pi_("i_wa", q.i_wa, 1); pi_("j_wa", q.j_wa, 4); pr("bin_min", q.bin_min, H::var("lo", "0", "1/2")); pr("bin_max", q.bin_max, H::var("hi", "1", "2")); pi_("num_bins", q.num_bins, 9); pi_("idx_bin", q.idx_bin, 3); pi_("verbose", q.verbose, 60);
  int nk = keys.size(), rot = H::ivar("rot", H::cfgi("rlo", 0), std::min(H::cfgi("rhi", nk - 1), nk - 1)); int step = H::cfgi("step", 1); while (std::__gcd(step, nk) != 1) step++;
  std::ofstream f("p.ini"); int deco = H::cfgi("deco", 0); if (deco) f << "# boxsize_x = 77\n\n  # ngrid_x = 99\n"; for (int i = 0; i < nk; i++) { std::string k = keys[(size_t)(rot + i * step) % nk]; if (deco && i % 3 == 1) f << "#" << k << " = 3\n  #" << k << " = 3\n"; if (deco && i % 4 == 2) f << k << " =\n" << k << "_old = 5\nmy_" << k << " = 5\n"; f << (deco && i % 3 == 0 ? "  " : "") << k << (deco && i % 2 ? "   =\t" : " = ") << kv[k] << (deco && i % 5 == 0 ? "  # form boxsize_y" : "") << "\n"; } f.close();
  P p; char fn[] = "p.ini"; p.read_from_file(fn); q.validate(true); same("read", p, q); }
static void envs() {
  P p = base(); p.fftw_scheme = "measure"; p.validate(true); P q = p; int m = H::ivar("mask", 0, 31); const char* nm[5] = {"TRV_OVERRIDE_OUTPUT_TAG", "TRV_OVERRIDE_FFTW_SCHEME", "TRV_OVERRIDE_USE_FFTW_WISDOM", "TRV_OVERRIDE_VERBOSE", "TRV_OVERRIDE_PROGBAR"}; const char* v[5] = {"_new", "patient", "wd/", "61", "50"}; for (int i = 0; i < 5; i++) if (m >> i & 1) setenv(nm[i], v[i], 1); else unsetenv(nm[i]);
  trv::override_paramset_by_envvars(p); if (m & 1) q.output_tag = v[0]; if (m & 2) { q.fftw_scheme = v[1]; } if (m & 4) q.use_fftw_wisdom = v[2]; if (m & 8) q.verbose = 61; if (m & 16) q.progbar = v[4]; q.validate(); same("override", p, q); H::truth("override-applied", p.output_tag == ((m & 1) ? "_new" : "_t") && p.fftw_scheme == ((m & 2) ? "patient" : "measure") && p.verbose == ((m & 8) ? 61 : 60) && p.progbar == ((m & 16) ? "50" : "false")); for (int i = 0; i < 5; i++) unsetenv(nm[i]); }
static void setbox() {
  P p = base(); for (int a = 0; a < 3; a++) p.boxsize[a] = real(0); p.expand = H::var("expand", "1", "3"); p.validate(true); real s[3]; for (int a = 0; a < 3; a++) s[a] = H::var("s" + std::to_string(a), "1/4", "8"); P q = p; trv::set_boxsize_from_expand(s, p); for (int a = 0; a < 3; a++) { H::eq(H::ix("expanded-box", a), p.boxsize[a], s[a] * q.expand); q.boxsize[a] = s[a] * q.expand; } H::eq("expanded-volume", p.volume, p.boxsize[0] * p.boxsize[1] * p.boxsize[2]); q.volume = p.volume; same("setbox", p, q); }
void harness() { trv::sys::logger.reset_level(60); std::string op = H::cfg("op", "validate"); if (op == "validate") validate(); else if (op == "copy") copy(); else if (op == "read") fromfile(); else if (op == "env") envs(); else setbox(); }
