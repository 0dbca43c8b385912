// C20: text files written for measurements: headers, column names, rows.
#include "harness.hpp"
#include "io.hpp"
#include "hutil.hpp"
typedef std::vector<std::string> Strs;
// A symbolic number prints as nan(0x...); it is one unit.
static Strs cut(const std::string& s, const char* seps) {
  Strs r; std::string t;
  for (size_t i = 0; i < s.size(); i++) {
    if (s.compare(i, 4, "nan(") == 0) { size_t e = s.find(')', i); t += s.substr(i, e - i + 1); i = e; }
    else if (strchr(seps, s[i])) { if (!t.empty()) r.push_back(t); t = ""; }
    else t += s[i];
  }
  if (!t.empty()) r.push_back(t);
  return r; }
static void near(const std::string& l, const std::string& text, const real& want, double abs) { real got = H::parse(text); if (H::native()) { bool ok = std::fabs(H::num(got) - H::num(want)) <= abs; H::obs(l, ok ? want : got); H::truth(l, ok); } /* the file holds a rounded number */ else H::eq(l, got, want); }
static Strs grab(std::function<void(std::FILE*)> f) { char nm[] = "table.txt"; std::FILE* p = std::fopen(nm, "w"); f(p); std::fclose(p); std::ifstream i(nm); Strs r; std::string l; while (std::getline(i, l)) r.push_back(l); std::remove(nm); return r; }
static bool line(const Strs& ls, const std::string& key, std::string& rest) { int n = 0; for (auto& l : ls) { size_t p = l.find(key); if (l.size() && l[0] == '#' && p != std::string::npos && l.find_first_not_of("# ") == p) { rest = l.substr(p + key.size()); n++; } } return n == 1; }
static void numbers(const Strs& ls, const std::string& key, const std::string& lab, const std::vector<real>& want, double abs) { std::string s; bool ok = line(ls, key, s); H::truth(lab + "_line", ok); if (!ok) return; Strs p = cut(s, "[](), \t"); H::truth(lab + "_count", p.size() == want.size()); for (size_t i = 0; i < p.size() && i < want.size(); i++) near(H::ix(lab.c_str(), i), p[i], want[i], abs); }
static void words(const Strs& ls, const std::string& key, const std::string& lab, const std::string& want) { std::string s; bool ok = line(ls, key, s); H::truth(lab, ok && cut(s, " ,\t") == cut(want, " ,\t")); }
static std::string V(int i, const char* p) { return p + std::to_string(i); }
static void catalogue(trv::ParticleCatalogue& c, const char* p, const std::string& src) { c.source = src; c.ntotal = H::ivar(std::string(p) + "n", 0, 2) * 123456789 + 7; c.wtotal = H::var(std::string(p) + "w", "-8", "64"); c.wstotal = H::var(std::string(p) + "ws", "-8", "64"); for (int a = 0; a < 3; a++) { c.pos_min[a] = H::var(std::string(p) + "lo" + std::to_string(a), "-8", "8"); c.pos_max[a] = H::var(std::string(p) + "hi" + std::to_string(a), "-8", "8"); } }
static void catlines(const Strs& ls, trv::ParticleCatalogue& c, const std::string& name, const std::string& ext, const std::string& lab) {
  words(ls, name + " source:", lab + "_source", c.source); std::string s; bool ok = line(ls, name + " size:", s); H::truth(lab + "_size_line", ok); if (ok) { std::map<std::string, std::string> m; for (auto& t : cut(s, ",")) { Strs p = cut(t, " ="); if (p.size() == 2) m[p[0]] = p[1]; } H::truth(lab + "_size_keys", m.size() == 3 && m.count("ntotal") && m.count("wtotal") && m.count("wstotal")); if (m.size() == 3) { H::truth(lab + "_ntotal", m["ntotal"] == std::to_string(c.ntotal)); near(lab + "_wtotal", m["wtotal"], c.wtotal, 6e-4); near(lab + "_wstotal", m["wstotal"], c.wstotal, 6e-4); } }
  numbers(ls, ext, lab + "_extent", {c.pos_min[0], c.pos_max[0], c.pos_min[1], c.pos_max[1], c.pos_min[2], c.pos_max[2]}, 6e-4); }
// fields by column name; rows[i][field]
typedef std::map<std::string, std::vector<real>> Table;
static void table(const Strs& ls, const Table& want, int dim, const Strs& order) {
  Strs head; Strs rows; int nh = 0; for (auto& l : ls) { if (l.size() && l[0] == '#') { if (l.find("[0]") != std::string::npos && l.find("[1]") != std::string::npos) { nh++; for (auto& t : cut(l.substr(1), ",")) { Strs p = cut(t, " "); H::truth("column_number", p.size() == 2 && p[0] == "[" + std::to_string(head.size()) + "]"); head.push_back(p.size() == 2 ? p[1] : "?"); } } } else rows.push_back(l); }
  H::truth("one_table_header", nh == 1); H::truth("columns", head.size() == want.size()); for (auto& h : order) H::truth("column_present", std::count(head.begin(), head.end(), h) == 1); H::truth("rows", (int)rows.size() == dim);
  for (int i = 0; i < (int)rows.size() && i < dim; i++) { Strs p = cut(rows[i], "\t "); H::truth("row_length", p.size() == head.size()); if (p.size() != head.size()) continue;
    for (size_t k = 0; k < p.size(); k++) { auto it = want.find(head[k]); if (it == want.end()) continue; std::string lab = "value_" + std::to_string(k); real w = it->second[i]; double m = H::native() ? std::fabs(H::num(w)) : 0; near(H::ix("value", i, k), p[k], w, 1e-9 * m + 1e-300); } } }
static std::vector<real> reals(const char* nm, int n) { std::vector<real> r; for (int i = 0; i < n; i++) r.push_back(H::var(V(i, nm), H::cfg("lo", "-1000").c_str(), H::cfg("hi", "1000").c_str())); return r; }
static std::vector<cplx> cplxs(const char* nm, int n) { std::vector<cplx> r; for (int i = 0; i < n; i++) { real a = H::var(V(i, nm) + "r", H::cfg("lo", "-1000").c_str(), H::cfg("hi", "1000").c_str()), b = H::var(V(i, nm) + "i", H::cfg("lo", "-1000").c_str(), H::cfg("hi", "1000").c_str()); r.push_back(cplx(a, b)); } return r; }
static std::vector<int> ints(int k, int n) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(i == 1 ? 2000000000 + k : 17 * i + k); return r; }
static std::vector<real> rv(const std::vector<int>& v) { std::vector<real> r; for (int x : v) r.push_back(real(x)); return r; }
static std::vector<real> part(const std::vector<cplx>& v, int im) { std::vector<real> r; for (auto& x : v) r.push_back(im ? x.imag() : x.real()); return r; }
template <class M> static void two(M& m, trv::ParameterSet& p, int n) { m.dim = n; m.rbin = reals("b", n); m.reff = reals("e", n); m.npairs = ints(3, n); m.xi = cplxs("x", n); std::string L = std::to_string(p.ELL); Strs o = {"r_cen", "r_eff", "npairs", "Re{xi" + L + "}", "Im{xi" + L + "}"}; Table t = {{o[0], m.rbin}, {o[1], m.reff}, {o[2], rv(m.npairs)}, {o[3], part(m.xi, 0)}, {o[4], part(m.xi, 1)}};
  table(grab([&](std::FILE* f) { trv::io::print_measurement_datatab_to_file(f, p, m); }), t, n, o); }
template <class M> static void three(M& m, trv::ParameterSet& p, int n) { m.dim = n; m.r1_bin = reals("b", n); m.r1_eff = reals("e", n); m.npairs_1 = ints(3, n); m.r2_bin = reals("c", n); m.r2_eff = reals("f", n); m.npairs_2 = ints(5, n); m.zeta_raw = cplxs("x", n); m.zeta_shot = cplxs("s", n); std::string L = std::to_string(p.ell1) + std::to_string(p.ell2) + std::to_string(p.ELL);
  Strs o = {"r1_cen", "r1_eff", "npairs_1", "r2_cen", "r2_eff", "npairs_2", "Re{zeta" + L + "_raw}", "Im{zeta" + L + "_raw}", "Re{zeta" + L + "_shot}", "Im{zeta" + L + "_shot}"}; Table t = {{o[0], m.r1_bin}, {o[1], m.r1_eff}, {o[2], rv(m.npairs_1)}, {o[3], m.r2_bin}, {o[4], m.r2_eff}, {o[5], rv(m.npairs_2)}, {o[6], part(m.zeta_raw, 0)}, {o[7], part(m.zeta_raw, 1)}, {o[8], part(m.zeta_shot, 0)}, {o[9], part(m.zeta_shot, 1)}};
  table(grab([&](std::FILE* f) { trv::io::print_measurement_datatab_to_file(f, p, m); }), t, n, o); }
void harness() {
  trv::sys::logger.reset_level(60); std::string op = H::cfg("op", "powspec"); int n = H::cfgi("n", 3); trv::ParameterSet p; p.ELL = H::cfgi("ELL", 2); p.ell1 = H::cfgi("ell1", 1); p.ell2 = H::cfgi("ell2", 3);
  p.num_bins = n; for (int a = 0; a < 3; a++) { p.boxsize[a] = H::var(V(a, "box"), "1", "1000"); p.ngrid[a] = 32 * (a + 1) + a; } p.alignment = H::cfg("alignment", "pad"); p.assignment = H::cfg("assignment", "tsc"); p.interlace = H::cfg("interlace", "true"); p.norm_convention = H::cfg("norm", "particle");
  if (op == "header") { real f[3]; for (int i = 0; i < 3; i++) f[i] = H::var(V(i, "norm"), "1/8", "1000"); trv::ParticleCatalogue c(60), d(60); catalogue(c, "d", "extfile:some/data.dat"); bool both = H::cfgi("both", 1); if (both) catalogue(d, "r", "extdata"); Strs ls;
    if (both) ls = grab([&](std::FILE* o) { trv::io::print_measurement_header_to_file(o, p, c, d, f[0], f[1], f[2]); }); else ls = grab([&](std::FILE* o) { trv::io::print_measurement_header_to_file(o, p, c, f[0], f[1], f[2]); });
    for (auto& l : ls) H::truth("comment", l.size() && l[0] == '#');
    if (both) { catlines(ls, c, "Data catalogue", "Data-source particle extents:", "data"); catlines(ls, d, "Random catalogue", "Random-source particle extents:", "rand"); } else catlines(ls, c, "Catalogue", "Catalogue particle extents:", "cat");
    numbers(ls, "Box size:", "box", {p.boxsize[0], p.boxsize[1], p.boxsize[2]}, 6e-4); numbers(ls, "Mesh number:", "mesh", {real(32), real(65), real(98)}, 0); words(ls, "Box alignment:", "alignment", p.alignment); words(ls, "Mesh assignment and interlacing:", "assignment", p.assignment + ", " + p.interlace);
    std::string s; bool ok = line(ls, "Normalisation factor:", s); H::truth("norm_line", ok); if (ok) { Strs w = cut(s, " ()"); H::truth("norm_words", w.size() == 2 && w[1] == p.norm_convention); int k = p.norm_convention == "particle" ? 0 : p.norm_convention == "mesh" ? 1 : 2; if (w.size() == 2) near("norm", w[0], p.norm_convention == "none" ? real(1) : f[k], 1e-6); }
    ok = line(ls, "Normalisation factor alternatives:", s); H::truth("alternatives_line", ok); if (ok) { Strs w = cut(s, " (),"); H::truth("alternatives_words", w.size() == 6 && w[1] == "particle" && w[3] == "mesh" && w[5] == "mesh-mixed"); if (w.size() == 6) for (int i = 0; i < 3; i++) near(H::ix("alternative", i), w[2 * i], f[i], 1e-6); }
    return; }
  if (op == "vectors") { trv::BinnedVectors b; b.count = n; b.num_bins = H::cfgi("bins", 2); b.indices = ints(0, n); if (n > 1) b.indices[1] = 1; b.lower_edges = reals("l", n); b.upper_edges = reals("u", n); b.vecx = reals("x", n); b.vecy = reals("y", n); b.vecz = reals("z", n); Strs ls = grab([&](std::FILE* f) { trv::io::print_binned_vectors_to_file(f, p, b); });
    numbers(ls, "Box size:", "box", {p.boxsize[0], p.boxsize[1], p.boxsize[2]}, 6e-4); numbers(ls, "Mesh number:", "mesh", {real(32), real(65), real(98)}, 0); numbers(ls, "Vector count:", "count", {real(n)}, 0); numbers(ls, "Bin number:", "bins", {real(b.num_bins)}, 0);
    Strs o = {"bin_index", "bin_lower", "bin_upper", "vec_x", "vec_y", "vec_z"}; table(ls, {{o[0], rv(b.indices)}, {o[1], b.lower_edges}, {o[2], b.upper_edges}, {o[3], b.vecx}, {o[4], b.vecy}, {o[5], b.vecz}}, n, o); return; }
  if (op == "paths") { for (auto& s : Strs{"", "/", "dir/", "   ", "\t", "a/b/"}) H::truth("unset", !trv::sys::if_filepath_is_set(s)); for (auto& s : Strs{"a", " a", "dir/file", "/x", "a "}) H::truth("set", trv::sys::if_filepath_is_set(s));
    namespace fs = std::filesystem; trv::sys::make_write_dir("w1/w2/"); trv::sys::make_write_dir("w1/w2"); trv::sys::make_write_dir("w1/w3"); for (auto& s : Strs{"", ".", "./", "/"}) trv::sys::make_write_dir(s); H::truth("made", fs::is_directory("w1/w2") && fs::is_directory("w1/w3")); { std::ofstream f("plain"); f << "x"; } bool bad = false; try { trv::sys::make_write_dir("plain/sub"); } catch (trv::sys::IOError&) { bad = true; } H::truth("failure_reported", bad && !fs::exists("plain/sub")); fs::remove_all("w1"); fs::remove("plain"); real v = H::var("v", "0", "1"); H::obs("v", v); return; }
  if (op == "powspec") { trv::PowspecMeasurements m; m.dim = n; m.kbin = reals("b", n); m.keff = reals("e", n); m.nmodes = ints(1, n); m.pk_raw = cplxs("p", n); m.pk_shot = cplxs("s", n); std::string L = std::to_string(p.ELL); Strs o = {"k_cen", "k_eff", "nmodes", "Re{pk" + L + "_raw}", "Im{pk" + L + "_raw}", "Re{pk" + L + "_shot}", "Im{pk" + L + "_shot}"};
    table(grab([&](std::FILE* f) { trv::io::print_measurement_datatab_to_file(f, p, m); }), {{o[0], m.kbin}, {o[1], m.keff}, {o[2], rv(m.nmodes)}, {o[3], part(m.pk_raw, 0)}, {o[4], part(m.pk_raw, 1)}, {o[5], part(m.pk_shot, 0)}, {o[6], part(m.pk_shot, 1)}}, n, o); }
  else if (op == "2pcf") { trv::TwoPCFMeasurements m; two(m, p, n); } else if (op == "2pcf-win") { trv::TwoPCFWindowMeasurements m; two(m, p, n); }
  else if (op == "3pcf") { trv::ThreePCFMeasurements m; three(m, p, n); } else if (op == "3pcf-win") { trv::ThreePCFWindowMeasurements m; three(m, p, n); }
  else { trv::BispecMeasurements m; m.dim = n; m.k1_bin = reals("b", n); m.k1_eff = reals("e", n); m.nmodes_1 = ints(3, n); m.k2_bin = reals("c", n); m.k2_eff = reals("f", n); m.nmodes_2 = ints(5, n); m.bk_raw = cplxs("x", n); m.bk_shot = cplxs("s", n); std::string L = std::to_string(p.ell1) + std::to_string(p.ell2) + std::to_string(p.ELL);
    Strs o = {"k1_cen", "k1_eff", "nmodes_1", "k2_cen", "k2_eff", "nmodes_2", "Re{bk" + L + "_raw}", "Im{bk" + L + "_raw}", "Re{bk" + L + "_shot}", "Im{bk" + L + "_shot}"}; table(grab([&](std::FILE* f) { trv::io::print_measurement_datatab_to_file(f, p, m); }), {{o[0], m.k1_bin}, {o[1], m.k1_eff}, {o[2], rv(m.nmodes_1)}, {o[3], m.k2_bin}, {o[4], m.k2_eff}, {o[5], rv(m.nmodes_2)}, {o[6], part(m.bk_raw, 0)}, {o[7], part(m.bk_raw, 1)}, {o[8], part(m.bk_shot, 0)}, {o[9], part(m.bk_shot, 1)}}, n, o); }
}
