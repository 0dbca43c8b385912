// C13: loading catalogue files and arrays.
#include "harness.hpp"
#include "particles.hpp"
#include "hutil.hpp"
typedef trv::ParticleCatalogue Cat;
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
template <class E> static bool rejected(std::function<void()> f) { try { f(); } catch (E&) { return true; } return false; }
static const char* NAMES[6] = {"x", "y", "z", "nz", "ws", "wc"};
static void check(Cat& c, const std::vector<std::map<std::string, real>>& rows, bool density_default, const real& dens) {
  int n = rows.size(); H::truth("particle-number", c.ntotal == n); if (c.ntotal != n) return; real wt(0), wst(0); bool first = true; real mn[3], mx[3];
  for (int i = 0; i < n; i++) { auto get = [&](const char* k, const real& d) { auto it = rows[i].find(k); return it == rows[i].end() ? d : it->second; };
    const char* ax[3] = {"x", "y", "z"}; for (int a = 0; a < 3; a++) { real v = get(ax[a], real(0)); H::eq(H::ix("position", i, a), c[i].pos[a], v); if (first) mn[a] = mx[a] = v; else { if (v < mn[a]) mn[a] = v; if (v > mx[a]) mx[a] = v; } } first = false;
    real ws = get("ws", real(1)), wc = get("wc", real(1)); H::eq(H::ix("nz", i), c[i].nz, get("nz", dens)); H::eq(H::ix("ws", i), c[i].ws, ws); H::eq(H::ix("wc", i), c[i].wc, wc); H::eq(H::ix("w", i), c[i].w, ws * wc); wt = wt + ws * wc; wst = wst + ws; }
  H::eq("total-weight", c.wtotal, wt); H::eq("total-sample-weight", c.wstotal, wst);
  for (int a = 0; a < 3; a++) { H::eq(H::ix("extent-min", a), c.pos_min[a], mn[a]); H::eq(H::ix("extent-max", a), c.pos_max[a], mx[a]); H::eq(H::ix("extent-span", a), c.pos_span[a], mx[a] - mn[a]); } }
void harness() {
  trv::sys::logger.reset_level(60); std::string op = H::cfg("op", "file"); int n = H::cfgi("n", 2);
  if (op == "array") { std::vector<real> v[6]; std::vector<std::map<std::string, real>> rows(n); for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) { real x = H::var(NAMES[k] + std::to_string(i), "-4", "4"); v[k].push_back(x); rows[i][NAMES[k]] = x; }
    Cat c(60); for (int it = 0; it <= H::cfgi("twice", 0); it++) c.load_particle_data(v[0], v[1], v[2], v[3], v[4], v[5]); check(c, rows, false, real(0));
    int bad = H::ivar("bad", 1, 5); v[bad].push_back(real(1)); Cat d(60); H::truth("inconsistent-lengths-rejected", rejected<trv::sys::InvalidDataError>([&] { d.load_particle_data(v[0], v[1], v[2], v[3], v[4], v[5]); })); return; }
  std::vector<std::string> cols = split(H::cfg("cols", "x:y:z:nz:ws:wc"), ':');
  if (H::cfgi("perm", 0)) { int k = cols.size(), f = 1; for (int i = 2; i <= k; i++) f *= i; int lo = H::cfgi("plo", 0), hi = std::min(H::cfgi("phi", f - 1), f - 1), pn = H::ivar("perm", lo, hi); std::vector<std::string> r; std::vector<std::string> src = cols; for (int i = k; i >= 1; i--) { f /= i; int q = pn / f; pn %= f; r.push_back(src[q]); src.erase(src.begin() + q); } cols = r; }
  std::string colstr; for (size_t i = 0; i < cols.size(); i++) colstr += (i ? "," : "") + cols[i];
  if (op == "missing") { int w = H::ivar("which", 0, 2); std::vector<std::string> c2; for (auto& s : cols) if (s != NAMES[w]) c2.push_back(s); colstr = ""; for (size_t i = 0; i < c2.size(); i++) colstr += (i ? "," : "") + c2[i]; { std::ofstream f("c.dat"); f << "1 2 3 4 5 6 7 8\n2 3 4 5 6 7 8 9\n"; }
    Cat c(60); H::truth("missing-position-rejected", rejected<trv::sys::InvalidDataError>([&] { c.load_catalogue_file("c.dat", colstr); })); Cat d(60); H::truth("missing-file-rejected", rejected<trv::sys::IOError>([&] { d.load_catalogue_file("no_such_file.dat", "x,y,z"); })); return; }
  int files = H::cfgi("files", 1); std::string path; std::vector<std::map<std::string, real>> rows; int com = H::cfgi("comments", 1);
  for (int f = 0; f < files; f++) { std::string fn = "cat" + std::to_string(f) + ".dat"; path += (f ? trv::sys::fn_delimiter : std::string()) + fn; std::ofstream o(fn); if (com) o << "# header x y z\n";
    for (int i = 0; i < n + f; i++) { std::map<std::string, real> r; if (com && i % 2 == 1) o << "\n#x 1 2 3\n\n"; std::string l;
      for (size_t k = 0; k < cols.size(); k++) { real v = (cols[k] == "x" || cols[k] == "y" || cols[k] == "z") && rows.size() >= 2 ? real((i * 7 + f * 3 + int(k) * 5) % 11 - 5) / real(2) + real((i + f + k) % 2 ? 8 : -8) : H::var(cols[k] + "_" + std::to_string(k) + "_" + std::to_string(f) + "_" + std::to_string(i), "-4", "4"); if (!r.count(cols[k])) r[cols[k]] = v; l += (k ? (i % 2 ? "\t" : "  ") : (i % 3 ? "  " : "")) + H::text(v); }
      if (H::cfgi("extra", 0)) l += " 7.5 8"; o << l; if (i + 1 < n + f || com) o << "\n"; rows.push_back(r); } }
  if (H::cfgi("trail", 0)) path += trv::sys::fn_delimiter;
  real vol = H::cfgi("volume", 1) ? H::var("vol", "1/2", "64") : real(0); Cat c(60); if (H::cfgi("volume", 1)) c.load_catalogue_file(path, colstr, "", vol); else c.load_catalogue_file(path, colstr);
  check(c, rows, true, H::cfgi("volume", 1) ? real((int)rows.size()) / vol : real(0));
  H::truth("second-load-rejected", rejected<trv::sys::InvalidDataError>([&] { c.load_catalogue_file(path, colstr); })); }
