// C07: binned-vector records.
#include "harness.hpp"
#include "field.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
static std::vector<real> edges() { std::vector<real> e; int i = 0; for (auto& t : split(H::cfg("edges", "0,1"), ',')) { auto q = split(t, ':'); if (q.size() == 1) e.push_back(H::rl(t.c_str())); else e.push_back(H::var("e" + std::to_string(i), q[0].c_str(), q[1].c_str())); if (e.size() > 1) H::assume(e[i - 1] < e[i]); i++; } return e; }
void harness() {
  trv::ParameterSet p = hu::params(); int* n = p.ngrid; bool four = H::cfg("space", "fourier") == "fourier"; p.space = four ? "fourier" : "config"; real d[3];
  for (int c = 0; c < 3; c++) d[c] = four ? real(2) * H::pi() / p.boxsize[c] : p.boxsize[c] / real(n[c]);
  std::vector<real> E = edges(); int nb = E.size() - 1; trv::Binning bin(four ? "fourier" : "config", "lin");
  if (H::cfg("bins", "custom") == "custom") bin.set_bins(E);
  else { p.cutoff_nyq = 0; p.bin_min = E[0]; p.bin_max = E[1]; p.num_bins = H::cfgi("nb", 3); p.binning = H::cfg("bins"); nb = p.num_bins; trv::Binning b2(p); bin = b2; bin.set_bins(); E.clear(); for (int t = 0; t <= nb; t++) E.push_back(bin.bin_edges[t]); }
  trv::FieldStats st(p, false); std::string file = H::cfgi("save", 0) ? "bv_out.txt" : "";
  trv::BinnedVectors v; for (int it = 0; it <= H::cfgi("twice", 0); it++) v = st.record_binned_vectors(bin, file);
  int c = v.count; H::truth("lengths", c == (int)v.indices.size() && c == (int)v.lower_edges.size() && c == (int)v.upper_edges.size() && c == (int)v.vecx.size() && c == (int)v.vecy.size() && c == (int)v.vecz.size()); H::truth("bin-number", v.num_bins == nb);
  bool ord = true; for (int i = 0; i < c; i++) { if (i && v.indices[i] < v.indices[i - 1]) ord = false; if (v.indices[i] < 0 || v.indices[i] >= nb) { H::truth("bin-index-range", false); return; } } H::truth("ordered-by-bin", ord);
  // multiplicity: match each recorded vector to one expected mesh vector
  std::map<std::array<int,3>, int> seen; bool match = true;
  std::vector<std::array<int,4>> key(c); std::vector<int> perm(c);   // order within a bin is free
  for (int i = 0; i < c; i++) { perm[i] = i; key[i][0] = v.indices[i]; real g[3] = {v.vecx[i] / d[0], v.vecy[i] / d[1], v.vecz[i] / d[2]}; for (int a = 0; a < 3; a++) key[i][a + 1] = (int)std::lround(H::num(g[a])); }
  std::sort(perm.begin(), perm.end(), [&](int a, int b) { return key[a] < key[b]; });
  for (int t = 0; t < c; t++) { int i = perm[t]; std::array<int,3> q = {key[i][1], key[i][2], key[i][3]};
    H::eq(H::ix("vx", t), v.vecx[i], real(q[0]) * d[0]); H::eq(H::ix("vy", t), v.vecy[i], real(q[1]) * d[1]); H::eq(H::ix("vz", t), v.vecz[i], real(q[2]) * d[2]);
    if (seen.count(q)) match = false; seen[q] = v.indices[i];
    H::eq(H::ix("lower-edge", t), v.lower_edges[i], E[v.indices[i]]); H::eq(H::ix("upper-edge", t), v.upper_edges[i], E[v.indices[i] + 1]); }
  H::truth("each-once", match); int expected = 0; bool all = true;
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { std::array<int,3> q = {orc::sidx(i, n[0]), orc::sidx(j, n[1]), orc::sidx(k, n[2])};
    real m2 = real(q[0] * q[0]) * d[0] * d[0] + real(q[1] * q[1]) * d[1] * d[1] + real(q[2] * q[2]) * d[2] * d[2], m = std::sqrt(m2); int b = -1; for (int t = 0; t < nb; t++) if (E[t] <= m && m < E[t + 1]) b = t;
    auto it = seen.find(q); if (b < 0) { if (it != seen.end()) all = false; } else { expected++; if (it == seen.end() || it->second != b) all = false; } }
  H::truth("complete", all); H::truth("count", c == expected);
  if (file != "") { std::ifstream f(file); std::string l; std::vector<std::vector<std::string>> rows; std::string head; while (std::getline(f, l)) { if (l.size() && l[0] == '#') { head += l + "\n"; continue; } std::vector<std::string> w; std::stringstream ss(l); std::string t; while (ss >> t) w.push_back(t); if (w.size()) rows.push_back(w); }
    H::truth("file-rows", (int)rows.size() == c); H::truth("file-count-header", head.find("Vector count: " + std::to_string(c)) != std::string::npos && head.find("Bin number: " + std::to_string(nb)) != std::string::npos);
    const char* cols[6] = {"[0] bin_index", "[1] bin_lower", "[2] bin_upper", "[3] vec_x", "[4] vec_y", "[5] vec_z"}; for (auto s : cols) H::truth("file-columns", head.find(s) != std::string::npos);
    for (int t = 0; t < (int)rows.size() && t < c; t++) { int i = perm[t]; if (rows[i].size() != 6) { H::truth("file-row-width", false); continue; } H::truth("file-bin-index", rows[i][0] == std::to_string(v.indices[i])); real w[5] = {v.lower_edges[i], v.upper_edges[i], v.vecx[i], v.vecy[i], v.vecz[i]}; for (int a = 0; a < 5; a++) H::eq(H::ix("file-value", t, a), H::parse(rows[i][a + 1]), w[a]); } } }
