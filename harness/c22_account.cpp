// C22: the memory, mesh and transform-plan accounting over histories of
// construction, use, failure and destruction.
#include "harness.hpp"
#include "field.hpp"
#include "twopt.hpp"
#include "threept.hpp"
#include "hutil.hpp"
#include <memory>
#ifdef SYMX_FFTW3_H
static long held() { return symx::fftw_live; }
#else
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long held() { return (long)__sanitizer_get_current_allocated_bytes(); }
#endif
namespace ts = trv::sys;
typedef std::vector<real> V;
struct Base { real mem; int r, c; real g; long h; };
static real gb(long n, size_t s) { return real((double)((long)n * (long)s)) / real(1073741824.); }
static const size_t CX = sizeof(fftw_complex), RE = sizeof(real), PD = sizeof(trv::ParticleData);
static Base b0; static real peak, gpeak; static int rpeak, cpeak;
static Base mark() { Base b; b.mem = ts::gbytesMem; b.r = ts::count_rgrid; b.c = ts::count_cgrid; b.g = ts::count_grid; b.h = held(); return b; }
static void begin() { b0 = mark(); ts::gbytesMaxMem = ts::gbytesMem; ts::max_count_rgrid = b0.r; ts::max_count_cgrid = b0.c; ts::max_count_grid = b0.g; peak = b0.mem; gpeak = b0.g; rpeak = b0.r; cpeak = b0.c; }
static void hi(const real& bytes) { real m = b0.mem + bytes; if (peak < m) peak = m; }
// what must be reported when `c` complex meshes, `r` real meshes and `bytes` are held
static void expect(int c, int r, const real& bytes) {
  H::truth("complex-meshes", ts::count_cgrid - b0.c == c); H::truth("real-meshes", ts::count_rgrid - b0.r == r); H::truth("meshes", real(ts::count_grid) - b0.g == real(c) + real(r) / real(2)); H::truth("memory", ts::gbytesMem - b0.mem == bytes);
  hi(bytes); if (rpeak < b0.r + r) rpeak = b0.r + r; if (cpeak < b0.c + c) cpeak = b0.c + c; real g = b0.g + real(c) + real(r) / real(2); if (gpeak < g) gpeak = g;
  H::truth("peak-memory", ts::gbytesMaxMem == peak); H::truth("peak-meshes", ts::max_count_rgrid == rpeak && ts::max_count_cgrid == cpeak); H::truth("peak-mesh-count", real(ts::max_count_grid) == gpeak); }
static trv::ParameterSet pset(int k, bool il) { trv::ParameterSet p = hu::params(); int n[3][3] = {{2, 2, 2}, {3, 2, 2}, {2, 3, 3}}; p.volume = real(1); p.nmesh = 1; for (int a = 0; a < 3; a++) { p.ngrid[a] = n[k][a]; p.boxsize[a] = real(2 * n[k][a]); p.volume = p.volume * p.boxsize[a]; p.nmesh *= n[k][a]; } p.interlace = il ? "true" : "false"; return p; }
static void fill(trv::ParticleCatalogue& c, int n, const real& w, int bad = 0) { V x[3], o, ws; for (int i = 0; i < n; i++) { for (int a = 0; a < 3; a++) x[a].push_back(real(i + a + 1) / real(2)); o.push_back(real(1)); ws.push_back(i ? real(1) : w); } if (bad == 1) o.push_back(real(1)); if (bad == 2) x[1].pop_back(); c.load_particle_data(x[0], x[1], x[2], o, ws, ws); }
struct World {
  std::unique_ptr<trv::MeshField> F[3]; int fc[3] = {0, 0, 0}, fw[3] = {0, 0, 0}; int fm[3] = {0, 0, 0}; bool ext = false;
  std::unique_ptr<trv::FieldStats> S[2]; bool plan[2] = {false, false}, al[2] = {false, false}; int sm[2] = {0, 0};
  std::unique_ptr<trv::ParticleCatalogue> C[2]; int np[2] = {0, 0}; std::unique_ptr<trv::BinnedVectors> B;
  fftw_plan pf = nullptr, pb = nullptr; fftw_complex* buf = nullptr;
  int c() { int t = 0; for (int i = 0; i < 3; i++) t += fc[i]; for (int i = 0; i < 2; i++) t += plan[i]; return t; }
  int r() { int t = 0; for (int i = 0; i < 3; i++) t += fw[i]; for (int i = 0; i < 2; i++) t += al[i]; return t; }
  real bytes() { real t(0); for (int i = 0; i < 3; i++) t = t + gb(fc[i] * fm[i], CX) + gb(fw[i] * fm[i], RE); for (int i = 0; i < 2; i++) t = t + gb(plan[i] * sm[i], CX) + gb(al[i] * sm[i], RE) + gb(np[i], PD); return t; }
  void drop() { for (auto& f : F) f.reset(); for (auto& s : S) s.reset(); for (auto& k : C) k.reset(); B.reset(); if (buf) { fftw_destroy_plan(pf); fftw_destroy_plan(pb); fftw_free(buf); buf = nullptr; } }
  void field(int i, bool il) { if (F[i]) { F[i].reset(); fc[i] = fw[i] = 0; return; } trv::ParameterSet p = pset(i, il); if (i == 2) { if (!buf) { buf = fftw_alloc_complex(p.nmesh); pf = fftw_plan_dft_3d(2, 3, 3, buf, buf, FFTW_FORWARD, FFTW_ESTIMATE); pb = fftw_plan_dft_3d(2, 3, 3, buf, buf, FFTW_BACKWARD, FFTW_ESTIMATE); } F[i].reset(new trv::MeshField(p, pf, pb, "x")); } else F[i].reset(new trv::MeshField(p, i == 1, "f")); fm[i] = p.nmesh; fc[i] = il ? 2 : 1; }
  void step(char o, int k, const real& w) {
    bool il = H::cfgi("il", 1);
    switch (o) {
    case 'a': field(0, il && k > 0); break; case 'b': field(1, il && k < 2); break; case 'x': field(2, il && k > 0); break;
    case 's': case 't': { int i = o == 't'; if (S[i]) { S[i].reset(); plan[i] = al[i] = false; } else { trv::ParameterSet p = pset(i, false); S[i].reset(new trv::FieldStats(p, plan[i] = (i == 0 || k > 0))); sm[i] = p.nmesh; } } break;
    case 'w': for (int i = 0; i < 3; i++) if (F[i]) { F[i]->compute_assignment_window_in_fourier(k + 1); fw[i] = 1; } break;
    case 'W': for (int i = 0; i < 3; i++) if (F[i]) { bool bad = false; try { F[i]->compute_assignment_window_in_fourier(-1 - k); } catch (ts::InvalidParameterError&) { bad = true; } H::truth("rejected", bad); } break;
    case 'l': for (int i = 0; i < 2; i++) if (S[i]) { S[i]->compute_shotnoise_aliasing(); al[i] = true; } break;
    case 'c': case 'd': { int i = o == 'd'; if (!C[i]) C[i].reset(new trv::ParticleCatalogue(60)); C[i]->source = ""; fill(*C[i], k + 1, w); np[i] = k + 1; } break;
    case 'e': for (int i = 0; i < 2; i++) if (C[i]) { C[i]->finalise_particles(); np[i] = 0; H::truth("released", C[i]->pdata == nullptr); } break;
    case 'f': { int i = k > 0; C[i].reset(); np[i] = 0; } break;
    case 'n': if (!C[0]) { C[0].reset(new trv::ParticleCatalogue(60)); } { bool bad = false; C[0]->source = ""; int was = np[0]; try { if (k == 0) C[0]->initialise_particles(0); else fill(*C[0], 2, w, k); } catch (std::exception&) { bad = true; } H::truth("rejected", bad); H::truth("kept-or-released", C[0]->pdata == nullptr ? np[0] == 0 : C[0]->ntotal == was); } break;
    case 'u': if (F[0] && C[0] && np[0]) { hi(bytes() + gb(np[0], CX)); if (k == 0) F[0]->compute_unweighted_field(*C[0]); else if (k == 1) F[0]->compute_unweighted_field_fluctuations_insitu(*C[0]); else { trv::LineOfSight z[4] = {}; for (auto& q : z) q.pos[2] = real(1); F[0]->compute_ylm_wgtd_field(*C[0], z, real(1), 0, 0); } } break;
    case 'g': if (F[1]) { F[1]->fourier_transform(); if (k == 0) F[1]->inv_fourier_transform(); if (k == 1) { F[1]->apply_assignment_compensation(); fw[1] = F[1]->window_assign_order != -1; } } break;
    case 'v': if (S[0]) { trv::Binning bin("fourier", k == 2 ? "log" : "lin"); V e = {real(1) / real(4), real(1), real(2)}; bin.set_bins(e); std::unique_ptr<trv::BinnedVectors> q(new trv::BinnedVectors(S[0]->record_binned_vectors(bin, k == 1 ? "v.txt" : ""))); hi(bytes() + gb((long)q->count * 12, RE) + gb(q->count, sizeof(int))); std::remove("v.txt"); } break;
    case 'V': if (S[0]) { trv::Binning bin("fourier", "lin"); V e = {real(1) / real(4), real(1)}; bin.set_bins(e); bin.space = "mixed"; bool bad = false; try { S[0]->record_binned_vectors(bin, ""); } catch (ts::InvalidDataError&) { bad = true; } H::truth("rejected", bad); } break; } }
};
static void histories() {
  std::string ops = H::cfg("ops", "abw"); int K = H::cfgi("steps", 3); std::string h; std::vector<int> ks; real w = H::var("w", "1/4", "4"); H::obs("w", w);
  for (int i = 0; i < K; i++) { h += ops[H::ivar("op" + std::to_string(i), 0, ops.size() - 1)]; ks.push_back(H::ivar("k" + std::to_string(i), 0, H::cfgi("kmax", 2))); }
  // natively the second pass must not grow the heap: static caches are warm by then
  long mid = 0; for (int pass = 0; pass < (H::native() ? 3 : 1); pass++) { begin(); { World W; for (int i = 0; i < K; i++) { W.step(h[i], ks[i], w); expect(W.c(), W.r(), W.bytes()); }
      W.drop(); } expect(0, 0, real(0)); if (H::native()) { if (pass == 2) H::truth("all-released", held() == mid); mid = held(); } else H::truth("all-released", held() == b0.h); } }
static void measures() {
  std::string op = H::cfg("op", "pk"), form = H::cfg("form", "full"); bool three = op == "bk" || op == "zeta" || op == "bkbox" || op == "zetabox" || op == "win3", four = op.substr(0, 2) == "pk" || op.substr(0, 2) == "bk"; real w = H::var("w", "1/4", "4"); bool il = !three && H::ivar("il", 0, 1); int fail = H::cfgi("fail", 0) ? H::ivar("fail", 0, H::cfgi("fail", 0)) : 0;
  long mid = 0; for (int pass = 0; pass < (H::native() ? 3 : 1); pass++) { begin(); { trv::ParameterSet p = pset(H::cfgi("set", 0), il); p.npoint = three ? "3pt" : "2pt"; p.space = four ? "fourier" : "config"; p.ELL = p.ell1 = p.ell2 = 0; p.form = p.shape = form; if (form == "triu") p.form = "full"; p.num_bins = 1; p.idx_bin = 0; p.catalogue_type = "survey"; p.statistic_type = three ? (four ? "bispec" : "3pcf") : four ? "powspec" : "2pcf"; if (op == "win3") p.statistic_type = "3pcf-win"; if (op == "win2") p.statistic_type = "2pcf-win";
      trv::ParticleCatalogue d(60), r(60); fill(d, 1, w); fill(r, 2, w); trv::LineOfSight ld[3] = {}, lr[3] = {}; for (int i = 0; i < 3; i++) ld[i].pos[2] = lr[i].pos[2] = real(1);
      trv::Binning bin(four ? "fourier" : "config", "lin"); V e = four ? V{real(1) / real(4), real(2)} : V{real(1), real(3)}; bin.set_bins(e); if (fail == 1) { p.form = p.shape = "ring"; } if (fail == 2) p.ell1 = 1;
      real inside(0); int ms = ts::count_cgrid; Base in = mark(); bool bad = false; real al = real(1) / real(2), nf = real(1);
      for (int rep = 0; rep < H::cfgi("reps", 1); rep++) try {
        if (op == "pk") trv::compute_powspec(d, r, ld, lr, p, bin, nf); else if (op == "xi") trv::compute_corrfunc(d, r, ld, lr, p, bin, nf); else if (op == "pkbox") trv::compute_powspec_in_gpp_box(d, p, bin, nf); else if (op == "xibox") trv::compute_corrfunc_in_gpp_box(d, p, bin, nf); else if (op == "win2") trv::compute_corrfunc_window(r, lr, p, bin, al, nf);
        else if (op == "bk") trv::compute_bispec(d, r, ld, lr, p, bin, nf); else if (op == "zeta") trv::compute_3pcf(d, r, ld, lr, p, bin, nf); else if (op == "bkbox") trv::compute_bispec_in_gpp_box(d, p, bin, nf); else if (op == "zetabox") trv::compute_3pcf_in_gpp_box(d, p, bin, nf); else if (op == "win3") trv::compute_3pcf_window(r, lr, p, bin, al, nf, H::cfgi("wa", 0));
        else if (op == "norm") { trv::calc_powspec_normalisation_from_mesh(d, p, al); trv::calc_bispec_normalisation_from_mesh(r, p, al); trv::calc_powspec_normalisation_from_particles(d, al); }
        else if (op == "mixed") trv::calc_powspec_normalisation_from_meshes(d, r, p, al);
        else if (op == "empty") { trv::ParticleCatalogue none(60); trv::calc_powspec_normalisation_from_particles(none, al); } } catch (std::exception&) { bad = true; }
      H::truth("outcome", bad == (fail > 0 || op == "empty")); Base out = mark(); H::truth("meshes-restored", out.c == in.c && out.r == in.r); H::truth("mesh-count-restored", out.g == in.g); H::truth("memory-restored", out.mem == in.mem); if (pass == 0) H::obs("w", w); if (!H::native()) H::truth("arrays-and-plans-restored", out.h == in.h);
      H::truth("peak-covers", in.mem + (bad ? real(0) : gb(H::cfgi("cells", 1) * p.nmesh, CX)) <= ts::gbytesMaxMem); H::truth("peak-meshes-cover", ts::max_count_cgrid >= in.c + (bad ? 0 : H::cfgi("cells", 1))); }
    Base out = mark(); H::truth("memory-balance", out.mem == b0.mem); if (H::native()) { if (pass == 2) H::truth("all-released", held() == mid); mid = held(); } else H::truth("all-released", out.h == b0.h); } }
void harness() { trv::sys::logger.reset_level(60); if (H::cfg("op", "") == "") histories(); else measures(); }
