// C02: mesh Fourier transforms, wavevector indexing, interlacing, compensation.
#include "harness.hpp"
#include "field.hpp"
#include "hutil.hpp"
#include "oracle.hpp"
static std::vector<cplx> get(fftw_complex* f, long n) { std::vector<cplx> v(n); for (long i = 0; i < n; i++) v[i] = cplx(f[i][0], f[i][1]); return v; }
void harness() {
  trv::ParameterSet p = hu::params(); int n[3] = {p.ngrid[0], p.ngrid[1], p.ngrid[2]}; long N = p.nmesh; bool il = p.interlace == "true";
  bool symbox = H::cfgi("symbox", 0);
  if (symbox) { p.volume = real(1); for (int a = 0; a < 3; a++) { p.boxsize[a] = H::var("L" + std::to_string(a), "1", "8"); p.volume = p.volume * p.boxsize[a]; } }
  real V = p.boxsize[0] * p.boxsize[1] * p.boxsize[2], vc = V / real((int)N);
  int stride = H::cfgi("stride", 1);      // make every stride-th cell symbolic, the rest fixed
  auto fill = [&](trv::MeshField& f, const char* tag) { for (long q = 0; q < N; q++) for (int c = 0; c < 2; c++) {
      f.field[q][c] = q % stride == 0 ? H::var(std::string(tag) + (c ? "i" : "r") + std::to_string(q), "-4", "4") : orc::ratio((q * 7 + c * 3) % 11 - 5, 4);
      if (il) f.field_s[q][c] = q % stride == 1 % stride ? H::var(std::string(tag) + (c ? "si" : "sr") + std::to_string(q), "-4", "4") : orc::ratio((q * 5 + c) % 13 - 6, 4); } };
  auto check = [&](trv::MeshField& f, const std::string& tag) {
    fill(f, tag.c_str()); std::vector<cplx> a = get(f.field, N), as, A, As; if (il) as = get(f.field_s, N);
    f.fourier_transform();
    orc::dft(n, a, A, -1); if (il) orc::dft(n, as, As, -1);
    std::vector<cplx> E(N);
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { long q = ((long)i * n[1] + j) * n[2] + k;
      real er = A[q].real() * vc, ei = A[q].imag() * vc;
      if (il) { real th = H::pi() * (orc::ratio(orc::sidx(i, n[0]), n[0]) + orc::ratio(orc::sidx(j, n[1]), n[1]) + orc::ratio(orc::sidx(k, n[2]), n[2])); real c = std::cos(th), s = std::sin(th);
        real sr = As[q].real() * vc, si = As[q].imag() * vc; er = (er + c * sr - s * si) / real(2); ei = (ei + s * sr + c * si) / real(2); }
      E[q] = cplx(er, ei);
      H::eq(H::ix((tag + "forward.re").c_str(), i, j, k), f.field[q][0], er); H::eq(H::ix((tag + "forward.im").c_str(), i, j, k), f.field[q][1], ei); }
    std::vector<cplx> F = get(f.field, N), R;
    f.apply_assignment_compensation();
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { long q = ((long)i * n[1] + j) * n[2] + k; real w = orc::win3(n, i, j, k, p.assignment_order);
      H::eq(H::ix((tag + "compensated.re").c_str(), i, j, k), f.field[q][0] * w, F[q].real()); H::eq(H::ix((tag + "compensated.im").c_str(), i, j, k), f.field[q][1] * w, F[q].imag());
      H::eq(H::ix((tag + "window").c_str(), i, j, k), f.calc_assignment_window_in_fourier(i, j, k, p.assignment_order), w);
      int o2 = p.assignment_order % 4 + 1; H::eq(H::ix((tag + "window-other").c_str(), i, j, k), f.calc_assignment_window_in_fourier(i, j, k, o2), orc::win3(n, i, j, k, o2)); }
    for (long q = 0; q < N; q++) { f.field[q][0] = F[q].real(); f.field[q][1] = F[q].imag(); }
    f.inv_fourier_transform();
    if (!il) for (long q = 0; q < N; q++) { H::eq(H::ix((tag + "roundtrip.re").c_str(), q), f.field[q][0], a[q].real()); H::eq(H::ix((tag + "roundtrip.im").c_str(), q), f.field[q][1], a[q].imag()); }
    else { orc::dft(n, F, R, +1); for (long q = 0; q < N; q++) { H::eq(H::ix((tag + "inverse.re").c_str(), q), f.field[q][0], R[q].real() / V); H::eq(H::ix((tag + "inverse.im").c_str(), q), f.field[q][1], R[q].imag() / V); } }
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { real kv[3], rv[3]; int ii[3] = {i, j, k}; f.get_grid_wavevector(i, j, k, kv); f.get_grid_pos_vector(i, j, k, rv);
      int s[3] = {i, j, k}; f.shift_grid_indices_fourier(s[0], s[1], s[2]);
      for (int a = 0; a < 3; a++) { int e = orc::sidx(ii[a], n[a]); H::eq(H::ix((tag + "wavevector").c_str(), i, j, k), kv[a] * p.boxsize[a], real(2 * e) * H::pi()); H::eq(H::ix((tag + "separation").c_str(), i, j, k), rv[a] * real(n[a]), real(e) * p.boxsize[a]); H::truth(H::ix((tag + "index").c_str(), i, j, k), s[a] == e); } }
  };
  int plan = H::cfgi("plan", 0);
  if (plan == 0) { trv::MeshField f(p, true, "own"); check(f, ""); if (H::cfgi("twice", 0)) check(f, "again-"); }
  else { trv::MeshField g(p, true, "planner"); if (!il) { trv::MeshField f(p, g.transform, g.inv_transform, "ext"); check(f, ""); } else { trv::MeshField f(p, g.transform, g.inv_transform, "ext"); check(f, ""); } }
}
