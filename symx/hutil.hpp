#ifndef HUTIL_HPP
#define HUTIL_HPP
#include "harness.hpp"
#include "parameters.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"
namespace hu {
inline trv::ParameterSet params() {
  trv::sys::logger.reset_level(60);
  trv::ParameterSet p; p.catalogue_dir = ""; p.measurement_dir = ""; p.output_tag = "";
  const char* l[3] = {"lx", "ly", "lz"}; const char* n[3] = {"nx", "ny", "nz"}; p.volume = real(1); p.nmesh = 1;
  for (int a = 0; a < 3; a++) { p.boxsize[a] = H::rl(H::cfg(l[a], H::cfg("l", "4").c_str()).c_str()); p.ngrid[a] = H::cfgi(n[a], H::cfgi("n", 4)); p.volume = p.volume * p.boxsize[a]; p.nmesh *= p.ngrid[a]; }
  p.assignment = H::cfg("scheme", "ngp"); p.interlace = H::cfg("il", "0") == "1" ? "true" : "false";
  p.assignment_order = p.assignment == "ngp" ? 1 : p.assignment == "cic" ? 2 : p.assignment == "tsc" ? 3 : 4;
  p.fftw_scheme = "estimate"; p.fftw_planner_flag = FFTW_ESTIMATE; if (H::cfg("fftw", "") == "measure") { p.fftw_scheme = "measure"; p.fftw_planner_flag = FFTW_MEASURE; }
  p.verbose = 60; p.catalogue_type = "survey"; p.npoint = "2pt"; p.space = "fourier"; p.statistic_type = "powspec";
  return p; }
}
#endif
