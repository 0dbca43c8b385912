// Environment model of FFTW3 for symbolic execution: exact DFT on symbolic data.
// Contract modelled: planning with MEASURE/PATIENT destroys both arrays;
// unnormalised forward (-1) / backward (+1) transforms; execute_dft needs the
// same in-place-ness as the plan.
#ifndef SYMX_FFTW3_H
#define SYMX_FFTW3_H
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include "../symreal.hpp"
typedef SymReal fftw_complex[2];
struct symx_fftw_plan { int rank; int n[3]; fftw_complex* in; fftw_complex* out; int sign; unsigned flags; bool alive; };
typedef symx_fftw_plan* fftw_plan;
#define FFTW_FORWARD (-1)
#define FFTW_BACKWARD (+1)
#define FFTW_MEASURE (0U)
#define FFTW_DESTROY_INPUT (1U << 0)
#define FFTW_UNALIGNED (1U << 1)
#define FFTW_EXHAUSTIVE (1U << 3)
#define FFTW_PRESERVE_INPUT (1U << 4)
#define FFTW_PATIENT (1U << 5)
#define FFTW_ESTIMATE (1U << 6)
#define FFTW_WISDOM_ONLY (1U << 21)
namespace symx {
void fftw_run(const symx_fftw_plan* p, fftw_complex* in, fftw_complex* out);
fftw_plan fftw_mk(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags);
}
// live = FFTW arrays and plans currently held
namespace symx { inline long fftw_live = 0; }
inline void* fftw_malloc(size_t n) { symx::fftw_live++; return malloc(n); }
inline fftw_complex* fftw_alloc_complex(size_t n) { return (fftw_complex*)fftw_malloc(sizeof(fftw_complex) * n); }
inline SymReal* fftw_alloc_real(size_t n) { return (SymReal*)fftw_malloc(sizeof(SymReal) * n); }
inline void fftw_free(void* p) { if (p) symx::fftw_live--; free(p); }
inline fftw_plan fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { int nn[1] = {n}; return symx::fftw_mk(1, nn, in, out, sign, flags); }
inline fftw_plan fftw_plan_dft_2d(int a, int b, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { int nn[2] = {a, b}; return symx::fftw_mk(2, nn, in, out, sign, flags); }
inline fftw_plan fftw_plan_dft_3d(int a, int b, int c, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { int nn[3] = {a, b, c}; return symx::fftw_mk(3, nn, in, out, sign, flags); }
inline fftw_plan fftw_plan_dft(int r, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { return symx::fftw_mk(r, n, in, out, sign, flags); }
inline void fftw_execute(const fftw_plan p) { symx::fftw_run(p, p->in, p->out); }
inline void fftw_execute_dft(const fftw_plan p, fftw_complex* in, fftw_complex* out) { symx::fftw_run(p, in, out); }
inline void fftw_destroy_plan(fftw_plan p) { if (p && p->alive) { p->alive = false; symx::fftw_live--; } }
inline int fftw_init_threads() { return 1; }
inline void fftw_plan_with_nthreads(int) {}
inline void fftw_cleanup_threads() {}
inline void fftw_cleanup() {}
inline void fftw_forget_wisdom() {}
inline int fftw_import_wisdom_from_filename(const char*) { return 0; }
inline int fftw_export_wisdom_to_filename(const char*) { return 1; }
static const char fftw_version[] = "symx";
#endif
