// Interface between harnesses and the symbolic executor (irsym) / the native replayer (sym_native.cpp)
#pragma once
#include <cstdint>
#include <complex>
extern "C" {
uint64_t __sym_int(const char *name, unsigned bits);
bool __sym_bool(const char *name);
double __sym_real(const char *name);
void __sym_assume(bool c);
void __sym_assert(bool c, const char *id);
void __sym_assert_close(double a, double b, double tol, const char *id);
void __sym_reach(const char *id);
uint64_t __sym_conc(uint64_t v);
bool __sym_fork_bool(bool c);
void __sym_stop();
bool __sym_native();
void __sym_print(const char *n, double v);
}
#define ASSUME(c) __sym_assume(c)
#define CHECK(c, id) __sym_assert((c), id)
#define CLOSE(a, b, id) __sym_assert_close((a), (b), 1e-6, id)
#define CLOSETOL(a, b, t, id) __sym_assert_close((a), (b), t, id)
#define CLOSEC(a, b, id) do { std::complex<double> _a = (a), _b = (b); __sym_assert_close(_a.real(), _b.real(), 1e-6, id); __sym_assert_close(_a.imag(), _b.imag(), 1e-6, id); } while (0)
#define ENTRY(n) extern "C" void n()
// symbolic integer in [lo,hi]
inline long s_int(const char *n, long lo, long hi) { long v = (long)__sym_int(n, 64); __sym_assume((v >= lo) & (v <= hi)); return v; }
// symbolic integer in [lo,hi], one path per value
inline long s_pick(const char *n, long lo, long hi) { return (long)__sym_conc((uint64_t)s_int(n, lo, hi)); }
inline bool s_bool(const char *n) { return __sym_bool(n); }
inline bool s_flag(const char *n) { return __sym_fork_bool(__sym_bool(n)); }
inline double s_real(const char *n) { return __sym_real(n); }
inline double s_real(const char *n, double lo, double hi) { double v = __sym_real(n); __sym_assume(v >= lo); __sym_assume(v <= hi); return v; }
inline std::complex<double> s_cplx(const char *n) { double a = __sym_real(n), b = __sym_real(n); return {a, b}; }
// does f() throw?
template <class F> bool throws(F &&f) { try { f(); } catch (...) { return true; } return false; }
