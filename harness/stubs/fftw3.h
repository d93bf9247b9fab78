// Model of the part of FFTW that TRIQS uses: the discrete Fourier transform by its definition.
#pragma once
#include <complex>
#include <vector>
#include <cmath>
typedef double fftw_complex[2];
#define FFTW_FORWARD (-1)
#define FFTW_BACKWARD (+1)
#define FFTW_ESTIMATE (1U << 6)
#define FFTW_MEASURE (0U)
struct fftw_plan_s { int rank, howmany, istride, idist, ostride, odist, sign; std::vector<int> n; std::complex<double> *in, *out; };
typedef fftw_plan_s *fftw_plan;
inline fftw_plan fftw_plan_many_dft(int rank, const int *n, int howmany, fftw_complex *in, const int *inembed, int istride, int idist, fftw_complex *out, const int *onembed, int ostride, int odist, int sign, unsigned) {
  if (inembed || onembed) __builtin_abort();
  return new fftw_plan_s{rank, howmany, istride, idist, ostride, odist, sign, std::vector<int>(n, n + rank), reinterpret_cast<std::complex<double> *>(in), reinterpret_cast<std::complex<double> *>(out)}; }
inline std::complex<double> fftw_root(long k, long n) { k = ((k % n) + n) % n; if (4 * k % n == 0) { long q = 4 * k / n; return {q == 0 ? 1. : q == 2 ? -1. : 0., q == 1 ? 1. : q == 3 ? -1. : 0.}; } return {std::cos(2 * M_PI * k / n), std::sin(2 * M_PI * k / n)}; }
inline void fftw_execute(const fftw_plan p) { long N = 1; for (int x : p->n) N *= x;
  for (int h = 0; h < p->howmany; h++) { std::vector<std::complex<double>> a(N); for (long i = 0; i < N; i++) a[i] = p->in[i * p->istride + h * p->idist];
    long st = N; for (int d = 0; d < p->rank; d++) { long n = p->n[d]; st /= n; std::vector<std::complex<double>> b(N); for (long i = 0; i < N; i++) { long k = i / st % n; std::complex<double> s = 0; for (long j = 0; j < n; j++) { auto w = fftw_root(p->sign * j * k, n); auto x = a[i + (j - k) * st]; s += std::complex<double>(w.real() * x.real() - w.imag() * x.imag(), w.real() * x.imag() + w.imag() * x.real()); } b[i] = s; } a = b; }
    for (long i = 0; i < N; i++) p->out[i * p->ostride + h * p->odist] = a[i]; } }
inline void fftw_destroy_plan(fftw_plan p) { delete p; }
