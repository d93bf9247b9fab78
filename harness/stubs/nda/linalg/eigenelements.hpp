#pragma once
// Eigensystem of a Hermitian matrix: eigenvalues in ascending order, h = U diag(E) U^dagger. Only the exact relation is
// modelled: candidate transformations (the identity, then eig_hints) are tried and kept when they diagonalise h, otherwise
// Jacobi rotations are used.
#include <nda/nda.hpp>
namespace nda::linalg {
  inline std::vector<nda::matrix<std::complex<double>>> eig_hints;
  namespace eig_detail {
    inline bool nil(double x) { return (x <= 1e-9) & (x >= -1e-9); }
    inline bool nil(std::complex<double> x) { return (x.real() <= 1e-9) & (x.real() >= -1e-9) & (x.imag() <= 1e-9) & (x.imag() >= -1e-9); }
    inline double re(double x) { return x; }
    inline double re(std::complex<double> x) { return x.real(); }
    inline double cj(double x) { return x; }
    inline std::complex<double> cj(std::complex<double> x) { return {x.real(), -x.imag()}; }
    template <typename T> bool transform(nda::matrix<T> const &h, nda::matrix<T> const &u, nda::matrix<T> &d) {
      long n = h.shape()[0];
      for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { T s = 0; for (long k = 0; k < n; k++) for (long l = 0; l < n; l++) s += cj(u(k, i)) * h(k, l) * u(l, j); d(i, j) = s; }
      bool ok = true;
      for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) ok &= nil(d(i, j));
      return ok;
    }
    template <typename T> void jacobi(nda::matrix<T> &d, nda::matrix<T> &u) {
      long n = d.shape()[0];
      for (int sweep = 0; sweep < 40; sweep++) {
        bool done = true;
        for (long p = 0; p < n; p++) for (long q = p + 1; q < n; q++) {
          if (nil(d(p, q))) continue;
          if (!(std::abs(re(d(p, q) * cj(d(p, q)))) > 1e-30)) continue;
          done = false;
          double m = std::sqrt(re(d(p, q) * cj(d(p, q)))), x = (re(d(q, q)) - re(d(p, p))) / (2 * m), t = (x >= 0 ? 1. : -1.) / ((x >= 0 ? x : -x) + std::sqrt(x * x + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c; T e = d(p, q) / m;
          for (long k = 0; k < n; k++) { T a = d(k, p), b = d(k, q); d(k, p) = c * a - s * cj(e) * b; d(k, q) = s * e * a + c * b; a = u(k, p), b = u(k, q); u(k, p) = c * a - s * cj(e) * b; u(k, q) = s * e * a + c * b; }
          for (long k = 0; k < n; k++) { T a = d(p, k), b = d(q, k); d(p, k) = c * a - s * e * b; d(q, k) = s * cj(e) * a + c * b; }
        }
        if (done) break;
      }
    }
  } // namespace eig_detail
  template <typename M> auto eigenelements(M const &m) {
    using T = nda::get_value_t<M>; using namespace eig_detail;
    long n = m.shape()[0]; nda::matrix<T> h(m), u(n, n), d(n, n); bool ok = false;
    u = T(0); for (long i = 0; i < n; i++) u(i, i) = T(1);
    ok = transform(h, u, d);
    for (auto const &c : eig_hints) {
      if (ok || c.shape()[0] != n) continue;
      if constexpr (std::is_same_v<T, double>) { bool real = true; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) real &= c(i, j).imag() == 0; if (!real) continue; }
      for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if constexpr (std::is_same_v<T, double>) u(i, j) = c(i, j).real(); else u(i, j) = c(i, j);
      ok = transform(h, u, d);
    }
    if (!ok) { u = T(0); for (long i = 0; i < n; i++) u(i, i) = T(1); d = h; jacobi(d, u); }
    nda::vector<double> e(n); nda::matrix<T> v(n, n); std::vector<long> p(n);
    for (long i = 0; i < n; i++) { long k = i; for (; k > 0 && re(d(i, i)) < re(d(p[k - 1], p[k - 1])); --k) p[k] = p[k - 1]; p[k] = i; }
    for (long i = 0; i < n; i++) { e(i) = re(d(p[i], p[i])); for (long k = 0; k < n; k++) v(k, i) = u(k, p[i]); }
    return std::make_pair(e, v);
  }
} // namespace nda::linalg
