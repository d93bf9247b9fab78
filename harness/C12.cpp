// C12: the binning accumulators keep every sample: bins are exact averages of consecutive samples.
#include <triqs/stat/accumulator.hpp>
#include "sym.h"
#ifdef THOROUGH
static const int NMAX = 18, CMAX = 4, MMAX = 7, LMAX = 5;
#else
static const int NMAX = 11, CMAX = 3, MMAX = 5, LMAX = 4;
#endif
using triqs::stat::accumulator; using C = std::complex<double>;
template <typename T> T sample() { if constexpr (std::is_same_v<T, double>) return s_real("x", -100, 100); else if constexpr (std::is_same_v<T, C>) return C(s_real("re", -100, 100), s_real("im", -100, 100)); else { T a(2); a(0) = s_real("x0", -100, 100); a(1) = s_real("x1", -100, 100); return a; } }
template <typename T> T zero() { if constexpr (requires { T(2).shape(); }) { T a(2); a = 0; return a; } else return T(0); }
static void close(double a, double b, const char *id) { CLOSE(a, b, id); } static void close(C a, C b, const char *id) { CLOSEC(a, b, id); }
template <typename A> requires(nda::ArrayC<A>) void close(A const &a, A const &b, const char *id) { CHECK(a.size() == 2 && b.size() == 2, "shapes are kept"); CLOSE(a(0), b(0), id); CLOSE(a(1), b(1), id); }
template <typename T> T avg(std::vector<T> const &x, long a, long b) { T s = zero<T>(); for (long i = a; i < b; ++i) s += x[i]; s /= double(b - a); return s; }
// bins[i] averages the samples [i cap, (i+1) cap)
template <typename T> void lin_ok(accumulator<T> const &a, std::vector<T> const &x, int maxb, long cap) {
  long n = x.size(); auto const &B = a.linear_bins(); CHECK(a.data_input_count() == n, "the number of recorded data is conserved"); CHECK(a.n_lin_bins() == (long)B.size(), "n_lin_bins is the number of bins"); CHECK(a.n_lin_bins_max() == maxb, "the maximum number of bins is kept");
  if (maxb == 0) { CHECK(B.empty(), "linear binning is off"); return; }
  CHECK(a.lin_bin_capacity() == cap, "the capacity changes only by compression");
  if (maxb > 0) CHECK((long)B.size() <= maxb, "never more bins than allowed");
  if (maxb == 1) { CHECK(B.size() == 1, "a single bin takes all data"); if (n) close(B[0], avg(x, 0, n), "completed bins hold the average of consecutive samples"); return; }
  long nb = n ? (n + cap - 1) / cap : 1; CHECK((long)B.size() == nb, "all data are in bins of the given capacity"); if ((long)B.size() != nb || !n) return;
  for (long i = 0; i < nb; ++i) close(B[i], avg(x, i * cap, std::min(n, (i + 1) * cap)), "completed bins hold the average of consecutive samples");
}
template <typename T> void lin(int nmax, bool compress) {
  int maxb = s_pick("maxb", -1, MMAX); long cap = s_pick("cap", 1, CMAX); int n = s_pick("n", 0, nmax); int at = compress ? s_pick("at", 0, n) : -1, f = compress ? s_pick("factor", 0, 4) : 0, pre = 0;
  accumulator<T> a(zero<T>(), 0, maxb, cap); std::vector<T> x;
  for (int k = 0; k <= n; ++k) {
    if (k == at) { a.compress_linear_bins(f); if (maxb != 0 && f >= 2) cap *= f; lin_ok(a, x, maxb, cap); }
    if (k == n) break;
    x.push_back(sample<T>()); if (maxb > 1 && k == maxb * cap) cap *= 2; a << x.back();
    if (compress || k >= n - 2) lin_ok(a, x, maxb, cap);
  }
  CHECK(a.n_log_bins() == 0, "logarithmic binning is off");
  // the weighted mean of the bins is the mean of the data
  if (maxb != 0 && n > 0) { auto const &B = a.linear_bins(); T s = zero<T>(); long left = n; for (size_t i = 0; i < B.size(); ++i) { long w = (maxb == 1) ? n : std::min(left, cap); T t = B[i]; t *= double(w); s += t; left -= w; } s /= double(n); close(s, avg(x, 0, n), "the weighted mean is conserved"); }
}
ENTRY(h_lin) { lin<double>(NMAX, false); }
ENTRY(h_lin_compress) { lin<double>(7, true); }
ENTRY(h_lin_complex) { lin<C>(5, true); }
ENTRY(h_lin_array) { lin<nda::array<double, 1>>(5, true); }
static double re(C z) { return z.real(); } static double re(double z) { return z; }
static double ab2(C z) { return z.real() * z.real() + z.imag() * z.imag(); } static double ab2(double z) { return z * z; }
// level m holds mean and sum of squared deviations of the averages of complete bins of 2^m samples
template <typename T> void log_ok(accumulator<T> const &a, std::vector<T> const &x, int maxb) {
  long n = x.size(); int lev = 1; while ((1l << lev) <= n) ++lev; if (maxb >= 0 && lev > maxb) lev = maxb; if (maxb == 0) lev = 0;
  CHECK(a.n_log_bins() == lev, "a new level appears when its first bin is complete"); CHECK(a.n_log_bins_max() == maxb, "the maximum number of bins is kept"); CHECK(a.data_input_count() == n, "the number of recorded data is conserved");
  auto [err, cnt] = a.log_bin_errors(); CHECK((int)err.size() == lev && (int)cnt.size() == lev, "one error per level"); if ((int)err.size() != lev || (int)cnt.size() != lev) return;
  for (int m = 0; m < lev; ++m) {
    long k = n >> m; CHECK(cnt[m] == k, "the number of completed bins of each level"); if (k <= 1) { CHECK(err[m] == 0, "no error from a single bin"); continue; }
    T mean = avg(x, 0, k << m); double q = 0; for (long i = 0; i < k; ++i) q += ab2(avg(x, i << m, (i + 1) << m) - mean); CHECK(err[m] >= 0, "errors are non-negative"); CLOSE(err[m] * err[m] * (k * (k - 1)), q, "sum of squared deviations of the bin averages of each level");
  }
}
template <typename T> void logb(int nmax, int nmin) { int maxb = s_pick("maxb", -1, LMAX), n = s_pick("n", nmin, nmax); accumulator<T> a(T(0), maxb, 0, 1); std::vector<T> x; for (int k = 0; k < n; ++k) { x.push_back(sample<T>()); a << x.back(); } log_ok(a, x, maxb); CHECK(a.n_lin_bins() == 0, "linear binning is off"); }
ENTRY(h_log) { logb<double>(9, 0); }
ENTRY(h_log_complex) { logb<C>(5, 0); }
ENTRY(h_log_array) {
  using T = nda::array<double, 1>; int maxb = s_pick("maxb", -1, 3), n = s_pick("n", 0, 5); accumulator<T> a(zero<T>(), maxb, 0, 1); std::vector<T> x; for (int k = 0; k < n; ++k) { x.push_back(sample<T>()); a << x.back(); }
  int lev = 1; while ((1l << lev) <= n) ++lev; if (maxb >= 0 && lev > maxb) lev = maxb; CHECK(a.n_log_bins() == lev, "a new level appears when its first bin is complete"); CHECK(a.data_input_count() == n, "the number of recorded data is conserved");
  auto [err, cnt] = a.log_bin_errors(); CHECK((int)err.size() == lev && (int)cnt.size() == lev, "one error per level"); if ((int)err.size() != lev || (int)cnt.size() != lev) return;
  for (int m = 0; m < lev; ++m) for (int c = 0; c < 2; ++c) { long k = n >> m; CHECK(cnt[m] == k, "the number of completed bins of each level"); if (k <= 1) { CHECK(err[m](c) == 0, "no error from a single bin"); continue; }
    double mean = avg(x, 0, k << m)(c), q = 0; for (long i = 0; i < k; ++i) { double d = avg(x, i << m, (i + 1) << m)(c) - mean; q += d * d; } CHECK(err[m](c) >= 0, "errors are non-negative"); CLOSE(err[m](c) * err[m](c) * (k * (k - 1)), q, "sum of squared deviations of the bin averages of each level"); }
}
ENTRY(h_log_long) { logb<double>(NMAX + 6, NMAX + 5); }
// saving at any moment and going on with the copy read back gives the same as going on with the original
ENTRY(h_h5) {
  int ml = s_pick("maxlog", -1, 3), maxb = s_pick("maxb", -1, 3); long cap = s_pick("cap", 1, 2); int n = s_pick("n", 0, 5), at = s_pick("at", 0, n); accumulator<double> a(0.0, ml, maxb, cap), b; std::vector<double> x;
  for (int k = 0; k < at; ++k) { x.push_back(sample<double>()); a << x.back(); }
  { h5::file f("t.h5", 'w'); h5::group g(f); h5_write(g, "acc", a); h5_read(g, "acc", b); }
  for (int k = at; k < n; ++k) { x.push_back(sample<double>()); a << x.back(); b << x.back(); }
  CHECK(b.data_input_count() == n && b.n_lin_bins() == a.n_lin_bins() && b.lin_bin_capacity() == a.lin_bin_capacity() && b.n_lin_bins_max() == maxb, "linear binning survives storage"); log_ok(b, x, ml);
  if (b.n_lin_bins() == a.n_lin_bins()) for (int i = 0; i < a.n_lin_bins(); ++i) CLOSE(a.linear_bins()[i], b.linear_bins()[i], "linear binning survives storage");
}
