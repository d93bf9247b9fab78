// C13: mean, standard error, jackknife and their distributed versions equal their definitions.
#include <triqs/utility/view_tools.hpp>
#include <triqs/stat/accumulator.hpp>
#include <triqs/stat/jackknife.hpp>
#include "sym.h"
#ifdef THOROUGH
static const int NMAX = 6, JMAX = 4, RMAX = 3, PMAX = 3;
#else
static const int NMAX = 4, JMAX = 3, RMAX = 2, PMAX = 2;
#endif
using namespace triqs::stat; using C = std::complex<double>; template <typename T> using vec = std::vector<T>;
template <typename T> T sample() { if constexpr (std::is_same_v<T, double>) return s_real("x", -100, 100); else return C(s_real("re", -100, 100), s_real("im", -100, 100)); }
template <typename T> vec<T> series(int n) { vec<T> v; for (int i = 0; i < n; ++i) v.push_back(sample<T>()); return v; }
// the first k values symbolic, the others fixed
static vec<double> some(int n, int k) { vec<double> v; for (int i = 0; i < n; ++i) v.push_back(i < k ? s_real("x", -4, 4) : 0.5 * i * i - 1); return v; }
static void close(double a, double b, const char *id) { CLOSE(a, b, id); } static void close(C a, C b, const char *id) { CLOSEC(a, b, id); }
static double ab2(C z) { return z.real() * z.real() + z.imag() * z.imag(); } static double ab2(double z) { return z * z; }
template <typename T> T avg(vec<T> const &x) { T s = 0; for (auto &y : x) s += y; return s / double(x.size()); }
template <typename T> void err_ok(double e, vec<T> const &x) { T m = avg(x); double q = 0; for (auto &y : x) q += ab2(T(y - m)); CHECK(e >= 0, "standard errors are non-negative"); long n = x.size(); CLOSE(e * e * double(n * (n - 1)), q, "standard error of the mean"); }
template <typename T> void mean_case() { int n = s_pick("n", 1, NMAX); auto x = series<T>(n); close(mean(x), avg(x), "mean"); if (n > 1) { auto [m, e] = mean_and_err(x); close(m, avg(x), "mean"); err_ok(e, x); } }
ENTRY(h_mean) { mean_case<double>(); }
ENTRY(h_mean_complex) { mean_case<C>(); }
ENTRY(h_mean_array) { int n = s_pick("n", 2, 3); vec<nda::array<double, 1>> x; vec<double> u, v; for (int i = 0; i < n; ++i) { nda::array<double, 1> a(2); u.push_back(a(0) = sample<double>()); v.push_back(a(1) = sample<double>()); x.push_back(a); } auto m = mean(x); CLOSE(m(0), avg(u), "mean"); CLOSE(m(1), avg(v), "mean"); }
// reference jackknife; f takes the i-th leave-one-out averages
template <typename F, typename... S> void jack_ok(auto const &r, F f, S const &...s) {
  long n = std::get<0>(std::tie(s...)).size(); auto loo = [n](auto const &x, long i) { auto t = x[0]; t = 0; for (long k = 0; k < n; ++k) if (k != i) t += x[k]; return t / double(n - 1); };
  using T = decltype(f(loo(s, 0)...)); vec<T> v; for (long i = 0; i < n; ++i) v.push_back(f(loo(s, i)...)); T M = avg(v), d = f(avg(s)...); auto [a, e, m, dir] = r;
  close(T(dir), d, "function of the averages"); close(T(m), M, "jackknife average"); close(T(a), T(double(n) * d - double(n - 1) * M), "bias corrected average"); double q = 0; for (auto &y : v) q += ab2(T(y - M)); CHECK(e >= 0, "jackknife error is non-negative"); CLOSE(e * e, q * double(n - 1) / n, "jackknife error");
}
static auto id1 = [](auto const &x) { return x; }; static auto sq = [](auto const &x) { return x * x; }; static auto prod = [](auto const &x, auto const &y) { return x * y; }; static auto ratio = [](auto const &x, auto const &y) { return x / y; };
ENTRY(h_jack_id) { auto x = series<double>(s_pick("n", 2, NMAX)); auto r = jackknife(id1, x); jack_ok(r, id1, x); CLOSE(std::get<0>(r), avg(x), "the jackknife of the identity is the mean"); err_ok(std::get<1>(r), x); }
ENTRY(h_jack_id_complex) { auto x = series<C>(s_pick("n", 2, 3)); auto r = jackknife(id1, x); jack_ok(r, id1, x); }
ENTRY(h_jack_square) { auto x = some(s_pick("n", 2, JMAX), 3); jack_ok(jackknife(sq, x), sq, x); }
ENTRY(h_jack_product) { int n = s_pick("n", 2, JMAX); auto x = some(n, 2), y = some(n, 1); jack_ok(jackknife(prod, x, y), prod, x, y); }
ENTRY(h_jack_ratio) { int n = s_pick("n", 2, JMAX); auto x = series<double>(n); vec<double> y; for (int i = 0; i < n; ++i) y.push_back(1 + 0.25 * i * i); jack_ok(jackknife(ratio, x, y), ratio, x, y); }
ENTRY(h_jack_acc) { int n = s_pick("n", 2, 6), cap = s_pick("cap", 1, 2); accumulator<double> a(0.0, 0, -1, cap); for (int i = 0; i < n; ++i) a << sample<double>(); auto b = a.linear_bins(); if (b.size() < 2) __sym_stop(); jack_ok(jackknife(id1, a), id1, b); }
ENTRY(h_jack_reject) { int n = s_pick("n", 0, 2), m = s_pick("m", 0, 2); auto x = series<double>(n), y = series<double>(m); bool t = throws([&] { jackknife(prod, x, y); }); CHECK(t == (n != m || n == 0), "empty or mismatched series are rejected"); }
ENTRY(h_tau) { double e = s_real("e", 0, 100), e0 = s_real("e0", 0.5, 100); double t = tau_estimate_from_errors(e, e0); CLOSETOL((2 * t + 1) * e0 * e0, e * e, 1e-3, "autocorrelation time from errors"); }
// ---- distributed
template <typename T> struct split { vec<T> all; vec<vec<T>> part; };
template <typename T> split<T> distribute(int ranks, int nmin, int nmax, int k = 1000) { split<T> s; s.part.resize(ranks); for (auto &p : s.part) { if (k == 1000) p = series<T>(s_pick("n", nmin, nmax)); else if constexpr (std::is_same_v<T, double>) p = some(s_pick("n", nmin, nmax), k); for (auto &x : p) s.all.push_back(x); } return s; }
#define RUN(P, ...) CHECK(mpi::stub::run(P, __VA_ARGS__), "all ranks take part in the same collective operations")
template <typename T> void mean_mpi_case() { int P = s_pick("ranks", 1, RMAX); auto s = distribute<T>(P, 1, PMAX); vec<T> r(P), r2(P); vec<double> e(P); RUN(P, [&](int k) { r[k] = mean_mpi({}, s.part[k]); }); for (int k = 0; k < P; ++k) close(r[k], avg(s.all), "mean of the whole series on every rank");
  if (s.all.size() > 1) { RUN(P, [&](int k) { auto [m, x] = mean_and_err_mpi({}, s.part[k]); r2[k] = m; e[k] = x; }); for (int k = 0; k < P; ++k) { close(r2[k], avg(s.all), "mean of the whole series on every rank"); err_ok(e[k], s.all); } } }
ENTRY(h_mean_mpi) { mean_mpi_case<double>(); }
ENTRY(h_mean_mpi_complex) { mean_mpi_case<C>(); } // irsym: thorough-only
template <typename F> void jack_mpi(F f, int k = 1000, int R = RMAX) { int P = s_pick("ranks", 1, R); auto s = distribute<double>(P, 1, k == 1000 ? PMAX : 2, k); if (s.all.size() < 2) __sym_stop(); vec<std::tuple<double, double, double, double>> r(P); RUN(P, [&](int k) { r[k] = jackknife_mpi(mpi::communicator{}, f, s.part[k]); }); for (int k = 0; k < P; ++k) jack_ok(r[k], f, s.all); }
ENTRY(h_jack_mpi_id) { jack_mpi(id1); }
ENTRY(h_jack_mpi_square) { jack_mpi(sq, 1, 2); }
ENTRY(h_log_errors_mpi) {
  int P = s_pick("ranks", 2, RMAX + 1), ml = s_pick("maxlog", -1, 2); if (P == 3 && ml == 0) __sym_stop(); vec<vec<double>> part(P); vec<accumulator<double>> acc; int budget = 7; for (int k = 0; k < P; ++k) { int n = s_pick("n", 0, std::min(5, budget)); budget -= n; part[k] = series<double>(n); accumulator<double> a(0.0, ml, 0); for (double x : part[k]) a << x; acc.push_back(a); }
  vec<vec<double>> e(P); vec<vec<long>> c(P); RUN(P, [&](int k) { auto [ee, cc] = acc[k].log_bin_errors_all_reduce({}); e[k] = ee; c[k] = cc; });
  size_t lev = 0; for (auto &a : acc) lev = std::max<size_t>(lev, a.n_log_bins());
  for (int k = 0; k < P; ++k) { CHECK(e[k].size() == lev && c[k].size() == lev, "one error per level on every rank"); if (e[k].size() != lev || c[k].size() != lev) return; }
  for (size_t m = 0; m < lev; ++m) { vec<double> b; for (int k = 0; k < P; ++k) for (long i = 0; i < long(part[k].size() >> m); ++i) { vec<double> w(part[k].begin() + (i << m), part[k].begin() + ((i + 1) << m)); b.push_back(avg(w)); } for (int k = 0; k < P; ++k) { CHECK(c[k][m] == (long)b.size(), "number of bins of all ranks"); if (b.size() <= 1) CHECK(e[k][m] == 0, "no error from a single bin"); else if (k == 0) err_ok(e[k][m], b); else CLOSE(e[k][m], e[0][m], "every rank gets the same errors"); } }
}
