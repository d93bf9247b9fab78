// C28: high-frequency tails and densities of C++ Green's functions.
#include <triqs/gfs.hpp>
#include <triqs/utility/legendre.hpp>
#include "sym.h"
using namespace triqs; using namespace triqs::gfs; using namespace triqs::mesh;
using std::vector; using std::string; using C = dcomplex;
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } } // not reached
static const C I(0, 1);
static C bounded(const char *n) { C z = s_cplx(n); ASSUME((z.real() <= 10) & (z.real() >= -10) & (z.imag() <= 10) & (z.imag() >= -10)); return z; }
template <typename A> void fill(A &&a, const char *n) { for (long i = 0; i < a.size(); i++) { if constexpr (nda::is_complex_v<std::decay_t<decltype(a.flat(0))>>) a.flat(i) = bounded(n); else a.flat(i) = bounded(n).real(); } }
template <typename G> G mk(typename G::mesh_t const &m, typename G::target_shape_t s, const char *n) { G g{m, s}; fill(g.data(), n); return g; }
template <typename A, typename B> void close(A const &a, B const &b, const char *id) { bool ok = a.shape() == b.shape(); CHECK(ok, id); if (!ok) __sym_stop(); for (long i = 0; i < a.size(); i++) CLOSEC(C(a.flat(i)), C(b.flat(i)), id); }
template <typename T> auto copy(T const &a) { return nda::make_regular(a); }
using GW = gf<imfreq, scalar_valued>; using GT = gf<imtime, scalar_valued>; using MW = gf<imfreq, matrix_valued>; using MT = gf<imtime, matrix_valued>;
static auto st() { return s_flag("fermion") ? Fermion : Boson; }
static double wn(long n, double beta, statistic_enum s) { return M_PI * (2 * n + (s == Fermion)) / beta; }

static C ipow(C z, long n) { C r = 1; for (; n > 0; n--) r *= z; return r; }
static C iw(double w) { return C(0, w); }
static C rpow(C z, long n) { return 1. / ipow(z, n); } // of a constant
// sets the points of g in the fit window to the tail km, all others to arbitrary values
template <typename M> static bool window(M const &m, long n, long pts) { return n < m.first_index() + pts || n >= m.last_index() - pts; }
static C zval(imfreq const &m, long n) { return iw(wn(n, m.beta(), m.statistic())); }
static C zval(refreq const &m, long n) { return m.w_min() + n * m.delta(); }
template <typename M> static void set_tail(M const &m, auto &&get, auto const &mom, long pts, const char *noise) { for (long n = m.first_index(); n <= m.last_index(); n++) { long k = n - m.first_index(); C v; if (window(m, n, pts)) { v = 0; for (long q = 0; q < mom.size(); q++) v += mom(q) * rpow(zval(m, n), q); } else v = bounded(noise); get(k) = v; } }
// ---------------------------------------------------------------- fits
ENTRY(h_fit) { auto s = st(); long order = s_pick("order", 1, 3), K = s_pick("known", 0, 3); long N = 8; imfreq m(4, s, N); m.set_tail_fit_parameters(0.5, 30, order); nda::lapack::gelss_error = s_real("error", 0, 1); if (K > order) __sym_stop(); nda::array<C, 1> a(order + 1); fill(a, "a"); GW g{m}; set_tail(m, [&](long k) -> C & { return g.data()(k); }, a, 4, "x"); auto g0 = copy(g.data()); nda::array<C, 1> km(a(range(K))); bool view = s_flag("view"); auto [t, err] = view ? fit_tail(g(), nda::array_const_view<C, 1>(km)) : K ? fit_tail(g, km) : fit_tail(g); CHECK(t.size() == order + 1, "the number of moments"); CHECK(err == nda::lapack::gelss_error, "the error of the fit"); close(t, a, "the moments of a tail are found whatever the function outside the window"); for (long i = 0; i < g0.size(); i++) CHECK(g.data()(i) == g0(i), "the function is not modified"); for (long q = 0; q < K; q++) CHECK(t(q) == km(q), "known moments are kept"); }
ENTRY(h_fit_subsampled) { auto s = st(); imfreq m(4, s, 9); long nt = s_pick("n_tail_max", 3, 4); m.set_tail_fit_parameters(0.7, nt, 2); nda::array<C, 1> a(3); fill(a, "a"); GW g{m}; set_tail(m, [&](long k) -> C & { return g.data()(k); }, a, 6, "x"); auto [t, err] = fit_tail(g); close(t, a, "the moments of a tail are found whatever the function outside the window"); auto idx = m.get_tail_fitter().get_tail_fit_indices(m); CHECK((long)idx.size() == 2 * nt, "the number of points of the fit"); for (long n : idx) CHECK(m.is_index_valid(n) && window(m, n, 6), "the points of the fit lie in the window"); for (size_t i = 0; i < idx.size(); i++) for (size_t j = 0; j < i; j++) CHECK(idx[i] != idx[j], "the points of the fit are distinct"); }
ENTRY(h_fit_real) { long n = 16; refreq m(-4, 3.5, n); long K = s_pick("known", 0, 2); m.set_tail_fit_parameters(0.5, 30, 2); nda::array<C, 1> a(3); fill(a, "a"); gf<refreq, scalar_valued> g{m}; set_tail(m, [&](long k) -> C & { return g.data()(k); }, a, 4, "x"); nda::array<C, 1> km(a(range(K))); auto [t, err] = fit_tail(g, km); close(t, a, "the moments of a tail are found whatever the function outside the window"); }
ENTRY(h_fit_matrix) { auto s = st(); imfreq m(4, s, 6); m.set_tail_fit_parameters(0.5, 30, 2); long K = s_pick("known", 0, 2); nda::array<C, 3> a(3, 2, 1 + s_pick("columns", 0, 1)); fill(a, "a"); long c = a.shape()[2]; MW g{m, {2, c}}; for (int i = 0; i < 2; i++) for (int j = 0; j < c; j++) { nda::array<C, 1> b(a(range::all, i, j)); set_tail(m, [&](long k) -> C & { return g.data()(k, i, j); }, b, 3, "x"); } nda::array<C, 3> km(a(range(K), range::all, range::all)); auto [t, err] = K ? fit_tail(g, km) : fit_tail(g); close(t, a, "every component is fitted by itself"); }
ENTRY(h_fit_product) { auto s = st(); imfreq m(4, s, 4); m.set_tail_fit_parameters(0.5, 30, 1); discrete d(2); bool first = s_flag("first"); long K = s_pick("known", 0, 1); nda::array<C, 4> a(2, 2, 1, 2); fill(a, "a"); auto each = [&](auto f) { for (long x = 0; x < 2; x++) for (long j = 0; j < 2; j++) { nda::array<C, 1> b(a(range::all, x, 0, j)); set_tail(m, [&](long k) -> C & { return f(k, x, j); }, b, 2, "x"); } }; nda::array<C, 4> km(a(range(K), nda::ellipsis{}));
  if (first) { gf<prod<imfreq, discrete>, matrix_valued> g{{m, d}, {1, 2}}; each([&](long k, long x, long j) -> C & { return g.data()(k, x, 0, j); }); auto [t, err] = K ? fit_tail<0>(g, km) : fit_tail<0>(g); close(t, a, "the tail in one variable for every value of the others"); auto z = make_zero_tail<0>(g, 3); CHECK(z.shape() == (std::array<long, 4>{3, 2, 1, 2}), "the shape of a tail"); } else { gf<prod<discrete, imfreq>, matrix_valued> g{{d, m}, {1, 2}}; each([&](long k, long x, long j) -> C & { return g.data()(x, k, 0, j); }); auto [t, err] = K ? fit_tail<1>(g, km) : fit_tail<1>(g); close(t, a, "the tail in one variable for every value of the others"); auto z = make_zero_tail<1>(g, 3); CHECK(z.shape() == (std::array<long, 4>{3, 2, 1, 2}), "the shape of a tail"); for (long i = 0; i < z.size(); i++) CHECK(z.flat(i) == C(0), "a zero tail"); } }
ENTRY(h_fit_hermitian) { auto s = st(); imfreq m(4, s, 6); m.set_tail_fit_parameters(0.5, 30, 2); long K = s_pick("known", 0, 1); bool mat = s_flag("matrix"); if (mat) { nda::array<C, 3> a(3, 2, 2); for (int q = 0; q < 3; q++) { for (int i = 0; i < 2; i++) a(q, i, i) = bounded("d").real(); a(q, 0, 1) = bounded("o"); a(q, 1, 0) = std::conj(a(q, 0, 1)); } MW g{m, {2, 2}}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { nda::array<C, 1> b(a(range::all, i, j)); set_tail(m, [&](long k) -> C & { return g.data()(k, i, j); }, b, 3, "x"); } nda::array<C, 3> km(a(range(K), range::all, range::all)); auto [t, err] = K ? fit_hermitian_tail(g, km) : fit_hermitian_tail(g); close(t, a, "Hermitian moments are found"); auto [t2, err2] = fit_hermitian_tail_on_window(g, 3, 6, km, 30, 2); close(t2, a, "Hermitian moments are found"); fill(g.data(), "y"); auto [u, e] = fit_hermitian_tail(g); for (int q = 0; q < 3; q++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) CLOSEC(u(q, i, j), std::conj(u(q, j, i)), "the moments of a Hermitian fit are Hermitian"); } else { nda::array<C, 1> a(3); for (int q = 0; q < 3; q++) a(q) = bounded("a").real(); GW g{m}; set_tail(m, [&](long k) -> C & { return g.data()(k); }, a, 3, "x"); nda::array<C, 1> km(a(range(K))); auto [t, err] = K ? fit_hermitian_tail(g, km) : fit_hermitian_tail(g); close(t, a, "Hermitian moments are found"); fill(g.data(), "y"); auto [u, e] = fit_hermitian_tail(g); for (int q = 0; q < 3; q++) CLOSE(u(q).imag(), 0., "the moments of a Hermitian fit are Hermitian"); } }
ENTRY(h_fit_blocks) { auto s = st(); imfreq m(4, s, 6); m.set_tail_fit_parameters(0.5, 30, 2); bool her = s_flag("hermitian"), known = s_flag("known"); vector<nda::array<C, 3>> a, km; vector<MW> v; for (int b = 0; b < 2; b++) { nda::array<C, 3> x(3, 1 + b, 1 + b); fill(x, "a"); if (her) for (int q = 0; q < 3; q++) for (int i = 0; i <= b; i++) { x(q, i, i) = x(q, i, i).real(); for (int j = 0; j < i; j++) x(q, i, j) = std::conj(x(q, j, i)); } MW g{m, {1 + b, 1 + b}}; for (int i = 0; i <= b; i++) for (int j = 0; j <= b; j++) { nda::array<C, 1> y(x(range::all, i, j)); set_tail(m, [&](long k) -> C & { return g.data()(k, i, j); }, y, 3, "x"); } a.push_back(x); km.push_back(nda::array<C, 3>(x(range(1), range::all, range::all))); v.push_back(g); } auto g = make_block_gf(v); nda::lapack::gelss_error = 0.25; auto [t, err] = her ? (known ? fit_hermitian_tail(g, km) : fit_hermitian_tail(g)) : known ? fit_tail(g, km) : fit_tail(g); CHECK(t.size() == 2 && err == 0.25, "every block is fitted"); for (int b = 0; b < 2; b++) close(t[b], a[b], "every block is fitted"); auto z = make_zero_tail(g, 4); CHECK(z.size() == 2 && z[1].shape() == (std::array<long, 3>{4, 2, 2}), "the shape of a tail"); }
ENTRY(h_fit_cached) { auto s = st(); imfreq m(4, s, 6); m.set_tail_fit_parameters(0.5, 30, 2); nda::array<C, 1> a(3); fill(a, "a"); GW g{m}; set_tail(m, [&](long k) -> C & { return g.data()(k); }, a, 3, "x"); GW h = g; for (int r = 0; r < 3; r++) { long K = s_pick("known", 0, 2); nda::array<C, 1> km(a(range(K))); auto [t, err] = fit_tail(r == 1 ? h : g, km); close(t, a, "a fit does not depend on the fits before"); } h = g; imfreq m2(4, s, 8); m2.set_tail_fit_parameters(0.5, 30, 1); nda::array<C, 1> b(2); fill(b, "b"); GW q{m2}; set_tail(m2, [&](long k) -> C & { return q.data()(k); }, b, 4, "x"); auto [t, err] = fit_tail(q); close(t, b, "a fit does not depend on the fits before"); q = g; auto [t2, err2] = fit_tail(q); close(t2, a, "a fit does not depend on the fits before"); }
ENTRY(h_fit_window) { auto s = st(); long N = s_pick("n", 8, 9); imfreq m(4, s, N); nda::array<C, 3> a(3, 1, 1); fill(a, "a"); long K = s_pick("known", 0, 2), nmax = 7, nmin = 3; bool all = s_flag("all"); MW g{m, {1, 1}}; nda::array<C, 1> b(a(range::all, 0, 0)); long hi = all ? m.last_index() : nmax; for (long n = m.first_index(); n <= m.last_index(); n++) { long p = n >= 0 ? n : (s == Fermion ? -n - 1 : -n); C v = 0; if (p >= nmin - 1 && p <= hi) for (int q = 0; q < 3; q++) v += b(q) * rpow(zval(m, n), q); else v = bounded("x"); g[n](0, 0) = v; } nda::array<C, 3> km(a(range(K), range::all, range::all)); auto [t, err] = fit_tail_on_window(g, nmin, all ? -1 : nmax, km, 30, 2); close(t, a, "the moments of a tail are found whatever the function outside the window"); }
ENTRY(h_order) { auto s = st(); static const long NN[] = {2, 3, 5, 10}, LL[] = {0, 2, 3, 10}; long N = NN[s_pick("n", 0, 3)]; double beta = s_flag("high") ? 0.5 : 40; imfreq m(beta, s, N); m.set_tail_fit_parameters(1.0); static long lim; lim = LL[s_pick("columns", 0, 3)]; nda::lapack::gelss_smin = [](long n) { return n <= lim ? 1e-7 : 1e-9; }; long K = s_pick("known", 0, 2); GW g{m}; g.data() = 0; long rows = 2 * std::lround(m.size() / 2.), top = std::min<long>({9, (long)(1 + 16 / std::log10(1 + wn(m.last_index(), beta, s))), rows / 2}); long best = std::min(top, lim + K - 1); bool few = K + 1 > rows / 2; nda::array<C, 1> km(K); km() = 1; long got = -1; bool t = throws([&] { auto [r, err] = fit_tail(g, km); got = r.size(); }); bool no = few || best < K; CHECK(t == no, "a fit with too few points or too badly conditioned is rejected"); if (!no && !t) CHECK(got == best + 1, "the order is the largest that is well conditioned"); }
ENTRY(h_fit_rejected) { auto s = st(); auto g = mk<GW>(imfreq(2, s, 4, imfreq::option::positive_frequencies_only), {}, "g"); CHECK(throws([&] { fit_tail(g); }), "positive frequencies only are rejected"); imfreq m(4, s, 6); m.set_tail_fit_parameters(0.5, 30, 2); auto h = mk<MW>(m, {1, 2}, "h"); nda::array<C, 3> km(1, 1, 1); km() = 0; CHECK(throws([&] { fit_tail(h, km); }), "moments of another shape are rejected"); CHECK(throws([&] { fit_hermitian_tail(h); }), "a Hermitian fit needs square matrices"); nda::array<C, 3> k4(4, 1, 2); fill(k4, "k"); auto [t, err] = fit_tail(h, k4); close(t, k4, "moments beyond the order are returned"); CHECK(err == 0, "moments beyond the order are returned"); }
// ---------------------------------------------------------------- use of tails
ENTRY(h_tail_eval) { long K = s_pick("moments", 0, 4); double w = 0.25 * s_pick("w", -6, 6); if (w == 0) w = 0.5; nda::array<C, 1> a(K); fill(a, "a"); C z(w, s_flag("complex") ? 0.75 : 0), e = 0; for (long q = 0; q < K; q++) e += a(q) * rpow(z, q); CLOSEC(tail_eval(nda::array_const_view<C, 1>(a), z), e, "the value of a tail"); nda::array<C, 3> b(K, 1, 2); fill(b, "b"); auto v = tail_eval(nda::array_const_view<C, 3>(b), z); CHECK(v.shape() == (std::array<long, 2>{1, 2}), "the value of a tail"); for (int j = 0; j < 2; j++) { C f = 0; for (long q = 0; q < K; q++) f += b(q, 0, j) * rpow(z, q); CLOSEC(v(0, j), f, "the value of a tail"); } }
ENTRY(h_outside) { auto s = st(); long N = 6; imfreq m(4, s, N); m.set_tail_fit_parameters(0.5, 30, 2); bool mat = s_flag("matrix"), last = s_flag("beyond"); long n = last ? m.last_index() + s_pick("n", 1, 3) : m.first_index() - s_pick("n", 1, 3); matsubara_freq f(n, 4, s); if (mat) { MW g{m, {1, 2}}; nda::array<C, 3> a(3, 1, 2); fill(a, "a"); for (int j = 0; j < 2; j++) { nda::array<C, 1> b(a(range::all, 0, j)); set_tail(m, [&](long k) -> C & { return g.data()(k, 0, j); }, b, 3, "x"); } nda::matrix<C> v = s_flag("view") ? nda::matrix<C>(g()(f)) : nda::matrix<C>(g(f)); CHECK(v.shape() == (std::array<long, 2>{1, 2}), "beyond the mesh the tail is used"); for (int j = 0; j < 2; j++) { C e = 0; for (int q = 0; q < 3; q++) e += a(q, 0, j) * rpow(zval(m, n), q); CLOSEC(v(0, j), e, "beyond the mesh the tail is used"); } } else { GW g{m}; nda::array<C, 1> a(3); fill(a, "a"); set_tail(m, [&](long k) -> C & { return g.data()(k); }, a, 3, "x"); C v = g(f), e = 0; for (int q = 0; q < 3; q++) e += a(q) * rpow(zval(m, n), q); CLOSEC(v, e, "beyond the mesh the tail is used"); } }
ENTRY(h_replace) { auto s = st(); long N = s_pick("n", 2, 4), nmin = s_pick("n_min", 0, 5); imfreq m(4, s, N, s_flag("positive") ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies); auto g = mk<MW>(m, {1, 2}, "g"); auto g0 = copy(g.data()); nda::array<C, 3> a(s_pick("moments", 1, 3), 1, 2); fill(a, "a"); if (s == Boson && nmin == 0 ) __sym_stop(); replace_by_tail(g(), nda::array_const_view<C, 3>(a), nmin); for (long n = m.first_index(); n <= m.last_index(); n++) for (int j = 0; j < 2; j++) { long p = n >= 0 ? n : (s == Fermion ? -n - 1 : -n), k = n - m.first_index(); C e = g0(k, 0, j); if (p >= nmin) { e = 0; for (long q = 0; q < a.shape()[0]; q++) e += a(q, 0, j) * rpow(zval(m, n), q); CLOSEC(g.data()(k, 0, j), e, "frequencies from the limit on are replaced by the tail"); } else CHECK(g.data()(k, 0, j) == e, "frequencies below the limit are kept"); } }
ENTRY(h_replace_window) { auto s = st(); imfreq m(4, s, 6); m.set_tail_fit_parameters(0.5, 30, 1); auto g = mk<GW>(m, {}, "g"), h = g; nda::array<C, 1> a(2); fill(a, "a"); replace_by_tail_in_fit_window(g(), nda::array_const_view<C, 1>(a)); long nt = std::lround(0.5 * m.size() / 2); replace_by_tail(h(), nda::array_const_view<C, 1>(a), m.last_index() - nt); close(g.data(), h.data(), "the fit window is replaced by the tail"); }
// ---------------------------------------------------------------- densities
static double occ(double b, double beta, bool f) { return f ? 1 / (std::exp(beta * b) + 1) : 1 / (std::exp(beta * b) - 1); }
ENTRY(h_density) { auto s = st(); bool f = s == Fermion; double beta = 2; long N = s_pick("n", 1, 3); imfreq m(beta, s, N); double b[3] = {f ? 0. : -1., 1., f ? -1. : 0.5}; bool mat = s_flag("matrix"); long D = mat ? 2 : 1; C a[2][2][3]; nda::array<C, 3> km(s_pick("moments", 4, 5), D, D); fill(km, "m"); km(0, range::all, range::all) = 0; MW g{m, {D, D}}; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { for (int p = 0; p < 3; p++) a[i][j][p] = bounded("a"); for (int q = 1; q < 4; q++) { km(q, i, j) = 0; for (int p = 0; p < 3; p++) km(q, i, j) += ipow(b[p], q - 1).real() * a[i][j][p]; } for (long n = m.first_index(); n <= m.last_index(); n++) { C v = bounded("noise"); for (int p = 0; p < 3; p++) v += a[i][j][p] * (1. / C(-b[p], wn(n, beta, s))); g[n](i, j) = v; } }
  auto check = [&](C v, int i, int j) { C e = 0; for (int p = 0; p < 3; p++) e += occ(b[p], beta, f) * a[i][j][p]; for (long n = m.first_index(); n <= m.last_index(); n++) { C r = g[n](i, j); for (int p = 0; p < 3; p++) r -= a[i][j][p] * (1. / C(-b[p], wn(n, beta, s))); e += ((f ? 1. : -1.) / beta) * r; } CLOSEC(v, e, "the density is the sum over Matsubara frequencies with the tail summed analytically"); };
  if (mat) { auto r = density(g(), km); check(r(0, 0), 0, 0); check(r(1, 1), 1, 1); check(r(0, 1), 0, 1); CHECK(r(1, 0).real() == r(0, 1).real() && r(1, 0).imag() == -r(0, 1).imag(), "the density matrix is Hermitian"); } else { GW x{m}; for (long k = 0; k < m.size(); k++) x.data()(k) = g.data()(k, 0, 0); nda::array<C, 1> k1(km(range::all, 0, 0)); C r = density(x(), k1); check(r, 0, 0); } }
ENTRY(h_density_fitted) { auto s = st(); imfreq m(4, s, 7); m.set_tail_fit_parameters(0.7, 30, 3); auto g = mk<MW>(m, {1, 1}, "g"); bool bad = s_flag("bad"); nda::lapack::gelss_error = bad ? 0.02 : 0.001; long K = s_pick("known", 0, 3); nda::array<C, 3> km(K, 1, 1); fill(km, "m"); if (K) km(0, 0, 0) = 0; nda::matrix<C> r; bool t = throws([&] { r = K ? density(g(), km) : density(g()); }); CHECK(t == bad, "a bad fit of the moments is rejected"); if (!t) { nda::array<C, 3> k2(std::max(K, 1l), 1, 1); k2() = 0; for (long q = 0; q < K; q++) k2(q, 0, 0) = km(q, 0, 0); auto e = density(g(), fit_tail(g, k2).first); close(r, e, "without the moments they are fitted"); GW x{m}; for (long k = 0; k < m.size(); k++) x.data()(k) = g.data()(k, 0, 0); if (!K) CLOSEC(density(x()), e(0, 0), "without the moments they are fitted"); } m.set_tail_fit_parameters(0.7, 30, 2); auto h = mk<MW>(m, {1, 1}, "h"); CHECK(throws([&] { density(h()); }), "three moments are required"); }
ENTRY(h_density_rejected) { auto s = st(); auto g = mk<MW>(imfreq(2, s, 2, imfreq::option::positive_frequencies_only), {1, 1}, "g"); nda::array<C, 3> km(4, 1, 1); km() = 0; CHECK(throws([&] { density(g(), km); }), "positive frequencies only are rejected"); km(0, 0, 0) = s_real("constant", -1, 1); double x = km(0, 0, 0).real(); auto h = mk<MW>(imfreq(2, s, 2), {1, 1}, "h"); ASSUME((x > 0.001) | (x < -0.001)); CHECK(throws([&] { density(h(), km); }), "a constant term is rejected"); }
ENTRY(h_density_real) { long n = s_pick("n", 2, 4), lo = s_pick("lo", 1, 12); double d = 0.5, w0 = -0.125 * lo; refreq m(w0, w0 + (n - 1) * d, n); auto g = mk<gf<refreq, matrix_valued>>(m, {2, 2}, "g"); auto A = [&](long k, int i, int j) { return C(0, 1. / (2 * M_PI)) * (g.data()(k, i, j) - std::conj(g.data()(k, j, i))); }; auto r = density(g()); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { C e = 0; for (long k = 0; k + 1 < n; k++) { double x = w0 + k * d, top = std::min(0., x + d); if (top <= x) break; double t = (top - x) / d; e += (0.5 * t * (2 - t) * d) * A(k, i, j) + (0.5 * t * t * d) * A(k + 1, i, j); } CLOSEC(r(i, j), e, "the density is the integral of the spectral function over the negative frequencies"); } gf<refreq, scalar_valued> x{m}; for (long k = 0; k < n; k++) x[k] = g.data()(k, 1, 1); CLOSEC(density(x()), r(1, 1), "the density of a scalar function"); }
ENTRY(h_density_beta) { long n = s_pick("n", 1, 4); double beta = s_pick("beta", 1, 2), w0 = -1; refreq m(w0, w0 + (n - 1) * 0.5, n); if (n == 1) __sym_stop(); auto g = mk<gf<refreq, matrix_valued>>(m, {2, 2}, "g"); auto r = density(g(), beta); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { C e = 0; for (long k = 0; k < n; k++) e += C(0, 0.5 / (2 * M_PI) * occ(w0 + 0.5 * k, beta, true)) * (g.data()(k, i, j) - std::conj(g.data()(k, j, i))); CLOSEC(r(i, j), e, "the density is the sum of the spectral function times the Fermi function"); } gf<refreq, scalar_valued> x{m}; for (long k = 0; k < n; k++) x[k] = g.data()(k, 1, 1); CLOSEC(density(x(), beta), r(1, 1), "the density of a scalar function"); }
ENTRY(h_density_legendre) { long n = s_pick("n", 1, 4); double beta = 2; auto g = mk<gf<legendre, matrix_valued>>(legendre(beta, Fermion, n), {2, 2}, "g"); auto r = density(g()); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { C e = 0; for (long l = 0; l < n; l++) e -= std::sqrt(2. * l + 1) / beta * g.data()(l, j, i); CLOSEC(r(i, j), e, "the density of a Legendre series is its value at the end, transposed"); } gf<legendre, scalar_valued> x{g.mesh()}; for (long l = 0; l < n; l++) x.data()(l) = g.data()(l, 1, 1); CLOSEC(density(x()), r(1, 1), "the density of a scalar function"); }
ENTRY(h_density_blocks) { auto s = st(); auto a = mk<MW>(imfreq(2, s, 1), {1, 1}, "a"), b = mk<MW>(imfreq(4, s, 2), {2, 2}, "b"); nda::array<C, 3> ka(4, 1, 1), kb(4, 2, 2); fill(ka, "ka"); fill(kb, "kb"); ka(0, 0, 0) = 0; kb(0, range::all, range::all) = 0; auto g = make_block_gf(vector<MW>{a, b}); auto r = density(g, vector{ka, kb}); CHECK(r.size() == 2, "the density of every block"); close(r[0], density(a(), ka), "the density of every block"); close(r[1], density(b(), kb), "the density of every block"); CHECK(throws([&] { density(g, vector{ka}); }), "moments of every block are required"); }
// ---------------------------------------------------------------- Legendre
template <typename G> static bool tail_of(G g, int order, nda::array<C, 3> &t) { if constexpr (requires { get_tail(g, order); }) { t = get_tail(g, order); return true; } else return false; }
ENTRY(h_legendre_tail) { long n = s_pick("n", 1, 4), order = s_pick("order", 0, 3); double beta = 2; auto g = mk<gf<legendre, matrix_valued>>(legendre(beta, Fermion, n), {1, 2}, "g"); nda::array<C, 3> t(order, 1, 2); bool ok = tail_of(g(), order, t); CHECK(ok, "the moments of a Legendre series can be computed"); if (!ok) return; CHECK(t.shape() == (std::array<long, 3>{order, 1, 2}), "the shape of a tail"); for (long p = 0; p < order; p++) for (int j = 0; j < 2; j++) { C e = 0; for (long l = 0; l < n; l++) e += p ? (utility::legendre_t(l, p) / ipow(beta, p)).real() * g.data()(l, 0, j) : C(0); CLOSEC(t(p, 0, j), e, "the moments of a Legendre series"); } }
ENTRY(h_discontinuity) { long n = s_pick("n", 1, 4); double beta = 2; auto g = mk<gf<legendre, matrix_valued>>(legendre(beta, Fermion, n), {1, 2}, "g"); auto g0 = copy(g.data()); nda::array<double, 2> d(1, 2); for (int j = 0; j < 2; j++) d(0, j) = bounded("d").real(); auto v = g(); enforce_discontinuity(v, d); for (int j = 0; j < 2; j++) { C e = 0; for (long l = 0; l < n; l++) e += utility::legendre_t(l, 1) / beta * g.data()(l, 0, j); CLOSEC(e, C(d(0, j)), "the discontinuity is enforced"); for (long l = 0; l < n; l++) for (long k = 0; k < l; k++) { C x = utility::legendre_t(k, 1) * (g.data()(l, 0, j) - g0(l, 0, j)), y = utility::legendre_t(l, 1) * (g.data()(k, 0, j) - g0(k, 0, j)); CLOSEC(x, y, "the correction is the smallest one"); } } nda::array<C, 3> t; if (!tail_of(g(), 2, t)) return; for (int j = 0; j < 2; j++) CLOSEC(t(1, 0, j), C(d(0, j)), "the discontinuity is the first moment"); }
