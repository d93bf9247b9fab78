// C26: evaluation, symmetries, restriction and rebinning of C++ Green's functions.
#include <triqs/gfs.hpp>
#include "sym.h"
using namespace triqs; using namespace triqs::gfs; using namespace triqs::mesh;
using std::vector; using std::string; using C = dcomplex;
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } } // not reached
template <typename A> void fill(A &&a, const char *n) { for (long i = 0; i < a.size(); i++) { if constexpr (nda::is_complex_v<std::decay_t<decltype(a.flat(0))>>) a.flat(i) = s_cplx(n); else a.flat(i) = s_real(n); } }
template <typename G> G mk(typename G::mesh_t const &m, typename G::target_shape_t s, const char *n) { G g{m, s}; fill(g.data(), n); return g; }
template <typename A, typename B> void same(A const &a, B const &b, const char *id) { bool ok = a.shape() == b.shape(); CHECK(ok, id); if (!ok) __sym_stop(); for (long i = 0; i < a.size(); i++) CHECK(a.flat(i) == b.flat(i), id); }
template <typename T> auto copy(T const &a) { return nda::make_regular(a); }
using GM = gf<imfreq, matrix_valued>; using GS = gf<imfreq, scalar_valued>; using G4 = gf<imfreq, tensor_valued<4>>;
static auto st() { return s_flag("fermion") ? Fermion : Boson; }
static auto opt(bool pos) { return pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies; }
// ---------------------------------------------------------------- evaluation
template <typename G, typename M> void interp(M const &m, double x0, double d, long n) { G g{m}; fill(g.data(), "g"); auto g0 = copy(g.data()); long i = s_pick("cell", 0, n - 2); double w = s_real("weight", 0, 1); double x = x0 + d * (i + w); C v; switch (s_pick("kind", 0, 2)) { case 0: v = g(x); break; case 1: v = g()(x); break; case 2: v = make_const_view(g)(x); break; } C e = (1 - w) * C(g0(i)) + w * C(g0(i + 1)); CLOSEC(v, e, "the value between two points is the linear interpolation"); same(g.data(), g0, "evaluation changes nothing"); }
ENTRY(h_interpolate) { long n = s_pick("n", 2, 4); switch (s_pick("mesh", 0, 2)) { case 0: interp<gf<refreq, scalar_valued>>(refreq(-2, -2 + 0.5 * (n - 1), n), -2, 0.5, n); break; case 1: interp<gf<imtime, scalar_real_valued>>(imtime(2. * (n - 1), Fermion, n), 0, 2, n); break; case 2: interp<gf<retime, scalar_valued>>(retime(-1, -1 + 4. * (n - 1), n), -1, 4, n); break; } }
ENTRY(h_interpolate_matrix) { long n = 3; refreq m(-1, 1, n); auto g = mk<gf<refreq, matrix_valued>>(m, {2, 1}, "g"); long i = s_pick("cell", 0, 1); double w = s_real("weight", 0, 1); nda::matrix<C> v = g(-1 + i + w); CHECK(v.shape() == (std::array<long, 2>{2, 1}), "shape of a value"); for (int a = 0; a < 2; a++) { C e = (1 - w) * g.data()(i, a, 0) + w * g.data()(i + 1, a, 0); CLOSEC(v(a, 0), e, "the value between two points is the linear interpolation"); } }
ENTRY(h_interpolate2) { refreq m1(0, 2, 3); imtime m2(2, Boson, 2); auto g = mk<gf<prod<refreq, imtime>, scalar_valued>>({m1, m2}, {}, "g"); long i = s_pick("cell", 0, 1); double u = s_real("u", 0, 1), w = 0.25 * s_pick("w", 0, 4); C v = g(i + u, 2 * w); auto &d = g.data(); C e = (1 - u) * (1 - w) * d(i, 0) + u * (1 - w) * d(i + 1, 0) + (1 - u) * w * d(i, 1) + u * w * d(i + 1, 1); CLOSEC(v, e, "on a product mesh the interpolation is the product of the interpolations"); }
ENTRY(h_points) { imtime m(3, Fermion, s_pick("n", 2, 3)); auto g = mk<gf<imtime, scalar_valued>>(m, {}, "g"); long i = s_pick("i", 0, m.size() - 1); CLOSEC(g(m[i]), g.data()(i), "the value at a point of the mesh is the stored value"); CHECK(g(i) == g.data()(i) && g[i] == g.data()(i) && g[m[i]] == g.data()(i), "the value at an index is the stored value"); double x = m[i].value() + 0.4 * m.delta() * (i == 0 ? s_real("shift", 0, 1) : i == m.size() - 1 ? s_real("shift", -1, 0) : s_real("shift", -1, 1)); CHECK(g[closest_mesh_pt(x)] == g.data()(i) && g(closest_mesh_pt(x)) == g.data()(i), "the value at the closest point"); }
ENTRY(h_imfreq) { bool pos = s_flag("positive"); auto s = st(); long N = s_pick("n", 1, 3); imfreq m(2, s, N, opt(pos)); auto g = mk<GM>(m, {1, 2}, "g"); long n = s_pick("index", -4, 4); long sh = s == Fermion; bool in = n >= m.first_index() && n <= m.last_index(), mirror = pos && -n - sh >= 0 && -n - sh < N; if (!pos && !in) __sym_stop(); bool t = throws([&] { nda::matrix<C> v = s_flag("int") ? g(int(n)) : g(matsubara_freq(n, 2, s)); bool q = in || mirror; CHECK(q, "frequencies outside a mesh of positive frequencies are rejected"); if (q) for (int b = 0; b < 2; b++) { C e = in ? g.data()(n - m.first_index(), 0, b) : std::conj(g.data()(-n - sh, 0, b)); CHECK(v(0, b) == e, "the value at a Matsubara frequency"); } }); CHECK(t == !(in || mirror), "frequencies outside a mesh of positive frequencies are rejected"); }
ENTRY(h_imfreq_product) { auto s = st(); imfreq m1(2, s, s_pick("n", 1, 2)); refreq m2(0, 2, 3); auto g = mk<gf<prod<imfreq, refreq>, scalar_valued>>({m1, m2}, {}, "g"); long n = s_pick("index", -3, 3), i = s_pick("cell", 0, 1); double u = s_real("u", 0, 1); bool in = n >= m1.first_index() && n <= m1.last_index(); C v = g(matsubara_freq(n, 2, s), i + u); C e = 0; if (in) { long k = n - m1.first_index(); e = (1 - u) * g.data()(k, i) + u * g.data()(k, i + 1); } CLOSEC(v, e, "a function of two variables vanishes outside the frequencies of its mesh"); auto h = mk<gf<prod<imfreq, imfreq>, matrix_valued>>({m1, m1}, {1, 2}, "h"); long p = s_pick("second", -2, 2); bool in2 = in && p >= m1.first_index() && p <= m1.last_index(); auto w = h(n, p); CHECK(w.shape() == (std::array<long, 2>{1, 2}), "shape of a value"); for (int b = 0; b < 2; b++) CHECK(w(0, b) == (in2 ? h.data()(n - m1.first_index(), p - m1.first_index(), 0, b) : C(0)), "a function of two variables vanishes outside the frequencies of its mesh"); }
ENTRY(h_cyclat) { long a = s_pick("a", 1, 3), b = s_pick("b", 1, 2); nda::matrix<double> u(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) u(i, j) = i == j; lattice::bravais_lattice bl{u}; long x = s_pick("x", -5, 5), y = s_pick("y", -3, 3), z = s_pick("z", -1, 1); auto md = [](long p, long q) { return ((p % q) + q) % q; }; long k = md(x, a) * b + md(y, b); if (s_flag("reciprocal")) { brzone m{lattice::brillouin_zone{bl}, {a, b, 1}}; auto g = mk<gf<brzone, scalar_valued>>(m, {}, "g"); CHECK(g(brzone::index_t{x, y, z}) == g.data()(k), "functions on a cyclic lattice are periodic"); } else { cyclat m{bl, {a, b, 1}}; auto g = mk<gf<cyclat, scalar_valued>>(m, {}, "g"); CHECK(g(cyclat::index_t{x, y, z}) == g.data()(k), "functions on a cyclic lattice are periodic"); auto h = mk<gf<prod<cyclat, discrete>, scalar_valued>>({m, discrete(2)}, {}, "h"); CHECK(h(cyclat::index_t{x, y, z}, 1) == h.data()(k, 1), "functions on a cyclic lattice are periodic"); } }
ENTRY(h_legendre) { long n = s_pick("n", 1, 4); legendre m(2, Fermion, n); auto g = mk<gf<legendre, scalar_valued>>(m, {}, "g"); for (long l = 0; l < n; l++) { C z = g.data()(l); ASSUME((z.real() <= 10) & (z.real() >= -10) & (z.imag() <= 10) & (z.imag() >= -10)); } double x = -1 + 0.25 * s_pick("x", 0, 8); C v = g(1.0 * (x + 1)), e = 0; double P[4] = {1, x, (3 * x * x - 1) / 2, (5 * x * x * x - 3 * x) / 2}, S[4] = {1, 1.7320508075688772, 2.23606797749979, 2.6457513110645907}; for (long l = 0; l < n; l++) e += S[l] * P[l] / 2 * g.data()(l); CLOSEC(v, e, "the value in imaginary time of a Legendre series"); }
// ---------------------------------------------------------------- positive frequencies
ENTRY(h_positive) { auto s = st(); long N = s_pick("n", 1, 3); imfreq m(2, s, N); auto g = mk<GM>(m, {1, 2}, "g"); long z = -m.first_index(); auto v = positive_freq_view(g); CHECK(v.mesh() == imfreq(2, s, N, opt(true)) && v.data().shape() == (std::array<long, 3>{N, 1, 2}), "the view of the positive frequencies"); long k = s_pick("k", 0, N - 1); CHECK(v[k](0, 1) == g[k](0, 1) && v.data()(k, 0, 0) == g.data()(z + k, 0, 0), "the view of the positive frequencies"); C x = s_cplx("x"); v[k](0, 0) = x; CHECK(g[k](0, 0) == x, "the view of the positive frequencies shares the data"); auto c = positive_freq_view(make_const_view(g)); same(c.data(), v.data(), "the view of the positive frequencies"); auto w = positive_freq_view(v); CHECK(w.mesh() == v.mesh(), "the view of the positive frequencies"); same(w.data(), v.data(), "the view of the positive frequencies");
  auto f = make_gf_from_real_gf(make_const_view(v)); CHECK(f.mesh() == m, "the full mesh"); for (long n = 0; n < N; n++) for (int b = 0; b < 2; b++) { CHECK(f[n](0, b) == g[n](0, b), "unfolding keeps the positive frequencies"); long q = s == Fermion ? -n - 1 : -n; if (q < 0) CHECK(f[q](0, b) == std::conj(g[n](0, b)), "unfolding gives the complex conjugate at negative frequencies"); } CHECK(throws([&] { make_gf_from_real_gf(make_const_view(g)); }), "only functions of positive frequencies can be unfolded"); }
ENTRY(h_positive_h5) { auto s = st(); long N = s_pick("n", 1, 2); imfreq m(2, s, N, opt(true)); auto g = mk<GS>(m, {}, "g"); ::h5::file f("x.h5", 'w'); ::h5::group gr(f); h5_write(gr, "g", g); GS r; h5_read(gr, "g", r); bool ok = r.mesh() == imfreq(2, s, N); CHECK(ok, "a function of positive frequencies is read as the full function"); if (ok) for (long n = 0; n < N; n++) { CHECK(r[n] == g[n], "a function of positive frequencies is read as the full function"); long q = s == Fermion ? -n - 1 : -n; if (q < 0) CHECK(r[q] == std::conj(g[n]), "a function of positive frequencies is read as the full function"); } }
// ---------------------------------------------------------------- symmetries
static bool within(C z, double tol) { double n = z.real() * z.real() + z.imag() * z.imag(); return n <= tol * tol; }
static imfreq small() { bool f = s_flag("fermion"), pos = s_flag("positive"); return {2, f ? Fermion : Boson, f ? 1 : s_pick("n", 1, 2), opt(pos)}; }
static long mir(imfreq const &m, long n) { return m.statistic() == Fermion ? -n - 1 : -n; }
ENTRY(h_hermitian0) { auto m = small(); auto g = mk<GS>(m, {}, "g"); double tol = s_real("tol", 0, 1); bool e = true; if (!m.positive_only()) for (auto w : m) { long n = w.index(); e = e & within(std::conj(g[mir(m, n)]) - g[n], tol); } CHECK(is_gf_hermitian(g, tol) == e, "a function is Hermitian iff it satisfies the definition"); CHECK(is_gf_real_in_tau(g, tol) == e, "a function is real in imaginary time iff it satisfies the definition"); }
ENTRY(h_hermitian2) { auto m = small(); long d = 2; GM g{m, {d, d}}; for (auto w : m) for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) g[w](i, j) = 1; { long k = s_pick("frequency", 0, m.size() - 1); int i = s_pick("i", 0, 1), j = s_pick("j", 0, 1); long q = mir(m, k + m.first_index()); if (!m.positive_only()) { g.data()(q - m.first_index(), i, j) = s_cplx("g"); g.data()(q - m.first_index(), j, i) = s_cplx("g"); } g.data()(k, i, j) = s_cplx("g"); } double tol = 0.5; bool h = s_flag("hermitian"), e = true; if (!m.positive_only()) for (auto w : m) for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { long n = w.index(); e = e & within((h ? std::conj(g[mir(m, n)](j, i)) : std::conj(g[mir(m, n)](i, j))) - g[n](i, j), tol); } CHECK((h ? is_gf_hermitian(g, tol) : is_gf_real_in_tau(g, tol)) == e, "a function is Hermitian, or real in imaginary time, iff it satisfies the definition"); }
ENTRY(h_hermitian_tau) { imtime m(2, Fermion, 2); double tol = 0.5; if (s_flag("scalar")) { auto g = mk<gf<imtime, scalar_valued>>(m, {}, "g"); bool e = true; for (long k = 0; k < 2; k++) e = e & within(std::conj(g[k]) - g[k], tol); CHECK(is_gf_hermitian(g, tol) == e, "a function is Hermitian iff it satisfies the definition"); auto h = make_hermitian(g); for (long k = 0; k < 2; k++) CHECK(h.data()(k).real() == g.data()(k).real() && h.data()(k).imag() == 0, "symmetrisation takes the Hermitian part"); } else { auto g = mk<gf<imtime, matrix_valued>>(m, {2, 2}, "g"); bool e = true; for (long k = 0; k < 2; k++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e = e & within(std::conj(g[k](j, i)) - g[k](i, j), tol); CHECK(is_gf_hermitian(g, tol) == e, "a function is Hermitian iff it satisfies the definition"); auto h = make_hermitian(g); CHECK(h.mesh() == m, "the mesh is kept"); for (long k = 0; k < 2; k++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) CLOSEC(h.data()(k, i, j), 0.5 * (g.data()(k, i, j) + std::conj(g.data()(k, j, i))), "symmetrisation takes the Hermitian part"); } }
ENTRY(h_make) { auto m = small(); auto g = mk<GM>(m, {2, 2}, "g"); auto g0 = copy(g.data()); bool her = s_flag("hermitian"); GM h; if (s_flag("view")) { auto v = g(); h = her ? make_hermitian(v) : make_real_in_tau(v); } else h = her ? make_hermitian(g) : make_real_in_tau(g); same(g.data(), g0, "operands are not modified"); CHECK(h.mesh() == m, "the mesh is kept"); bool ok = h.data().shape() == g0.shape(); CHECK(ok, "the shape is kept"); if (!ok) return; for (auto w : m) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { long n = w.index(), k = n - m.first_index(); C e = m.positive_only() ? g0(k, i, j) : 0.5 * (g0(k, i, j) + std::conj(her ? g0(mir(m, n) - m.first_index(), j, i) : g0(mir(m, n) - m.first_index(), i, j))); CLOSEC(h[n](i, j), e, "symmetrisation takes the symmetric part"); } }
ENTRY(h_make4) { imfreq m(2, st(), 1); auto g = mk<G4>(m, {1, 2, 1, 2}, "g"); auto h = make_hermitian(g); auto r = make_real_in_tau(g); for (auto w : m) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { long n = w.index(), q = mir(m, n); CLOSEC(h[n](0, i, 0, j), 0.5 * (g[n](0, i, 0, j) + std::conj(g[q](0, j, 0, i))), "symmetrisation takes the symmetric part"); CLOSEC(r[n](0, i, 0, j), 0.5 * (g[n](0, i, 0, j) + std::conj(g[q](0, i, 0, j))), "symmetrisation takes the symmetric part"); } CHECK(is_gf_hermitian(h) && is_gf_real_in_tau(r), "a symmetrised function is symmetric"); }
ENTRY(h_hermitian4) { imfreq m(2, st(), 1); auto g = mk<G4>(m, {1, 2, 1, 2}, "g"); bool e = true; for (auto w : m) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { long n = w.index(), q = mir(m, n); e = e & within(g[n](0, i, 0, j) - std::conj(g[q](0, j, 0, i)), 0.25); } CHECK(is_gf_hermitian(g, 0.25) == e, "a function is Hermitian iff it satisfies the definition"); }
ENTRY(h_blocks) { auto s = st(); auto a = mk<GS>(imfreq(2, s, 1), {}, "a"), b = mk<GS>(imfreq(3, s, 1), {}, "b"); bool her = s_flag("hermitian"); auto g = make_block_gf(vector<string>{"x", "y"}, {a, b}); double tol = 0.5; auto e = [&](GS const &f) { bool r = true; for (auto w : f.mesh()) { long n = w.index(); r = r & within(std::conj(f[mir(f.mesh(), n)]) - f[n], tol); } return r; }; CHECK((her ? is_gf_hermitian(g, tol) : is_gf_real_in_tau(g, tol)) == (e(a) & e(b)), "a block function is symmetric iff every block is"); auto h = her ? make_hermitian(g) : make_real_in_tau(g); CHECK(h.block_names() == (vector<string>{"x", "y"}), "names are kept"); auto ref = her ? make_hermitian(b) : make_real_in_tau(b); same(h[1].data(), ref.data(), "blocks are symmetrised"); CHECK(h[1].mesh() == b.mesh(), "blocks are symmetrised"); }
// ---------------------------------------------------------------- restriction, rebinning, transforms between meshes
ENTRY(h_restricted) { auto s = st(); bool pos = s_flag("positive"); long N = s_pick("n", 2, 4), k = s_pick("k", 1, 4); if (k > N) __sym_stop(); imfreq m(2, s, N, opt(pos)); auto g = mk<gf<imfreq, matrix_valued>>(m, {1, 1}, "g"); auto check = [&](auto const &v) { bool ok = v.mesh() == imfreq(2, s, k, opt(pos)); CHECK(ok, "the restriction has the frequencies below the limit"); if (!ok) return; CHECK((long)v.data().shape()[0] == v.mesh().size(), "the restriction has the frequencies below the limit"); for (auto w : v.mesh()) CHECK(v[w](0, 0) == g[w.index()](0, 0), "the restriction has the values of the function"); }; if (s_flag("view")) check(restricted_view(gf_const_view<imfreq, matrix_valued>{g}, k)); else check(restricted_view(g, k)); }
ENTRY(h_rebin) { long a = s_pick("old", 2, 6), b = s_pick("new", 2, 6); imtime m(4. * (a - 1) * (b - 1), Fermion, a); auto g = mk<gf<imtime, matrix_valued>>(m, {1, 1}, "g"); auto r = rebinning_tau(make_const_view(g), b); CHECK(r.mesh() == imtime(m.beta(), Fermion, b), "the new mesh"); for (long k = 0; k < b; k++) { C e = 0; long c = 0; for (long i = 0; i < a; i++) if ((2 * i * (b - 1) + a - 1) / (2 * (a - 1)) == k) { e += g.data()(i, 0, 0); c++; } if (c) e /= double(c); CLOSEC(r.data()(k, 0, 0), e, "every new point is the average of the old points closest to it"); } }
ENTRY(h_legendre_tau) { long n = s_pick("n", 1, 3); legendre ml(2, Fermion, n); auto gl = mk<gf<legendre, scalar_valued>>(ml, {}, "g"); for (long l = 0; l < n; l++) { C z = gl.data()(l); ASSUME((z.real() <= 10) & (z.real() >= -10) & (z.imag() <= 10) & (z.imag() >= -10)); } imtime mt(2, Fermion, 3); gf<imtime, scalar_valued> gt{mt}; fill(gt.data(), "old"); auto v = gt(); legendre_matsubara_direct(v, gl); double S[3] = {1, 1.7320508075688772, 2.23606797749979}; for (long k = 0; k < 3; k++) { double x = k - 1, P[3] = {1, x, (3 * x * x - 1) / 2}; C e = 0; for (long l = 0; l < n; l++) e += S[l] / 2 * P[l] * gl.data()(l); CLOSEC(gt.data()(k), e, "a Legendre series in imaginary time"); } fill(gt.data(), "t"); for (long k = 0; k < 3; k++) { C z = gt.data()(k); ASSUME((z.real() <= 10) & (z.real() >= -10) & (z.imag() <= 10) & (z.imag() >= -10)); } auto w = gl(); legendre_matsubara_inverse(w, gt); for (long l = 0; l < n; l++) { C e = 0; for (long k = 0; k < 3; k++) { double x = k - 1, P[3] = {1, x, (3 * x * x - 1) / 2}; e += (k == 1 ? 1 : 0.5) * S[l] * P[l] * gt.data()(k); } CLOSEC(gl.data()(l), e, "Legendre coefficients by the trapezoidal rule"); } }
