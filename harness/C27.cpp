// C27: Fourier transforms of C++ Green's functions.
#include <triqs/gfs.hpp>
#include "sym.h"
using namespace triqs; using namespace triqs::gfs; using namespace triqs::mesh;
using std::vector; using std::string; using C = dcomplex;
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } } // not reached
static const C I(0, 1);
static C bounded(const char *n) { C z = s_cplx(n); ASSUME((z.real() <= 10) & (z.real() >= -10) & (z.imag() <= 10) & (z.imag() >= -10)); return z; }
template <typename A> void fill(A &&a, const char *n) { for (long i = 0; i < a.size(); i++) { if constexpr (nda::is_complex_v<std::decay_t<decltype(a.flat(0))>>) a.flat(i) = bounded(n); else a.flat(i) = bounded(n).real(); } }
template <typename G> G mk(typename G::mesh_t const &m, typename G::target_shape_t s, const char *n) { G g{m, s}; fill(g.data(), n); return g; }
template <typename A, typename B> void close(A const &a, B const &b, const char *id) { bool ok = a.shape() == b.shape(); CHECK(ok, id); if (!ok) __sym_stop(); for (long i = 0; i < a.size(); i++) CLOSEC(C(a.flat(i)), C(b.flat(i)), id); }
template <typename T> auto copy(T const &a) { return nda::make_regular(a); }
using GW = gf<imfreq, scalar_valued>; using GT = gf<imtime, scalar_valued>; using MW = gf<imfreq, matrix_valued>; using MT = gf<imtime, matrix_valued>;
static auto st() { return s_flag("fermion") ? Fermion : Boson; }
static double wn(long n, double beta, statistic_enum s) { return M_PI * (2 * n + (s == Fermion)) / beta; }
// the function with three simple poles which has the moments m[1..3]
struct tail3 { bool f; double beta; double b[3]; C a[3];
  tail3(statistic_enum s, double beta, C m1, C m2, C m3) : f(s == Fermion), beta(beta) { if (f) { b[0] = 0; b[1] = 1; b[2] = -1; a[0] = m1 - m3; a[1] = 0.5 * (m2 + m3); a[2] = 0.5 * (m3 - m2); } else { b[0] = -0.5; b[1] = -1; b[2] = 1; a[0] = 4 / 3. * (m1 - m3); a[1] = m3 - 0.5 * (m1 + m2); a[2] = m1 / 6. + 0.5 * m2 + m3 / 3.; } }
  C w(double x) const { C r = 0; for (int i = 0; i < 3; i++) r += a[i] * (1. / C(-b[i], x)); return r; }
  C t(double tau) const { C r = 0; for (int i = 0; i < 3; i++) r -= a[i] * (std::exp(-b[i] * tau) / (1 + (f ? 1 : -1) * std::exp(-b[i] * beta))); return r; } };
// ---------------------------------------------------------------- imaginary time and Matsubara frequencies
ENTRY(h_inverse) { auto s = st(); double beta = 2; long N = s_pick("n_iw", 1, 2), L = 2 * N + s_pick("extra", 0, 3); auto gw = mk<GW>(imfreq(beta, s, N), {}, "g"); auto g0 = copy(gw.data()); nda::array<C, 1> km(s_pick("moments", 4, 5)); fill(km, "m"); km(0) = 0; imtime mt(beta, s, L + 1); GT gt = make_gf_from_fourier(gw, mt, km); CHECK(gt.mesh() == mt, "the mesh of the transform"); tail3 T(s, beta, km(1), km(2), km(3)); long sh = (s == Fermion);
  for (long k = 0; k < L; k++) { double tau = beta * k / L; C e = T.t(tau); for (long n = -N + 1 - sh; n < N; n++) e += std::exp(-I * (wn(n, beta, s) * tau)) * (0.5 * (g0(n + N - 1 + sh) - T.w(wn(n, beta, s)))); CLOSEC(gt.data()(k), e, "the sum over Matsubara frequencies with the tail summed analytically"); } CLOSEC(gt.data()(L), (sh ? -1. : 1.) * (gt.data()(0) + km(1)), "the discontinuity is the first moment"); for (long i = 0; i < g0.size(); i++) CHECK(gw.data()(i) == g0(i), "the operand is not modified"); }
ENTRY(h_direct) { auto s = st(); double beta = 2; long N = s_pick("n_iw", 1, 2), L = 2 * N + s_pick("extra", 0, 3); imtime mt(beta, s, L + 1); auto gt = mk<GT>(mt, {}, "g"); long K = s_pick("moments", 1, 5); nda::array<C, 1> km(K); fill(km, "m"); km(0) = 0; auto m = [&](long i) { return i < K ? km(i) : C(0); }; imfreq mw(beta, s, N); GW gw = make_gf_from_fourier(gt, mw, km); CHECK(gw.mesh() == mw, "the mesh of the transform"); tail3 T(s, beta, m(1), m(2), m(3)); long sh = (s == Fermion);
  for (long n = -N + 1 - sh; n < N; n++) { C e = T.w(wn(n, beta, s)); for (long k = 0; k <= L; k++) { double tau = beta * k / L; e += std::exp(I * (wn(n, beta, s) * tau)) * ((beta / L * (k == 0 || k == L ? 0.5 : 1)) * (gt.data()(k) - T.t(tau))); } CLOSEC(gw.data()(n + N - 1 + sh), e, "the integral over imaginary time by the trapezoidal rule with the tail integrated analytically"); } }
ENTRY(h_roundtrip) { auto s = st(); long N = s_pick("n_iw", 1, 3), L = 2 * N + s_pick("extra", 0, 4); imfreq m(4, s, N); auto g = mk<GW>(m, {}, "g"); nda::array<C, 1> km(4); fill(km, "m"); km(0) = 0; GT t = make_gf_from_fourier(g, imtime(4, s, L + 1), km); GW r = make_gf_from_fourier(t, m, km); CHECK(r.mesh() == m, "the mesh of the transform"); close(r.data(), g.data(), "the transform to imaginary time is inverted by the transform back"); }
ENTRY(h_exact) { auto s = st(); double beta = 2; long N = s_pick("n_iw", 1, 2), L = 2 * N + s_pick("extra", 0, 2); nda::array<C, 1> km(4); fill(km, "m"); km(0) = 0; tail3 T(s, beta, km(1), km(2), km(3)); GW g{imfreq(beta, s, N)}, gr; GT t{imtime(beta, s, L + 1)}, tr; for (auto w : g.mesh()) g[w] = T.w(wn(w.index(), beta, s)); for (long k = 0; k <= L; k++) t[k] = T.t(beta * k / L); gr = make_gf_from_fourier(t, g.mesh(), km); tr = make_gf_from_fourier(g, t.mesh(), km); close(gr.data(), g.data(), "sums of poles are transformed exactly"); close(tr.data(), t.data(), "sums of poles are transformed exactly"); }
ENTRY(h_fitted) { auto s = st(); long N = s_pick("n_iw", 6, 7), K = s_pick("known", 0, 3); imfreq m(4, s, N); m.set_tail_fit_parameters(0.7, 30, 3); bool mat = s_flag("matrix"); nda::lapack::gelss_error = s_flag("bad") ? 0.02 : 0.; bool bad = nda::lapack::gelss_error > 0.01;
  auto run = [&](auto const &g, auto km) { imtime mt(4, s, 2 * N + 2); bool t = throws([&] { auto gt = K ? make_gf_from_fourier(g, mt, km) : make_gf_from_fourier(g, mt); km.resize([&] { auto sh = km.shape(); sh[0] = K ? K : 1; return sh; }()); if (!K) km() = 0; auto [tail, err] = fit_tail(g, km); auto e = make_gf_from_fourier(g, mt, tail); close(gt.data(), e.data(), "without the moments they are fitted"); }); CHECK(t == bad, "a bad fit of the moments is rejected"); };
  if (mat) { auto g = mk<MW>(m, {1, 2}, "g"); nda::array<C, 3> km(K, 1, 2); fill(km, "m"); if (K) km(0, range::all, range::all) = 0; run(g, km); } else { auto g = mk<GW>(m, {}, "g"); nda::array<C, 1> km(K); fill(km, "m"); if (K) km(0) = 0; run(g, km); } }
ENTRY(h_derived) { auto s = st(); long N = 1, L = 20; double beta = 20, A = 100, c1 = 1, c2 = 0.0003; auto f = [&](double t) { return 1 + c1 * t + c2 * t * t * t / 3; }; auto d = [&](double t) { return c1 + c2 * t * t; }; auto dd = [&](double t) { return 2 * c2 * t; }; GT g{imtime(beta, s, L + 1)}; for (long k = 0; k <= L; k++) g[k] = k > 8 && k < 12 ? bounded("middle") : C(A * f(beta * k / L)); double p = s == Fermion ? 1 : -1; nda::array<C, 1> km(4); km(0) = 0; km(1) = -(f(0) + p * f(beta)) * A; km(2) = (d(0) + p * d(beta)) * A; km(3) = -(dd(0) + p * dd(beta)) * A; imfreq m(beta, s, N); GW x = make_gf_from_fourier(g, m), e = make_gf_from_fourier(g, m, km); close(x.data(), e.data(), "without moments they are the derivatives at the boundary"); }
template <typename F> static void rejected(F f, const char *id) { CHECK(throws(f), id); }
ENTRY(h_rejected) { auto s = st(); imfreq mw(2, s, 2); imtime mt(2, s, s_pick("short", 2, 4)), ok(2, s, 5); auto gw = mk<GW>(mw, {}, "g"); auto gt = mk<GT>(mt, {}, "t"), gok = mk<GT>(ok, {}, "ok"); nda::array<C, 1> km(4); km() = 0; nda::array<C, 1> k0(4); k0() = 0; k0(0) = s_real("zeroth", -1, 1); ASSUME((k0(0).real() > 0.01) | (k0(0).real() < -0.01)); rejected([&] { make_gf_from_fourier(gw, mt, km); }, "time meshes that are too short are rejected"); rejected([&] { make_gf_from_fourier(gt, mw, km); }, "time meshes that are too short are rejected"); rejected([&] { make_gf_from_fourier(gw, ok, k0); }, "a constant term is rejected"); rejected([&] { make_gf_from_fourier(gok, mw, k0); }, "a constant term is rejected"); auto gp = mk<GW>(imfreq(2, s, 2, imfreq::option::positive_frequencies_only), {}, "p"); rejected([&] { make_gf_from_fourier(gp, ok, km); }, "positive frequencies only are rejected"); refreq r(-1, 1, 4); { double d5 = 2 * M_PI / (5 * r.delta()); rejected([&] { make_gf_from_fourier(mk<gf<retime, scalar_valued>>(retime(0, 4 * d5, 5), {}, "t5"), r); }, "incompatible real meshes are rejected"); } retime t4(-1, 1, 4), t3(-1, 1, 3); auto gr = mk<gf<refreq, scalar_valued>>(r, {}, "r"); rejected([&] { make_gf_from_fourier(gr, t4); }, "incompatible real meshes are rejected"); rejected([&] { make_gf_from_fourier(gr, t3); }, "incompatible real meshes are rejected"); double dt = 2 * M_PI / (4 * r.delta()); retime t3c(0, 2 * dt, 3), t5c(0, 4 * dt, 5); rejected([&] { make_gf_from_fourier(gr, t3c); }, "incompatible real meshes are rejected"); rejected([&] { make_gf_from_fourier(gr, t5c); }, "incompatible real meshes are rejected"); rejected([&] { make_gf_from_fourier(mk<gf<retime, scalar_valued>>(t3c, {}, "t3"), r); }, "incompatible real meshes are rejected"); auto g4 = mk<gf<retime, scalar_valued>>(t4, {}, "t4"); rejected([&] { make_gf_from_fourier(g4, r); }, "incompatible real meshes are rejected"); }
// ---------------------------------------------------------------- real time and real frequencies
ENTRY(h_real) { long L = s_pick("n", 3, 5); bool half = s_flag("half bin"); retime mt(-2, -2 + (L - 1) * 0.5, L); auto g = mk<gf<retime, scalar_valued>>(mt, {}, "g"); auto gw = make_gf_from_fourier(g, half); auto &mw = gw.mesh(); CHECK(mw.size() == L, "the mesh of the transform"); for (long i = 0; i < L; i++) { double w = mw.w_min() + i * mw.delta(); C e = 0; for (long k = 0; k < L; k++) e += std::exp(I * (w * (-2 + 0.5 * k))) * (0.5 * g.data()(k)); CLOSEC(gw.data()(i), e, "the sum over times"); } gf<retime, scalar_valued> r = make_gf_from_fourier(gw, mt); CHECK(r.mesh() == mt, "the mesh of the transform"); close(r.data(), g.data(), "the transform to frequencies is inverted by the transform back"); }
ENTRY(h_real_inverse) { long L = s_pick("n", 3, 4); bool half = s_flag("half bin"); refreq mw(-1, -1 + (L - 1) * 0.5, L); auto g = mk<gf<refreq, scalar_valued>>(mw, {}, "g"); auto gt = make_gf_from_fourier(g, half); auto &mt = gt.mesh(); CHECK(mt.size() == L, "the mesh of the transform"); for (long i = 0; i < L; i++) { double t = mt.t_min() + i * mt.delta(); C e = 0; for (long k = 0; k < L; k++) e += std::exp(-I * (t * (-1 + 0.5 * k))) * ((0.5 / (2 * M_PI)) * g.data()(k)); CLOSEC(gt.data()(i), e, "the sum over frequencies"); } }
ENTRY(h_real_moments) { long L = s_pick("n", 3, 5); retime mt(-1, -1 + (L - 1) * 0.5, L); auto g = mk<gf<retime, scalar_valued>>(mt, {}, "g"); nda::array<C, 1> km(s_pick("moments", 3, 4)); fill(km, "m"); km(0) = 0; auto mw = make_adjoint_mesh(mt); auto gw = make_gf_from_fourier(g, mw, km); double a = mw.delta() * std::sqrt(double(L)); C a1 = 0.5 * (km(1) + I * (km(2) * (1 / a))), a2 = 0.5 * (km(1) - I * (km(2) * (1 / a)));
  auto T = [&](double t) { bool z = std::abs(t) < 1e-12; return z ? -0.5 * I * (a1 - a2) : t > 0 ? -I * (std::exp(-a * t) * a1) : I * (std::exp(a * t) * a2); }; for (long i = 0; i < L; i++) { double w = mw.w_min() + i * mw.delta(); C e = a1 * (1. / C(w, a)) + a2 * (1. / C(w, -a)); for (long k = 0; k < L; k++) { double t = -1 + 0.5 * k; e += std::exp(I * (w * t)) * (0.5 * (g.data()(k) - T(t))); } CLOSEC(gw.data()(i), e, "the sum over times with the moments transformed analytically"); } gf<retime, scalar_valued> r = make_gf_from_fourier(gw, mt, km); close(r.data(), g.data(), "the transform to frequencies is inverted by the transform back"); CHECK(throws([&] { make_gf_from_fourier(g, mw, nda::array<C, 1>(nda::zeros<C>(2))); }), "two moments are required"); }
// ---------------------------------------------------------------- lattices
ENTRY(h_lattice) { long a = s_pick("a", 1, 4), b = s_pick("b", 1, 2); nda::matrix<double> u(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) u(i, j) = i == j; lattice::bravais_lattice bl{u}; bool mat = s_flag("matrix"), rec = s_flag("reciprocal"); auto ph = [&](long i, long j, double sg) { return std::exp(I * (sg * 2 * M_PI * (double((i / b) * (j / b)) / a + double((i % b) * (j % b)) / b))); };
  auto run = [&](auto const &g, auto val) { auto r = make_gf_from_fourier(g); CHECK(r.mesh() == make_adjoint_mesh(g.mesh()), "the mesh of the transform"); for (long j = 0; j < a * b; j++) { C e = 0; for (long i = 0; i < a * b; i++) e += ph(i, j, rec ? -1 : 1) * val(g, i); if (rec) e *= 1. / (a * b); CLOSEC(val(r, j), e, "the lattice sum"); } auto q = make_gf_from_fourier(r); CHECK(q.mesh() == g.mesh(), "the mesh of the transform"); close(q.data(), g.data(), "lattice transforms invert each other"); };
  auto v0 = [](auto const &g, long i) { return g.data()(i); }; auto v2 = [](auto const &g, long i) { return g.data()(i, 1, 0); };
  if (rec) { brzone m{lattice::brillouin_zone{bl}, {a, b, 1}}; if (mat) run(mk<gf<brzone, matrix_valued>>(m, {2, 1}, "g"), v2); else run(mk<gf<brzone, scalar_valued>>(m, {}, "g"), v0); } else { cyclat m{bl, {a, b, 1}}; if (mat) run(mk<gf<cyclat, matrix_valued>>(m, {2, 1}, "g"), v2); else run(mk<gf<cyclat, scalar_valued>>(m, {}, "g"), v0); } }
// ---------------------------------------------------------------- components, products of meshes, blocks
ENTRY(h_components) { auto s = st(); imfreq m(2, s, 1); imtime mt(2, s, 4); auto g = mk<MW>(m, {2, 2}, "g"); nda::array<C, 3> km(4, 2, 2); fill(km, "m"); km(0, range::all, range::all) = 0; MT r; switch (s_pick("form", 0, 4)) { case 0: r = make_gf_from_fourier(g, mt, km); break; case 1: r = make_gf_from_fourier(g(), mt, km); break; case 2: { MT q{mt, {2, 2}}; q() = fourier(g, km); r = q; break; } case 3: { MT q{mt, {2, 2}}; auto v = q(); v = fourier(g, km); r = q; break; } case 4: r = make_gf_from_fourier(make_const_view(g), mt, km); break; } CHECK(r.mesh() == mt, "the mesh of the transform"); int i = s_pick("i", 0, 1), j = s_pick("j", 0, 1); GW x{m}; for (auto w : m) x[w] = g[w](i, j); nda::array<C, 1> k(4); for (int q = 0; q < 4; q++) k(q) = km(q, i, j); GT e = make_gf_from_fourier(x, mt, k); for (long q = 0; q < 4; q++) CLOSEC(r.data()(q, i, j), e.data()(q), "every component is transformed by itself"); }
ENTRY(h_real_target) { auto s = st(); imtime mt(2, s, 4); gf<imtime, matrix_real_valued> g{mt, {1, 2}}; fill(g.data(), "g"); nda::array<C, 3> km(4, 1, 2); fill(km, "m"); km(0, range::all, range::all) = 0; imfreq m(2, s, 1); MW r = make_gf_from_fourier(g, m, km); int j = s_pick("j", 0, 1); GT x{mt}; for (long k = 0; k < 4; k++) x[k] = g.data()(k, 0, j); nda::array<C, 1> k1(4); for (int q = 0; q < 4; q++) k1(q) = km(q, 0, j); GW e = make_gf_from_fourier(x, m, k1); for (long q = 0; q < m.size(); q++) CLOSEC(r.data()(q, 0, j), e.data()(q), "every component is transformed by itself"); }
ENTRY(h_product) { auto s = st(); imfreq m(2, s, 1); imtime mt(2, s, 4); discrete d(2); bool first = s_flag("first"); int j = s_pick("j", 0, 1); long x = s_pick("x", 0, 1); nda::array<C, 1> k(4); 
  if (first) { auto g = mk<gf<prod<imfreq, discrete>, matrix_valued>>({m, d}, {1, 2}, "g"); nda::array<C, 4> km(4, 2, 1, 2); fill(km, "m"); km(0, nda::ellipsis{}) = 0; auto r = make_gf_from_fourier<0>(g, mt, km); CHECK(std::get<0>(r.mesh()) == mt && std::get<1>(r.mesh()) == d, "the other mesh is kept"); GW q{m}; for (long w = 0; w < m.size(); w++) q.data()(w) = g.data()(w, x, 0, j); for (int p = 0; p < 4; p++) k(p) = km(p, x, 0, j); GT e = make_gf_from_fourier(q, mt, k); for (long t = 0; t < 4; t++) CLOSEC(r.data()(t, x, 0, j), e.data()(t), "only the chosen variable is transformed"); }
  else { auto g = mk<gf<prod<discrete, imfreq>, matrix_valued>>({d, m}, {1, 2}, "g"); nda::array<C, 4> km(4, 2, 1, 2); fill(km, "m"); km(0, nda::ellipsis{}) = 0; auto r = make_gf_from_fourier<1>(g, mt, km); CHECK(std::get<1>(r.mesh()) == mt && std::get<0>(r.mesh()) == d, "the other mesh is kept"); GW q{m}; for (long w = 0; w < m.size(); w++) q.data()(w) = g.data()(x, w, 0, j); for (int p = 0; p < 4; p++) k(p) = km(p, x, 0, j); GT e = make_gf_from_fourier(q, mt, k); for (long t = 0; t < 4; t++) CLOSEC(r.data()(x, t, 0, j), e.data()(t), "only the chosen variable is transformed"); gf<prod<discrete, imtime>, matrix_valued> l{{d, mt}, {1, 2}}; l() = fourier<1>(g, km); close(l.data(), r.data(), "the lazy form is the transform"); } }
ENTRY(h_multi) { retime m1(-1, 0.5, 4); nda::matrix<double> u(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) u(i, j) = i == j; cyclat m2{lattice::bravais_lattice{u}, {2, 1, 1}}; auto g = mk<gf<prod<retime, cyclat>, scalar_valued>>({m1, m2}, {}, "g"); auto a = make_gf_from_fourier<0, 1>(g); auto b0 = make_gf_from_fourier<1>(g, make_adjoint_mesh(m2)); auto b = make_gf_from_fourier<0>(b0, make_adjoint_mesh(m1)); CHECK(std::get<0>(a.mesh()) == make_adjoint_mesh(m1) && std::get<1>(a.mesh()) == make_adjoint_mesh(m2), "the meshes of the transform"); close(a.data(), b.data(), "transforms of different variables commute"); for (long k = 0; k < 2; k++) { gf<retime, scalar_valued> h{m1}; for (long t = 0; t < 4; t++) h[t] = g.data()(t, 0) + (k ? -1. : 1.) * g.data()(t, 1); auto e = make_gf_from_fourier(h, make_adjoint_mesh(m1)); for (long w = 0; w < 4; w++) CLOSEC(a.data()(w, k), e.data()(w), "a function of two variables is transformed in both"); } }
ENTRY(h_blocks) { auto s = st(); imtime mt(2, s, 4); auto a = mk<MW>(imfreq(2, s, 1), {1, 1}, "a"), b = mk<MW>(imfreq(2, s, 1), {1, 2}, "b"); auto g = make_block_gf(vector<string>{"x", "y"}, {a, b}); nda::array<C, 3> ka(4, 1, 1), kb(4, 1, 2); fill(ka, "ka"); fill(kb, "kb"); ka(0, nda::ellipsis{}) = 0; kb(0, nda::ellipsis{}) = 0; auto r = make_gf_from_fourier(g, mt, vector{ka, kb}); CHECK(r.block_names() == (vector<string>{"x", "y"}) && r.size() == 2, "names are kept"); MT ea = make_gf_from_fourier(a, mt, ka), eb = make_gf_from_fourier(b, mt, kb); close(r[0].data(), ea.data(), "blocks are transformed one by one"); close(r[1].data(), eb.data(), "blocks are transformed one by one"); CHECK(throws([&] { make_gf_from_fourier(g, mt, vector{ka}); }), "moments of every block are required"); retime rt(-1, 0.5, 4); auto c = mk<gf<retime, scalar_valued>>(rt, {}, "c"), d = mk<gf<retime, scalar_valued>>(rt, {}, "d"); auto h = make_block_gf(vector<string>{"u", "v"}, {c, d}); auto q = make_gf_from_fourier(h, make_adjoint_mesh(rt)); auto ed = make_gf_from_fourier(d, make_adjoint_mesh(rt)); close(q[1].data(), ed.data(), "blocks are transformed one by one"); CHECK(q.block_names() == h.block_names(), "names are kept"); }
