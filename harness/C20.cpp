// C20: one-dimensional meshes.
#include <triqs/mesh.hpp>
#include "sym.h"
using namespace triqs::mesh;
static const double PI = 3.14159265358979323846;
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } } // not reached by the meshes
static statistic_enum st(const char *n = "statistic") { return s_flag(n) ? Fermion : Boson; }
// ---------------------------------------------------------------- linear meshes
static const double win[][2] = {{0, 1}, {-1, 1}, {-2.5, 0.75}, {0, 10}, {3, 3.5}, {-100, 100}};
template <typename M> void points(M const &m, double a, double b, long L) { // every stored position
  CHECK(m.size() == L, "size"); CHECK(m.first_index() == 0 && m.last_index() == L - 1, "range of indices"); long i = s_pick("position", 0, L - 1);
  CHECK(m.is_index_valid(i), "every position is an index"); CHECK(m.to_data_index(i) == i && m.to_index(i) == i, "index and position"); auto p = m[i], q = m(i); double v = a + (L == 1 ? 0 : (b - a) * i / (L - 1));
  CHECK(p.index() == i && p.data_index() == i && q.index() == i && q.data_index() == i, "a mesh point knows its index and position"); CLOSE(p.value(), v, "values are equally spaced between the ends"); CLOSE(q.value(), v, "values are equally spaced between the ends"); CLOSE(m.to_value(i), v, "values are equally spaced between the ends"); CLOSE(double(p), v, "a mesh point is its value"); CHECK(p.mesh_hash() == m.mesh_hash() && q.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); if (L > 1) { CLOSE(m.delta() * (L - 1), b - a, "step"); if (i + 1 < L) CHECK(m.to_value(i) <= m.to_value(i + 1), "values increase"); }
  CLOSE(p + 2.0, v + 2, "arithmetic uses the value"); CLOSE(2.0 - p, 2 - v, "arithmetic uses the value"); CLOSE(p * 3.0, 3 * v, "arithmetic uses the value"); CLOSE(p / 4.0, v / 4, "arithmetic uses the value"); CLOSE(p - q, 0, "arithmetic uses the value"); }
ENTRY(h_linear) { double a = s_real("a", -50, 50), b = s_real("b", -50, 50); ASSUME(a <= b); long L = s_pick("L", 1, 5);
  switch (s_pick("mesh", 0, 2)) { case 0: { retime m(a, b, L); points(m, a, b, L); CHECK(m.t_min() == a && m.t_max() == b, "window"); break; } case 1: { refreq m(a, b, L); points(m, a, b, L); CHECK(m.w_min() == a && m.w_max() == b, "window"); break; } case 2: { ASSUME(b > 0); imtime m(b, st(), L); points(m, 0, b, L); CHECK(m.beta() == b, "beta"); break; } } }
ENTRY(h_index) { long L = s_int("L", 1, 1l << 40), i = s_int("i", -(1l << 62), 1l << 62); bool in = (0 <= i) & (i < L); switch (s_pick("mesh", 0, 3)) { case 0: { discrete m(L); CHECK(m.is_index_valid(i) == in, "indices outside are recognised"); CHECK(m.size() == L, "size"); ASSUME(in); CHECK(m.to_data_index(i) == i && m.to_index(i) == i, "index and position"); auto p = m[i], q = m(i); CHECK(p.index() == i && p.data_index() == i && q.index() == i && q.data_index() == i, "a mesh point knows its index and position"); CHECK(p.mesh_hash() == m.mesh_hash() && q.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); break; }
    case 1: { legendre m(2.0, st(), L); CHECK(m.is_index_valid(i) == in, "indices outside are recognised"); CHECK(m.size() == L && m.beta() == 2.0, "size"); ASSUME(in); CHECK(m.to_data_index(i) == i && m.to_index(i) == i, "index and position"); auto p = m[i], q = m(i); CHECK(p.index() == i && p.data_index() == i && q.index() == i && q.data_index() == i, "a mesh point knows its index and position"); CHECK(p.mesh_hash() == m.mesh_hash() && q.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); break; }
    case 2: { long l = s_pick("l", 1, 4); refreq m(-1, 1, l); CHECK(m.is_index_valid(i) == ((0 <= i) & (i < l)), "indices outside are recognised"); break; }
    case 3: { long l = s_pick("l", 1, 4); imtime m(3, Boson, l); CHECK(m.is_index_valid(i) == ((0 <= i) & (i < l)), "indices outside are recognised"); break; } } }
template <typename M, typename F> void iterate(M const &m, F &&f) { long n = 0; for (auto const &p : m) { CHECK(p.data_index() == n && p.index() == m.to_index(n), "iteration visits the positions in order"); CHECK(m.to_data_index(p.index()) == n, "index and position"); CHECK(p.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); f(n, p); n++; } CHECK(n == m.size(), "iteration visits every position"); }
ENTRY(h_iterate) { long L = s_pick("L", 0, 4); auto none = [](long, auto const &) {}; double a = s_real("a", -10, 0), b = s_real("b", 0.5, 10); switch (s_pick("mesh", 0, 5)) { case 0: iterate(discrete(L), none); break; case 1: iterate(legendre(b, st(), L), none); break; case 2: { refreq m(a, b, L); iterate(m, [&](long n, auto const &p) { CLOSE(p.value(), m.to_value(n), "values in order"); }); break; } case 3: { retime m(a, b, L); iterate(m, [&](long n, auto const &p) { CLOSE(p.value(), m.to_value(n), "values in order"); }); break; } case 4: { imtime m(b, st(), L); iterate(m, [&](long n, auto const &p) { CLOSE(p.value(), m.to_value(n), "values in order"); }); break; }
    case 5: { if (L == 0) __sym_stop(); auto s = st(); bool pos = s_flag("positive"); imfreq m(b, s, L, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies); long first = pos ? 0 : s == Fermion ? -L : 1 - L; iterate(m, [&](long n, auto const &p) { CHECK(p.n == first + n && p.index() == first + n, "values in order"); CHECK(p.beta == b && p.statistic == s, "frequencies of this mesh"); }); break; } } }
// ---------------------------------------------------------------- closest point and interpolation
template <typename M> void closest(M const &m, double x) { auto c = closest_mesh_pt(x); long k = m.to_index(c); CHECK(0 <= k && k < m.size(), "the closest point is in the mesh"); if (k < 0 || k >= m.size()) __sym_stop(); CHECK(m.to_data_index(c) == k && m[c].index() == k, "the closest point is in the mesh"); double d = m.to_value(k) - x; for (long j = 0; j < m.size(); j++) { double e = m.to_value(j) - x; CHECK((d <= e + 1e-7) | (d <= -e + 1e-7), "no mesh point is closer"); CHECK((-d <= e + 1e-7) | (-d <= -e + 1e-7), "no mesh point is closer"); } }
ENTRY(h_closest) { int w = s_pick("window", 0, 5); double a = win[w][0], b = win[w][1]; long L = s_pick("L", 1, 5); double x = s_real("x", a, b); closest(refreq(a, b, L), x); if (a == 0) closest(imtime(b, Fermion, L), x); }
ENTRY(h_closest_window) { double a = s_real("a", -8, 0), b = s_real("b", 1, 8); double t = s_real("t", 0, 1); closest(retime(a, b, s_pick("L", 1, 2)), a + t * (b - a)); }
ENTRY(h_degenerate) { double a = s_real("a", -8, 8); long L = s_pick("L", 1, 3); refreq m(a, a, L); long k = m.to_index(closest_mesh_pt(a)); CHECK(0 <= k && k < L, "the closest point is in the mesh"); CHECK(m.to_value(k) == a, "the only value"); if (L > 1) { double f = s_real("f", -9, 9); int bad = 0; double r = evaluate(m, [&](long i) { if (i < 0 || i >= L) bad++; return f; }, a); CHECK(!bad, "only values on the mesh are used"); CLOSE(r, f, "the value at a mesh point"); } }
#ifdef THOROUGH
static const long LM = 7;
#else
static const long LM = 4;
#endif
template <typename M> void interpolate(M const &m, double x) { long L = m.size(); double f[8]; for (long i = 0; i < L; i++) f[i] = s_real("f", -100, 100); int bad = 0; auto g = [&](long i) { if (i < 0 || i >= L) { bad++; return 0.0; } return f[i]; }; double r = evaluate(m, g, x); CHECK(!bad, "only values on the mesh are used"); double d = m.to_value(1) - m.to_value(0); bool ok = false;
  for (long i = 0; i + 1 < L; i++) { double u = x - m.to_value(i); double e = r * d - (f[i] * (d - u) + f[i + 1] * u); ok = ok | ((u >= 0) & (u <= d) & (e < 1e-5) & (e > -1e-5)); } CHECK(ok, "linear interpolation between the neighbouring points"); }
ENTRY(h_interpolate) { int w = s_pick("window", 0, 5); double a = win[w][0], b = win[w][1]; long L = s_pick("L", 2, LM); double x = s_real("x", a, b); interpolate(refreq(a, b, L), x); }
ENTRY(h_interpolate_points) { double a = s_real("a", -8, 0), b = s_real("b", 1, 8); long L = s_pick("L", 2, 4), k = s_pick("k", 0, 3); if (k >= L) __sym_stop(); double f[4] = {s_real("f"), s_real("f"), s_real("f"), s_real("f")}; auto g = [&](long i) { return f[i]; }; switch (s_pick("mesh", 0, 2)) { case 0: { refreq m(a, b, L); CLOSE(evaluate(m, g, m[k]), f[k], "the value at a mesh point"); break; } case 1: { retime m(a, b, L); CLOSE(evaluate(m, g, m[k]), f[k], "the value at a mesh point"); break; } case 2: { imtime m(b, Boson, L); CLOSE(evaluate(m, g, m[k]), f[k], "the value at a mesh point"); break; } } }
// floating point: every double of the window
static void fp(double a, double b, long L) { refreq m(a, b, L); double x = s_real("x", a, b); long k = m.to_index(closest_mesh_pt(x)); CHECK(0 <= k && k < L, "the closest point is in the mesh"); long used[2] = {-1, -1}; int n = 0; double r = evaluate(m, [&](long i) { if (n < 2) used[n] = i; n++; return n == 1 ? 1.0 : 0.0; }, x); CHECK(n == 2 && used[0] >= 0 && used[1] == used[0] + 1 && used[1] < L, "only values on the mesh are used"); CHECK((r >= 0) & (r <= 1), "weights lie in [0,1]"); CHECK((x < b) | (used[1] == L - 1), "the last interval holds the end"); CHECK((x > a) | ((used[0] == 0) & (r == 1)), "the first point is exact"); }
ENTRY(h_fp_10) { fp(0, 10, 4); } // irsym: thorough-only --fp
ENTRY(h_fp_unit) { fp(0, 1, 3); } // irsym: --fp
ENTRY(h_fp_third) { fp(-1.0 / 3, 1.0 / 3, 8); } // irsym: thorough-only --fp
ENTRY(h_fp_small) { fp(0.1, 0.7, 3); } // irsym: thorough-only --fp
// ---------------------------------------------------------------- Matsubara frequencies
static imfreq::option opt(bool pos) { return pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies; }
ENTRY(h_imfreq) { long n = s_int("n_iw", 1, 1l << 40), i = s_int("i", -(1l << 60), 1l << 60); auto s = st(); bool pos = s_flag("positive"); double beta = s_real("beta", 0.1, 100); imfreq m(beta, s, n, opt(pos)); long first = pos ? 0 : s == Fermion ? -n : 1 - n; CHECK(m.first_index() == first && m.last_index() == n - 1, "n_iw non-negative frequencies, and as many negative ones as the statistic has"); CHECK(m.size() == n - first, "size"); CHECK(m.positive_only() == pos && m.beta() == beta && m.statistic() == s, "parameters"); bool in = (first <= i) & (i < n); CHECK(m.is_index_valid(i) == in, "indices outside are recognised"); CHECK(m.eval_to_zero(i) == !in && m.eval_to_zero(matsubara_freq(i, beta, s)) == !in, "functions vanish outside of the mesh"); ASSUME(in); long d = m.to_data_index(i); CHECK(d == i - first, "index and position"); CHECK(0 <= d && d < m.size(), "positions fill the storage"); CHECK(m.to_index(d) == i, "index and position"); CHECK(m.to_data_index(matsubara_freq(i, beta, s)) == d, "position of a frequency");
  auto p = m(i), q = m[d]; CHECK(p.index() == i && p.data_index() == d && q.index() == i && q.data_index() == d, "a mesh point knows its index and position"); CHECK(p.mesh_hash() == m.mesh_hash() && q.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); auto v = m.to_value(i), w = m.index_to_freq(i); CHECK(v.n == i && v.beta == beta && v.statistic == s && w.n == i && w.beta == beta && w.statistic == s && p.value().n == i, "value"); auto c = closest_mesh_pt(matsubara_freq(i, beta, s)); CHECK(m.to_index(c) == i && m.to_data_index(c) == d && m[c].index() == i, "the closest point to a frequency is that frequency"); long seen = -1; (void)evaluate(m, [&](long k) { seen = k; return 0; }, matsubara_freq(i, beta, s)); CHECK(seen == i, "functions are evaluated at the index of the frequency");
  auto h = m.get_positive_freq(); CHECK(h.positive_only() && h.first_index() == 0 && h.last_index() == n - 1 && h.beta() == beta && h.statistic() == s, "the positive frequencies of a mesh"); CHECK((h == m) == pos, "meshes are equal iff their parameters are"); }
ENTRY(h_imfreq_window) { int k = s_pick("beta", 0, 2); double beta = k == 0 ? 1 : k == 1 ? PI : 20; double units = s_real("window", 0, 9); auto s = st(); double w = units * PI / beta; imfreq m(beta, s, energy_t{w}); long n = m.last_index() + 1; double step = 2 * PI / beta, last = (2 * (n - 1) + (s == Fermion)) * PI / beta; CHECK(n >= 0, "size"); CHECK((n == 0) | (last <= w + 1e-7), "no frequency beyond the window"); CHECK(last + 2.5 * step >= w - 1e-7, "the frequencies fill the window, up to the last ones"); }
ENTRY(h_equal) { long n1 = s_int("n", 1, 1000), n2 = s_int("n", 1, 1000); auto s1 = st("s"), s2 = st("s"); bool p1 = s_flag("p"), p2 = s_flag("p"); double b1 = s_real("beta", 1, 9), b2 = s_real("beta", 1, 9); imfreq a(b1, s1, n1, opt(p1)), b(b2, s2, n2, opt(p2)); bool eq = (b1 == b2) & (s1 == s2) & (n1 == n2) & (p1 == p2); CHECK((a == b) == eq, "meshes are equal iff their parameters are"); CHECK((a != b) == !eq, "meshes are equal iff their parameters are"); discrete d(n1), e(n2); CHECK((d == e) == (n1 == n2), "meshes are equal iff their parameters are"); }
ENTRY(h_equal_linear) { long n1 = s_pick("n", 1, 3), n2 = s_pick("n", 1, 3); double a1 = s_real("a", -9, 0), a2 = s_real("a", -9, 0), b1 = s_real("b", 1, 9), b2 = s_real("b", 1, 9); bool same = s_flag("same"); if (same) { ASSUME((a1 == a2) & (b1 == b2)); CHECK((refreq(a1, b1, n1) == refreq(a2, b2, n1)) && (retime(a1, b1, n2) == retime(a2, b2, n2)), "meshes of equal parameters are equal"); CHECK(imtime(b1, Fermion, n1) == imtime(b2, Fermion, n1) && imtime(b1, Fermion, n1) != imtime(b2, Boson, n1), "meshes are equal iff their parameters are"); legendre x(b1, Boson, n1), y(b2, Boson, n2); CHECK((x == y) == (n1 == n2), "meshes are equal iff their parameters are"); } else { ASSUME((a1 < a2) | (b1 < b2) | (n1 != n2)); CHECK(refreq(a1, b1, n1) != refreq(a2, b2, n2), "meshes of different parameters differ"); CHECK(retime(a1, b1, n1) != retime(a2, b2, n2), "meshes of different parameters differ"); ASSUME((b1 < b2) | (n1 != n2)); CHECK(imtime(b1, Fermion, n1) != imtime(b2, Fermion, n2), "meshes of different parameters differ"); CHECK(legendre(b1, Fermion, n1) != legendre(b2, Fermion, n2), "meshes of different parameters differ"); } }
// ---------------------------------------------------------------- Legendre
ENTRY(h_legendre_eval) { double beta = s_real("beta", 0.5, 20), tau = s_real("t", 0, 1) * beta; long L = s_pick("L", 1, 4); legendre m(beta, st(), L); double f[4] = {s_real("f", -50, 50), s_real("f", -50, 50), s_real("f", -50, 50), s_real("f", -50, 50)}; double x = 2 * tau / beta - 1, P[4] = {1, x, (3 * x * x - 1) / 2, (5 * x * x * x - 3 * x) / 2}, w[4] = {1, 1.7320508075688772, 2.23606797749979, 2.6457513110645907}, r = 0; for (long l = 0; l < L; l++) r += w[l] * f[l] * P[l]; CLOSE(evaluate(m, [&](long l) { return f[l]; }, tau) * beta, r, "the Legendre series"); }
// ---------------------------------------------------------------- storage
template <typename M, typename F> void stored(M const &m, F &&same) { ::h5::file f("x.h5", 'w'); ::h5::group g(f); h5_write(g, "m", m); M r; h5_read(g, "m", r); CHECK(r == m, "a stored mesh is read back"); CHECK(r.mesh_hash() == m.mesh_hash() && r.size() == m.size(), "a stored mesh is read back"); same(r); }
ENTRY(h_h5) { long n = s_pick("n", 1, 4); double a = s_real("a", -9, 0), b = s_real("b", 1, 9); auto s = st(); bool pos = s_flag("positive"); switch (s_pick("mesh", 0, 5)) { case 0: stored(imfreq(b, s, n, opt(pos)), [&](auto const &r) { CHECK(r.last_index() == n - 1 && r.positive_only() == pos && r.statistic() == s && r.beta() == b, "a stored mesh is read back"); }); break; case 1: stored(imtime(b, s, n), [&](auto const &r) { CHECK(r.statistic() == s && r.beta() == b, "a stored mesh is read back"); CLOSE(r.to_value(n - 1), n == 1 ? 0 : b, "a stored mesh is read back"); }); break; case 2: stored(refreq(a, b, n), [&](auto const &r) { CHECK(r.w_min() == a && r.w_max() == b, "a stored mesh is read back"); }); break; case 3: stored(retime(a, b, n), [&](auto const &r) { CHECK(r.t_min() == a && r.t_max() == b, "a stored mesh is read back"); }); break; case 4: stored(legendre(b, s, n), [&](auto const &r) { CHECK(r.beta() == b && r.statistic() == s, "a stored mesh is read back"); }); break; case 5: stored(discrete(n), [](auto const &) {}); break; } }
ENTRY(h_h5_any) { long n = s_int("n", 1, 1l << 20); auto s = st(); bool pos = s_flag("positive"); imfreq m(7, s, n, opt(pos)); ::h5::file f("x.h5", 'w'); ::h5::group g(f); h5_write(g, "m", m); imfreq r; h5_read(g, "m", r); CHECK(r == m && r.first_index() == m.first_index() && r.last_index() == m.last_index(), "a stored mesh is read back"); }
// ---------------------------------------------------------------- adjoint meshes
ENTRY(h_adjoint) { long n = s_int("n", 1, 1l << 20); double beta = s_real("beta", 0.5, 20); auto s = st(); bool pos = s_flag("positive"); imfreq m(beta, s, n, opt(pos)); if (s_flag("freq")) { long k = s_pick("n_tau", 2, 3); auto t = make_adjoint_mesh(m, k); CHECK(t.size() == k && t.beta() == beta && t.statistic() == s, "the imaginary-time mesh of the same beta and statistic"); auto f = make_adjoint_mesh(t, n); CHECK(f == imfreq(beta, s, n), "the frequency mesh of the same beta and statistic"); } }
ENTRY(h_adjoint_default) { long n = s_pick("n", 1, 4); double beta = s_real("beta", 0.5, 20); auto s = st(); imfreq m(beta, s, n); auto t = make_adjoint_mesh(m); CHECK(t.beta() == beta && t.statistic() == s, "the imaginary-time mesh of the same beta and statistic"); CHECK(t.size() > 2 * n, "enough times for the frequencies"); CHECK(make_adjoint_mesh(t) == m, "adjoint of the adjoint"); }
ENTRY(h_adjoint_real) { long L = s_pick("L", 2, 4); double a = s_real("a", -9, 0), b = s_real("b", 1, 9); bool sh = s_flag("shift"); refreq w(a, b, L); auto t = make_adjoint_mesh(w, sh); CHECK(t.size() == L, "as many times as frequencies"); CLOSE(t.delta() * w.delta() * L, 2 * PI, "steps of a Fourier pair"); CLOSE(t.t_min() + t.t_max(), sh ? t.delta() : 0.0, "symmetric around zero, up to half a bin"); auto w2 = make_adjoint_mesh(t, false); CHECK(w2.size() == L, "as many times as frequencies"); CLOSE(w2.delta() * t.delta() * L, 2 * PI, "steps of a Fourier pair"); CLOSE(w2.w_min() + w2.w_max(), 0, "symmetric around zero, up to half a bin"); auto w3 = make_adjoint_mesh(t, true); CLOSE(w3.w_min() + w3.w_max(), w3.delta(), "symmetric around zero, up to half a bin"); }
// ---------------------------------------------------------------- DLR
namespace C = cppdlr::stub;
static double kt[4][2], ktr[4]; static int nkt; static double k_it(double t, double om) { if (nkt < 4) { kt[nkt][0] = t; kt[nkt][1] = om; ktr[nkt] = s_real("k", -5, 5); } return ktr[nkt++ & 3]; }
static long kfn[4]; static double kfo[4]; static int kfs[4], nkf; static std::complex<double> kfr[4]; static std::complex<double> k_if(int n, double om, int s) { if (nkf < 4) { kfn[nkf] = n; kfo[nkf] = om; kfs[nkf] = s; kfr[nkf] = {s_real("kr", -5, 5), s_real("ki", -5, 5)}; } return kfr[nkf++ & 3]; }
static void nodes(int n) { C::n = n; C::k_it = k_it; C::k_if = k_if; nkt = nkf = 0; for (int i = 0; i < n; i++) { C::rf[i] = s_real("rf", -90, 90); C::it[i] = s_real("it", -0.5, 0.5); C::ifn[i] = s_int("if", -1000, 1000); } }
template <typename M> void dlr_index(M const &m, int n) { CHECK(m.size() == n, "size"); long i = s_int("i", -(1l << 60), 1l << 60); bool in = (0 <= i) & (i < n); CHECK(m.is_index_valid(i) == in, "indices outside are recognised"); ASSUME(in); CHECK(m.to_data_index(i) == i && m.to_index(i) == i, "index and position"); long k = (long)__sym_conc(i); auto p = m[k], q = m(k); CHECK(p.data_index() == k && q.data_index() == k, "a mesh point knows its index and position"); if constexpr (!std::is_same_v<M, dlr_imfreq>) CHECK(p.index() == k && q.index() == k, "a mesh point knows its index and position"); /* a point of dlr_imfreq gives the Matsubara index */ CHECK(p.mesh_hash() == m.mesh_hash() && q.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); long c = 0; for (auto const &x : m) { CHECK(x.data_index() == c, "iteration visits the positions in order"); c++; } CHECK(c == n, "iteration visits every position"); }
ENTRY(h_dlr) { int n = s_pick("n", 1, 3); double beta = s_real("beta", 0.5, 20), wmax = s_real("w_max", 0.5, 20); auto s = st(); nodes(n); switch (s_pick("mesh", 0, 2)) {
    case 0: { dlr m(beta, s, wmax, 1e-10); dlr_index(m, n); for (int i = 0; i < n; i++) { CHECK(m.to_value(i) == C::rf[i] && m[i].value() == C::rf[i], "the values are the DLR frequencies"); } CHECK(m.beta() == beta && m.statistic() == s && m.w_max() == wmax && m.eps() == 1e-10, "parameters"); break; }
    case 1: { dlr_imtime m(beta, s, wmax, 1e-10); dlr_index(m, n); for (int i = 0; i < n; i++) { double v = (C::it[i] < 0 ? 1 + C::it[i] : C::it[i]) * beta; CLOSE(m.to_value(i), v, "the values are the DLR times in [0, beta]"); CLOSE(m[i].value(), v, "the values are the DLR times in [0, beta]"); CHECK((m.to_value(i) >= 0) & (m.to_value(i) <= beta), "the values are the DLR times in [0, beta]"); } CHECK(m.beta() == beta && m.statistic() == s && m.w_max() == wmax && m.eps() == 1e-10, "parameters"); break; }
    case 2: { dlr_imfreq m(beta, s, wmax, 1e-10); dlr_index(m, n); for (int i = 0; i < n; i++) { auto v = m.to_value(i); CHECK(v.n == C::ifn[i] && v.beta == beta && v.statistic == s, "the values are the DLR frequencies"); auto p = m[i]; CHECK(p.value().n == C::ifn[i] && p.value().beta == beta && p.value().statistic == s, "the values are the DLR frequencies"); } CHECK(m.beta() == beta && m.statistic() == s && m.w_max() == wmax && m.eps() == 1e-10, "parameters"); break; } }
  CLOSE(C::lambda, beta * wmax, "the basis is built for the cutoff beta w_max"); CHECK(C::builds == 1 && C::eps == 1e-10, "the basis is built once"); C::builds = 0; }
ENTRY(h_dlr_convert) { int n = s_pick("n", 1, 2); double beta = s_real("beta", 0.5, 20), wmax = s_real("w_max", 0.5, 20); auto s = st(); nodes(n); dlr_imtime t(beta, s, wmax, 1e-10); dlr_imfreq f(t); dlr d(t); dlr_imtime t2(f), t3(d); dlr_imfreq f2(d); dlr d2(f); C::builds = 0; CHECK(t2 == t && t3 == t && f2 == f && d2 == d, "conversions between the DLR meshes invert"); CHECK(f.beta() == beta && f.statistic() == s && f.w_max() == wmax && f.eps() == 1e-10 && f.size() == n && d.beta() == beta && d.statistic() == s && d.w_max() == wmax && d.eps() == 1e-10 && d.size() == n, "conversions keep the parameters"); for (int i = 0; i < n; i++) { CHECK(f.to_value(i).n == C::ifn[i] && d.to_value(i) == C::rf[i], "conversions keep the basis"); CLOSE(t2.to_value(i), t.to_value(i), "conversions keep the basis"); } CHECK(make_adjoint_mesh(t) == f && make_adjoint_mesh(f) == t, "the adjoint is the other representation");
  stored(t, [&](auto const &r) { CHECK(r.to_value(0) == t.to_value(0) && r.statistic() == s && r.beta() == beta && r.w_max() == wmax, "a stored mesh is read back"); }); stored(f, [&](auto const &r) { CHECK(r.to_value(0).n == C::ifn[0] && r.statistic() == s && r.beta() == beta, "a stored mesh is read back"); }); stored(d, [&](auto const &r) { CHECK(r.to_value(0) == C::rf[0] && r.statistic() == s && r.beta() == beta, "a stored mesh is read back"); }); }
ENTRY(h_dlr_eval) { int n = s_pick("n", 1, 3); double beta = 5; auto s = st(); nodes(n); dlr m(beta, s, 2.0, 1e-10); double f[3] = {s_real("f", -9, 9), s_real("f", -9, 9), s_real("f", -9, 9)}; auto g = [&](long l) { return f[l]; };
  if (s_flag("time")) { double tau = s_real("tau", 0, 5); double r = evaluate(m, g, tau), w = 0; CHECK(nkt == n, "one kernel per DLR frequency"); for (int i = 0; i < n; i++) { w += f[i] * ktr[i]; CLOSE(kt[i][0] * beta, tau, "the kernel takes tau/beta"); CHECK(kt[i][1] == C::rf[i], "the kernel takes the DLR frequencies in order"); } CLOSE(r, w, "the DLR expansion"); }
  else { long k = s_int("n", -1000, 1000); std::complex<double> r = evaluate(m, g, matsubara_freq(k, beta, s)), w = 0; CHECK(nkf == n, "one kernel per DLR frequency"); for (int i = 0; i < n; i++) { w += f[i] * kfr[i]; CHECK(kfn[i] == k && kfs[i] == (int)s, "the kernel takes the Matsubara index and the statistic"); CHECK(kfo[i] == C::rf[i], "the kernel takes the DLR frequencies in order"); } CLOSEC(r, w * beta, "the DLR expansion"); } }
template <typename M> void dlr_eq(double b1, double w1, statistic_enum s1, double b2, double w2, statistic_enum s2) { M x(b1, s1, w1, 1e-10), y(b2, s2, w2, 1e-10); CHECK((x == y) == ((b1 == b2) & (w1 == w2) & (s1 == s2)), "meshes are equal iff their parameters are"); CHECK((x != y) == !(x == y), "meshes are equal iff their parameters are"); }
ENTRY(h_dlr_equal) { nodes(1); double v[3] = {2, 3, 5}; double b1 = v[s_pick("b", 0, 2)], w1 = v[s_pick("w", 0, 2)], b2 = v[s_pick("b", 0, 2)], w2 = v[s_pick("w", 0, 2)]; auto s1 = st("s"), s2 = st("s"); switch (s_pick("mesh", 0, 2)) { case 0: dlr_eq<dlr>(b1, w1, s1, b2, w2, s2); break; case 1: dlr_eq<dlr_imtime>(b1, w1, s1, b2, w2, s2); break; case 2: dlr_eq<dlr_imfreq>(b1, w1, s1, b2, w2, s2); break; } }
