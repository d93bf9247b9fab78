// C22: periodic lattice meshes, Brillouin-zone meshes, product meshes and evaluation on them.
#include <triqs/mesh/cyclat.hpp>
#include <triqs/mesh/brzone.hpp>
#include <triqs/mesh/imfreq.hpp>
#include <triqs/mesh/refreq.hpp>
#include <triqs/mesh/discrete.hpp>
#include <triqs/mesh/prod.hpp>
#include <triqs/mesh/evaluate.hpp>
#include "sym.h"
using namespace triqs::mesh; using triqs::lattice::bravais_lattice; using triqs::lattice::brillouin_zone;
using ix = std::array<long, 3>; using vec = nda::vector<double>; using mat = nda::matrix<double>;
static const double PI = 3.14159265358979323846;
static mat matr(int n, std::vector<double> const &x) { mat m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = x[n * i + j]; return m; }
static bravais_lattice cell(int k) { switch (k) { case 0: return bravais_lattice(matr(3, {1, 0, 0, 0, 1, 0, 0, 0, 1})); case 1: return bravais_lattice(matr(3, {2, 0, 0, 0.5, 1, 0, -0.25, 0.5, 4})); case 2: return bravais_lattice(matr(2, {1, 0.5, 0, 2})); case 3: return bravais_lattice(matr(1, {2})); default: return bravais_lattice(matr(3, {0, 1, 1, 1, 0, 1, 1, 1, 0})); } }
#ifdef THOROUGH
static const long D = 4; static const long B = 1l << 20;
#else
static const long D = 3; static const long B = 1l << 13;
#endif
static ix dims() { if (D == 3) { static const ix t[] = {{1, 1, 1}, {3, 1, 2}, {2, 3, 3}, {1, 3, 2}, {2, 2, 1}, {3, 3, 2}}; return t[s_pick("dims", 0, 5)]; } return {s_pick("d", 1, D), s_pick("d", 1, 3), s_pick("d", 1, D)}; }
static ix some(const char *n, ix const &d) { ix i; for (int k = 0; k < 3; k++) i[k] = s_int(n, 0, d[k] - 1); return i; }
static bool eq(ix const &a, ix const &b) { return (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]); }
// ---------------------------------------------------------------- indices
template <typename M> void indices(M const &m, ix d) { long n = d[0] * d[1] * d[2]; CHECK(m.size() == n, "size"); CHECK(m.dims() == d, "dimensions"); ix i = {s_int("i", -B, B), s_int("i", -B, B), s_int("i", -B, B)}; bool in = true; for (int k = 0; k < 3; k++) in = in & (0 <= i[k]) & (i[k] < d[k]); CHECK(m.is_index_valid(i) == in, "indices outside are recognised");
  ix j = some("j", d); CHECK(eq(m.index_modulo(j), j), "folding keeps the indices of the mesh");
  long a = m.to_data_index(j); CHECK((0 <= a) & (a < n), "positions fill the storage"); ix b = m.to_index(a); CHECK(eq(b, j), "index and position"); ix l = some("l", d); CHECK((m.to_data_index(l) == a) == eq(l, j), "index and position"); long p = s_int("p", 0, n - 1); ix q = m.to_index(p); CHECK(m.is_index_valid(q), "index and position"); CHECK(m.to_data_index(q) == p, "index and position"); 
  auto P = m[p], Q = m(j); CHECK(eq(P.index(), q) && P.data_index() == p && eq(Q.index(), j) && Q.data_index() == a, "a mesh point knows its index and position"); CHECK(P.mesh_hash() == m.mesh_hash() && Q.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); }
template <typename M> void fold(M const &m, ix d, int axis) { ix i = {1, -1, 4}; i[axis] = s_int("i", -B, B); ix f = m.index_modulo(i); auto g = [](ix const &x) { return x; }; CHECK(eq(evaluate(m, g, i), f), "evaluation at an index uses the folded index"); CHECK(m.is_index_valid(f), "folding gives an index of the mesh"); for (int k = 0; k < 3; k++) { CHECK((0 <= f[k]) & (f[k] < d[k]), "folding gives an index of the mesh"); CHECK((i[k] - f[k]) % d[k] == 0, "folding is congruent to the index"); } }
static ix fdims() {
#ifndef THOROUGH
  static const ix q[] = {{3, 1, 5}, {2, 7, 4}}; return q[s_pick("dims", 0, 1)];
#endif
  int a = s_pick("dims", 0, 2); static const ix t[] = {{3, 1, 5}, {2, 3, 4}, {1, 2, 7}}; return t[a]; }
ENTRY(h_fold_cyclat) { ix d = fdims(); fold(cyclat(cell(0), d), d, s_pick("axis", 0, 2)); }
ENTRY(h_fold_brzone) { ix d = fdims(); fold(brzone(brillouin_zone(cell(0)), d), d, s_pick("axis", 0, 2)); }
ENTRY(h_cyclat) { ix d = dims(); indices(cyclat(cell(0), d), d); }
ENTRY(h_brzone) { ix d = dims(); indices(brzone(brillouin_zone(cell(0)), d), d); }
template <typename M, typename L> void build(L const &l, int nd, long n) { ix w = {n, nd >= 2 ? n : 1, nd >= 3 ? n : 1}; M m(l, n); CHECK(m.dims() == w, "a mesh of equal extents"); nda::matrix<long> p(3, 3); p() = 0; for (int k = 0; k < 3; k++) p(k, k) = w[k]; M q(l, p); CHECK(q.dims() == w && q == m, "a mesh from a periodization matrix"); int a = s_pick("a", 0, 2), b = s_pick("b", 0, 2); if (a == b) return; long x = s_int("off", -3, 3); p(a, b) = x; bool t = throws([&] { M r(l, p); }); CHECK(t == (x != 0), "non-diagonal periodization matrices are rejected"); }
ENTRY(h_build) { int c = s_pick("cell", 1, 3); long n = s_pick("n", 1, 3); auto l = cell(c); if (s_flag("cyclat")) build<cyclat>(l, l.ndim(), n); else build<brzone>(brillouin_zone(l), l.ndim(), n); }
template <typename M> void iterate(M const &m) { long n = 0; for (auto const &p : m) { CHECK(p.data_index() == n && eq(p.index(), m.to_index(n)), "iteration visits the positions in order"); CHECK(p.mesh_hash() == m.mesh_hash(), "a mesh point knows its mesh"); n++; } CHECK(n == m.size(), "iteration visits every position"); }
ENTRY(h_iterate) { ix d = dims(); iterate(cyclat(d[0], d[1], d[2])); iterate(brzone(brillouin_zone(cell(0)), d)); }
ENTRY(h_equal) { static const ix t[] = {{1, 2, 3}, {3, 2, 1}, {2, 1, 3}, {2, 2, 2}, {1, 2, 4}, {2, 3, 2}}; ix d = t[s_pick("d", 0, 5)], e = t[s_pick("e", 0, 5)]; int c = s_pick("cell", 0, 1); cyclat a(cell(0), d), b(cell(c), e); bool same = d == e && c == 0; CHECK((a == b) == same && (a != b) == !same, "meshes are equal iff their lattice and extents are"); brzone x(brillouin_zone(cell(0)), d), y(brillouin_zone(cell(c)), e); CHECK((x == y) == same && (x != y) == !same, "meshes are equal iff their lattice and extents are"); }
ENTRY(h_h5) { ix d = dims(); int c = s_pick("cell", 0, 3); cyclat a(cell(c), d); brzone b(brillouin_zone(cell(c)), d); ::h5::file f("x.h5", 'w'); ::h5::group g(f); h5_write(g, "a", a); h5_write(g, "b", b); cyclat r; brzone s; h5_read(g, "a", r); h5_read(g, "b", s); CHECK(r == a && r.dims() == d && r.lattice() == a.lattice() && r.size() == a.size() && r.mesh_hash() == a.mesh_hash(), "a stored mesh is read back"); CHECK(s == b && s.dims() == d && s.bz() == b.bz() && s.size() == b.size() && s.mesh_hash() == b.mesh_hash(), "a stored mesh is read back"); }
// ---------------------------------------------------------------- values
static void vclose(vec const &a, double const *b, const char *id) { CHECK(a.size() == 3, id); for (int k = 0; k < 3; k++) __sym_assert_close(a(k), b[k], 1e-7, id); }
ENTRY(h_cyclat_value) { int c = s_pick("cell", 0, 4); ix d = {2, 3, 2}; if (c == 2) d[2] = 1; if (c == 3) d[1] = d[2] = 1; auto l = cell(c); cyclat m(l, d); long p = s_pick("p", 0, 11); if (p >= m.size()) return; auto P = m[p]; ix i = P.index(); double w[3] = {0, 0, 0}; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) w[b] += i[a] * l.units()(a, b); vclose(vec(P.value()), w, "the value is the lattice vector"); vclose(vec(m.to_value(i)), w, "the value is the lattice vector"); for (int b = 0; b < 3; b++) __sym_assert_close(P[b], w[b], 1e-9, "the value is the lattice vector"); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) CHECK(m.units()(a, b) == l.units()(a, b), "units"); 
  auto Q = m[s_pick("q", 0, 3) % m.size()]; auto s = P + Q, t = P - Q, u = -P; for (int k = 0; k < 3; k++) CHECK(s.index()[k] == i[k] + Q.index()[k] && t.index()[k] == i[k] - Q.index()[k] && u.index()[k] == -i[k], "lattice vectors are added by index"); auto g = [](ix const &x) { return x; }; CHECK(evaluate(m, g, s) == m.index_modulo(s.index()) && evaluate(m, g, t) == m.index_modulo(t.index()) && evaluate(m, g, u) == m.index_modulo(u.index()), "evaluation at a lattice vector folds it"); CHECK(m.to_index(closest_mesh_pt(P.value())) == i && m.to_data_index(closest_mesh_pt(P.value())) == p, "the closest point to a lattice vector is that vector"); }
ENTRY(h_brzone_value) { int c = s_pick("cell", 0, 4); ix d = {2, 3, 2}; if (c == 2) d[2] = 1; if (c == 3) d[1] = d[2] = 1; auto l = cell(c); brillouin_zone z(l); brzone m(z, d); long p = s_pick("p", 0, 11); if (p >= m.size()) return; auto P = m[p]; ix i = P.index(); double w[3] = {0, 0, 0}; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) w[b] += double(i[a]) / d[a] * z.units()(a, b); vclose(P.value(), w, "the value is the fraction of the reciprocal vectors"); vclose(m.to_value(i), w, "the value is the fraction of the reciprocal vectors"); for (int b = 0; b < 3; b++) __sym_assert_close(P[b], w[b], 1e-9, "the value is the fraction of the reciprocal vectors"); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) __sym_assert_close(m.units()(a, b) * d[a], z.units()(a, b), 1e-9, "units");
  auto Q = m[s_pick("q", 0, 3) % m.size()]; ix j = Q.index(); long n = s_int("n", -5, 5); auto chk = [&](auto const &e, ix k, const char *id) { ix f = m.index_modulo(k); CHECK(e.index() == k, id); CHECK(m.to_data_index(e) == m.to_data_index(f), id); CHECK(e.mesh_hash() == m.mesh_hash(), id); }; chk(P + Q, {i[0] + j[0], i[1] + j[1], i[2] + j[2]}, "sum of momenta"); chk(P - Q, {i[0] - j[0], i[1] - j[1], i[2] - j[2]}, "difference of momenta"); chk(-P, {-i[0], -i[1], -i[2]}, "opposite momentum"); chk(n * P, {n * i[0], n * i[1], n * i[2]}, "multiple of a momentum"); chk(2l * P - (Q + Q), {2 * i[0] - 2 * j[0], 2 * i[1] - 2 * j[1], 2 * i[2] - 2 * j[2]}, "combination of momenta"); double x[3], y[3], u[3]; for (int k = 0; k < 3; k++) { x[k] = P.value()(k) + Q.value()(k); y[k] = P.value()(k) - Q.value()(k); u[k] = 3 * P.value()(k); } vclose(vec((P + Q).value()), x, "sum of momenta"); vclose(vec((P - Q).value()), y, "difference of momenta"); vclose(vec((3l * P).value()), u, "multiple of a momentum"); }
// ---------------------------------------------------------------- closest momentum and interpolation
static void closest(bravais_lattice const &l, ix d, vec const &k, int nd, bool all) { brillouin_zone z(l); brzone m(z, d); ix c = m.closest_index(k); for (int a = 0; a < 3; a++) CHECK((0 <= c[a]) & (c[a] < d[a]), "the closest point is in the mesh"); if (!m.is_index_valid(c)) __sym_stop(); CHECK(eq(m.to_index(closest_mesh_pt(k)), c) && m.to_data_index(closest_mesh_pt(k)) == m.to_data_index(c) && m[closest_mesh_pt(k)].data_index() == m.to_data_index(c), "the closest point is in the mesh");
  // the nearest image of the returned point is as close as any image of any other point
  const int R = all ? 2 : 1; auto best = [&](ix const &i) { double r = 1e9; for (int a = -R; a <= R; a++) for (int b = (nd > 1 ? -R : 0); b <= (nd > 1 ? R : 0); b++) { double s = 0; for (int q = 0; q < nd; q++) { double t = -k(q); for (int p = 0; p < nd; p++) t += (double(i[p]) / d[p] + (p == 0 ? a : b)) * z.units()(p, q); s += t * t; } if (s < r) r = s; } return r; };
  double rc = best(c); for (long a = 0; a < d[0]; a++) for (long b = 0; b < d[1]; b++) CHECK(rc <= best({a, b, 0}) + 1e-6, "no mesh point is closer"); }
ENTRY(h_closest_1d) { double x = s_real("x", -3.5, 6); vec k(3); k(0) = x; k(1) = 0; k(2) = 0; closest(cell(3), {s_pick("d", 1, 4), 1, 1}, k, 1, true); }
ENTRY(h_closest_2d) { double x = s_real("x", -1, 7), y = s_real("y", 0, 3); vec k(3); k(0) = x; k(1) = y; k(2) = 0; auto l = bravais_lattice(matr(2, {1, 0, 0, 2})); closest(l, {s_pick("d", 1, 2), s_pick("d", 1, 2), 1}, k, 2, false); }
ENTRY(h_closest_exact) { int c = s_pick("cell", 0, 4); ix d = {2, 3, 2}; if (c == 2) d[2] = 1; if (c == 3) d[1] = d[2] = 1; brillouin_zone z(cell(c)); brzone m(z, d); long p = s_pick("p", 0, 11); if (p >= m.size()) return; vec k = m[p].value(); { long G = s_pick("G", -1, 1); int a = s_pick("along", 0, z.ndim() - 1); for (int b = 0; b < 3; b++) k(b) += G * z.units()(a, b); } double e = s_real("e", -0.02, 0.02); int q = s_pick("axis", 0, z.ndim() - 1); k(q) += e; CHECK(m.to_data_index(closest_mesh_pt(k)) == p, "the closest point to a mesh point, up to a reciprocal vector, is that point"); }
ENTRY(h_interpolate) { int c = s_pick("cell", 2, 3); ix d = {s_pick("d", 1, 3), c == 2 ? s_pick("d", 1, 2) : 1, 1}; brillouin_zone z(cell(c)); brzone m(z, d); double f[9]; for (auto &x : f) x = s_real("f", -9, 9); double u[2] = {s_real("u", -1, 2), c == 2 ? s_real("u", -1, 1) : 0}; vec k(3); for (int b = 0; b < 3; b++) k(b) = (u[0] * z.units()(0, b) / d[0] + u[1] * z.units()(1, b) / d[1]); if (c == 3) { for (int b = 1; b < 3; b++) k(b) = 0; }
  int bad = 0; double r = evaluate(m, [&](ix const &i) { if (!m.is_index_valid(i)) { bad++; return 0.0; } return f[i[0] * 3 + i[1]]; }, k); CHECK(!bad, "only values on the mesh are used"); bool ok = false; for (int a = -1; a <= 2; a++) for (int b = -1; b <= 1; b++) { double s = u[0] - a, t = u[1] - b; auto F = [&](int p, int q) { return f[((a + p) % d[0] + d[0]) % d[0] * 3 + ((b + q) % d[1] + d[1]) % d[1]]; }; double w = (1 - s) * (1 - t) * F(0, 0) + s * (1 - t) * F(1, 0) + (1 - s) * t * F(0, 1) + s * t * F(1, 1); ok = ok | ((s >= -1e-9) & (s <= 1 + 1e-9) & (t >= -1e-9) & (t <= 1 + 1e-9) & (r <= w + 1e-5) & (w <= r + 1e-5)); } CHECK(ok, "linear interpolation between the neighbouring momenta, periodic in the zone"); }
ENTRY(h_interpolate_points) { int c = s_pick("cell", 0, 4); ix d = {2, 3, 2}; if (c == 2) d[2] = 1; if (c == 3) d[1] = d[2] = 1; brillouin_zone z(cell(c)); brzone m(z, d); long p = s_pick("p", 0, 11); if (p >= m.size()) return; double f[12]; for (auto &x : f) x = s_real("f", -9, 9); CLOSE(evaluate(m, [&](ix const &i) { return f[m.to_data_index(i)]; }, m[p]), f[p], "the value at a mesh point"); CLOSE(evaluate(m, [&](ix const &i) { return f[m.to_data_index(i)]; }, m[p].value()), f[p], "the value at a mesh point"); }
// ---------------------------------------------------------------- products
using P3 = prod<imfreq, discrete, cyclat>;
ENTRY(h_prod) { long n = s_int("n", 1, 1l << 20), L = s_int("L", 1, 1l << 20); ix d = {2, 3, 1}; imfreq a(2.0, s_flag("s") ? Fermion : Boson, n); discrete b(L); cyclat c(cell(0), d); P3 m(a, b, c); CHECK(m.size() == a.size() * L * 6, "the size of a product"); auto z = m.size_of_components(); CHECK(z[0] == a.size() && z[1] == L && z[2] == 6, "the sizes of the components"); long i = s_int("i", a.first_index(), a.last_index()), j = s_int("j", 0, L - 1); ix k = some("k", d); std::tuple<long, long, ix> idx(i, j, k); auto da = m.to_data_index(idx); CHECK(std::get<0>(da) == a.to_data_index(i) && std::get<1>(da) == j && std::get<2>(da) == c.to_data_index(k), "the position is that of the components"); auto ii = m.to_index(da); CHECK(std::get<0>(ii) == i && std::get<1>(ii) == j && eq(std::get<2>(ii), k), "index and position");
  auto p = m(idx), q = m[da]; for (auto const *x : {&p, &q}) { CHECK(std::get<0>(x->index()) == i && std::get<1>(x->index()) == j && eq(std::get<2>(x->index()), k), "a mesh point knows its index and position"); CHECK(x->data_index() == da, "a mesh point knows its index and position"); CHECK(std::get<0>(*x).n == i && std::get<1>(*x).index() == j && eq(std::get<2>(*x).index(), k), "the components of a mesh point"); CHECK(x->mesh_hash() == a.mesh_hash() + b.mesh_hash() + c.mesh_hash(), "a mesh point knows its mesh"); } CHECK(std::get<0>(m.components()) == a && std::get<1>(m.components()) == b && std::get<2>(m.components()) == c, "components"); }
ENTRY(h_prod_valid) { long n = s_int("n", 1, 1000), L = s_int("L", 1, 1000); ix d = {2, 3, 1}; imfreq a(2.0, Fermion, n); discrete b(L); cyclat c(cell(0), d); P3 m(a, b, c); long i = s_int("i", -2000, 2000), j = s_int("j", -10, 2000); ix k = {s_int("k", -1, 4), s_int("k", -1, 4), s_int("k", -1, 4)}; bool in = a.is_index_valid(i) & b.is_index_valid(j) & c.is_index_valid(k); CHECK(m.is_index_valid(i, j, k) == in, "an index is valid iff every component is"); }
ENTRY(h_prod_iterate) { long n = s_pick("n", 1, 2), L = s_pick("L", 0, 3); imfreq a(2.0, s_flag("s") ? Fermion : Boson, n); discrete b(L); refreq c(0, 1, s_pick("w", 1, 2)); auto m = a * b * c; static_assert(std::is_same_v<decltype(m), prod<imfreq, discrete, refreq>>); long t = 0, nb = b.size(), nc = c.size(); for (auto const &p : m) { auto [i, j, k] = p.data_index(); CHECK(i == t / (nb * nc) && j == t / nc % nb && k == t % nc, "iteration visits the positions in order, the last component first"); CHECK(std::get<0>(p.index()) == a.to_index(i), "a mesh point knows its index and position"); t++; } CHECK(t == m.size(), "iteration visits every position"); }
ENTRY(h_prod_build) { imfreq a(2.0, Fermion, 3), a2(2.0, Fermion, s_pick("n", 2, 3)); discrete b(2), b2(s_pick("L", 1, 2)); refreq c(0, 1, 3), c2(0, s_pick("w", 1, 2), 3); auto x = (a * b) * c, y = a2 * (b2 * c2); auto z = prod(a, b) * prod(c, a); bool same = a == a2 && b == b2 && c == c2; CHECK((x == y) == same && (x != y) == !same, "products are equal iff their components are"); CHECK(std::get<0>(z.components()) == a && std::get<1>(z.components()) == b && std::get<2>(z.components()) == c && std::get<3>(z.components()) == a, "products keep the order"); ::h5::file f("x.h5", 'w'); ::h5::group g(f); h5_write(g, "y", y); decltype(y) r; h5_read(g, "y", r); CHECK(r == y, "a stored mesh is read back"); }
ENTRY(h_prod_eval) { refreq a(0, 4, 3); discrete b(3); ix d = {3, 1, 1}; cyclat c(cell(0), d); auto m = prod(a, b, c); double x = s_real("x", 0, 4); long j = s_pick("j", 0, 2), k = s_pick("k", -4, 5); double F[3][3][3]; for (auto &u : F) for (auto &v : u) for (auto &w : v) w = s_real("F", -9, 9); auto f = [&](long p, long q, ix const &r) { return F[p][q][r[0]]; }; double r = evaluate(m, f, x, j, ix{k, 0, 0}); long kk = ((k % 3) + 3) % 3; long i = x < 2 ? 0 : 1; double w = (x - 2 * i) / 2; CLOSE(r, (1 - w) * F[i][j][kk] + w * F[i + 1][j][kk], "evaluation on a product evaluates each component"); }
ENTRY(h_prod_eval2) { refreq a(0, 4, 3), b(-1, 1, 2); auto m = prod(a, b); double x = s_real("x", 0, 4), y = s_real("y", -1, 1); double F[3][2]; for (auto &u : F) for (auto &v : u) v = s_real("F", -9, 9); auto f = [&](long p, long q) { return F[p][q]; }; double r = evaluate(m, f, x, y); long i = x < 2 ? 0 : 1; double w = (x - 2 * i) / 2, v = (y + 1) / 2; CLOSE(r, (1 - w) * ((1 - v) * F[i][0] + v * F[i][1]) + w * ((1 - v) * F[i + 1][0] + v * F[i + 1][1]), "evaluation on a product evaluates each component"); double s = evaluate(m, f, a[1], y); CLOSE(s, (1 - v) * F[1][0] + v * F[1][1], "evaluation on a product evaluates each component"); }
