// C25: Green's function containers of the C++ library: arithmetic, assignment, views, blocks.
#include <triqs/gfs.hpp>
#include "sym.h"
using namespace triqs; using namespace triqs::gfs; using namespace triqs::mesh;
using std::vector; using std::string; using C = dcomplex;
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } } // not reached
template <typename A> void fill(A &&a, const char *n) { for (long i = 0; i < a.size(); i++) { if constexpr (nda::is_complex_v<std::decay_t<decltype(a.flat(0))>>) a.flat(i) = s_cplx(n); else a.flat(i) = s_real(n); } }
template <typename G> G mk(typename G::mesh_t const &m, typename G::target_shape_t s, const char *n) { G g{m, s}; fill(g.data(), n); return g; }
template <typename A, typename B> void same(A const &a, B const &b, const char *id) { bool ok = a.shape() == b.shape(); CHECK(ok, id); if (!ok) __sym_stop(); for (long i = 0; i < a.size(); i++) CHECK(a.flat(i) == b.flat(i), id); }
template <typename T> auto copy(T const &a) { return nda::make_regular(a); }
using GM = gf<imfreq, matrix_valued>; using GS = gf<refreq, scalar_valued>; using GP = gf<prod<refreq, imtime>, scalar_valued>; using GT = gf<imtime, matrix_real_valued>; using G3 = gf<discrete, tensor_valued<3>>;
static imfreq wmesh() { bool f = s_flag("fermion"); return {2.0, f ? Fermion : Boson, s_pick("n_iw", 1, 2)}; }
// ---------------------------------------------------------------- pointwise arithmetic
template <typename G, typename Sh> void arithmetic(typename G::mesh_t const &m, Sh sh) { auto a = mk<G>(m, sh, "a"), b = mk<G>(m, sh, "b"); auto a0 = copy(a.data()), b0 = copy(b.data()); double s = s_real("s"); int op = s_pick("op", 0, 8); G r{m, sh}; fill(r.data(), "old"); bool into_view = s_flag("view");
  auto set = [&](auto &&e) { CHECK(e.mesh() == m, "mesh of an expression"); if (into_view) { auto v = r(); v = e; } else r = e; };
  switch (op) { case 0: set(a + b); break; case 1: set(a - b); break; case 2: set(s * a); break; case 3: set(a * s); break; case 4: ASSUME((s > 0.1) | (s < -0.1)); set(a / s); break; case 5: set(-a); break; case 6: set(a + b - s * a); break; case 7: set(-(a - b) * s); break; case 8: set(a - (b - a)); break; }
  CHECK(r.mesh() == m, "the result lives on the same mesh"); bool ok = r.data().shape() == a0.shape(); CHECK(ok, "shape of the result"); if (!ok) return;
  for (long i = 0; i < a0.size(); i++) { C x = a0.flat(i), y = b0.flat(i), e = op == 0 ? x + y : op == 1 ? x - y : op == 2 || op == 3 ? s * x : op == 4 ? x / s : op == 5 ? -x : op == 6 ? x + y - s * x : op == 7 ? s * (y - x) : x - (y - x); CLOSEC(C(r.data().flat(i)), e, "arithmetic acts at every mesh point and on every component"); }
  same(a.data(), a0, "operands are not modified"); same(b.data(), b0, "operands are not modified"); }
ENTRY(h_arithmetic) { switch (s_pick("function", 0, 4)) { case 0: arithmetic<GM>(wmesh(), std::array<long, 2>{s_pick("rows", 1, 2), s_pick("columns", 1, 2)}); break; case 1: arithmetic<GS>(refreq(-1, 2, s_pick("n", 1, 3)), std::array<long, 0>{}); break; case 2: arithmetic<GP>({refreq(-1, 2, s_pick("n", 1, 2)), imtime(3, Boson, s_pick("n", 1, 2))}, std::array<long, 0>{}); break; case 3: arithmetic<GT>(imtime(3, Fermion, 2), std::array<long, 2>{1, 2}); break; case 4: arithmetic<G3>(discrete(2), std::array<long, 3>{1, 2, 2}); break; } }
// in-place forms
template <typename G, typename Sh> void inplace(typename G::mesh_t const &m, Sh sh) { auto a = mk<G>(m, sh, "a"), b = mk<G>(m, sh, "b"); auto a0 = copy(a.data()), b0 = copy(b.data()); double s = s_real("s"); bool view = s_flag("view"), self = s_flag("self"); int op = s_pick("op", 0, 3); if (op == 3) ASSUME((s > 0.1) | (s < -0.1)); G &o = self ? a : b; auto o0 = self ? a0 : b0;
  auto act = [&](auto &&x) { switch (op) { case 0: x += o; break; case 1: x -= o; break; case 2: x *= s; break; case 3: x /= s; break; } }; if (view) act(gf_view<typename G::mesh_t, typename G::target_t>(a)); else act(a);
  CHECK(a.mesh() == m, "the mesh is kept"); for (long i = 0; i < a0.size(); i++) { C x = a0.flat(i), y = o0.flat(i); CLOSEC(C(a.data().flat(i)), op == 0 ? x + y : op == 1 ? x - y : op == 2 ? s * x : x / s, "in-place arithmetic is pointwise"); } same(b.data(), b0, "operands are not modified"); }
ENTRY(h_inplace) { switch (s_pick("function", 0, 2)) { case 0: inplace<GM>(wmesh(), std::array<long, 2>{2, 1}); break; case 1: inplace<GS>(refreq(-1, 2, 3), std::array<long, 0>{}); break; case 2: inplace<GP>({refreq(-1, 2, 2), imtime(3, Boson, 2)}, std::array<long, 0>{}); break; } }
// products
ENTRY(h_product) { auto m = wmesh(); bool in = s_flag("in place"); std::array<long, 2> s1 = {2, 2}; auto a = mk<GM>(m, s1, "a"), b = mk<GM>(m, s1, "b"); auto a0 = copy(a.data()), b0 = copy(b.data()); if (in) a *= b; GM r = in ? a : GM(a * b); CHECK(r.mesh() == m, "mesh of a product"); long w = s_pick("w", 0, m.size() - 1); for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) { C e = a0(w, i, 0) * b0(w, 0, j) + a0(w, i, 1) * b0(w, 1, j); CLOSEC(r.data()(w, i, j), e, "the product of two matrix functions is the matrix product at every point"); } same(b.data(), b0, "operands are not modified"); }
ENTRY(h_product_scalar) { refreq m(-1, 2, s_pick("n", 1, 3)); auto a = mk<GS>(m, {}, "a"), b = mk<GS>(m, {}, "b"); GS r{a * b}; bool view = s_flag("view"); if (view) { r = a; r() *= b; } for (long w = 0; w < m.size(); w++) CLOSEC(r.data()(w), a.data()(w) * b.data()(w), "products of scalar functions are pointwise"); }
ENTRY(h_quotient) { discrete m(s_pick("n", 1, 2)); using G = gf<discrete, scalar_real_valued>; auto a = mk<G>(m, {}, "a"), b = mk<G>(m, {}, "b"); double s = s_real("s"); for (long w = 0; w < m.size(); w++) ASSUME((b.data()(w) > 0.1) | (b.data()(w) < -0.1)); G r{a / b}, q{s / b}; for (long w = 0; w < m.size(); w++) { CLOSE(r.data()(w) * b.data()(w), a.data()(w), "quotients are pointwise"); CLOSE(q.data()(w) * b.data()(w), s, "quotients are pointwise"); } }
ENTRY(h_matrix_product) { auto m = wmesh(); auto g = mk<GM>(m, {2, 2}, "g"); nda::matrix<C> M(2, 2); fill(M, "M"); auto g0 = copy(g.data()); bool left = s_flag("left"); GM r = left ? M * g : g * M; for (long w = 0; w < m.size(); w++) for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) { C e = left ? M(i, 0) * g0(w, 0, j) + M(i, 1) * g0(w, 1, j) : g0(w, i, 0) * M(0, j) + g0(w, i, 1) * M(1, j); CLOSEC(r.data()(w, i, j), e, "multiplication by a constant matrix"); } same(g.data(), g0, "operands are not modified"); }
ENTRY(h_matrix_LR) { discrete m(s_pick("n", 1, 2)); using G = gf<discrete, matrix_real_valued>; long p = s_pick("rows", 1, 2); auto g = mk<G>(m, {2, 2}, "g"); G r{m, {p, p}}; fill(r.data(), "old"); nda::matrix<double> L(p, 2), R(2, p); fill(L, "L"); fill(R, "R"); set_from_L_G_R(r, L, g, R); for (long w = 0; w < m.size(); w++) for (long i = 0; i < p; i++) for (long j = 0; j < p; j++) { double e = 0; for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) e += L(i, k) * g.data()(w, k, l) * R(l, j); CLOSE(r.data()(w, i, j), e, "L G R at every point"); } }
ENTRY(h_inverse) { discrete m(s_pick("n", 1, 2)); using G = gf<discrete, matrix_valued>; auto g = mk<G>(m, {2, 2}, "g"); long w = m.size() - 1; for (long k = 0; k <= w; k++) { auto x = [&](int i, int j) { return g.data()(k, i, j); }; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) g.data()(k, i, j) = x(i, j).real(); double d = (x(0, 0) * x(1, 1) - x(0, 1) * x(1, 0)).real(); ASSUME((d > 0.5) | (d < -0.5)); } auto g0 = copy(g.data()); G r; switch (s_pick("from", 0, 2)) { case 0: r = inverse(g); break; case 1: r = inverse(g()); break; case 2: { G h = g; invert_in_place(h()); r = h; break; } } CHECK(r.mesh() == m, "mesh of the inverse"); same(g.data(), g0, "the operand is not modified"); for (long k = 0; k <= w; k++) for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) { C e = g0(k, i, 0) * r.data()(k, 0, j) + g0(k, i, 1) * r.data()(k, 1, j); CLOSEC(e, C(i == j), "the inverse is the matrix inverse at every point"); } }
// ---------------------------------------------------------------- operands that do not match
ENTRY(h_mismatch) { int n1 = s_pick("n", 1, 2), n2 = s_pick("n", 1, 2); bool f1 = s_flag("f"), f2 = s_flag("f"); double b1 = s_flag("beta") ? 1 : 2; imfreq m1(2.0, f1 ? Fermion : Boson, n1), m2(b1, f2 ? Fermion : Boson, n2); long c1 = s_pick("c", 1, 2), c2 = s_pick("c", 1, 2); auto a = mk<GM>(m1, {1, c1}, "a"), b = mk<GM>(m2, {1, c2}, "b"); bool mesh_ok = n1 == n2 && f1 == f2 && b1 == 2, ok = mesh_ok && c1 == c2; auto a0 = copy(a.data()); GM r;
  switch (s_pick("op", 0, 5)) { case 0: CHECK(throws([&] { r = a + b; }) == !ok, "operands on different meshes or of different shapes are rejected"); break; case 1: CHECK(throws([&] { GM q{a - b}; }) == !ok, "operands on different meshes or of different shapes are rejected"); break; case 2: CHECK(throws([&] { r = 2.0 * a + (b - a); }) == !ok, "operands on different meshes or of different shapes are rejected"); break; case 3: if (c1 != c2) __sym_stop(); CHECK(throws([&] { a() = b; }) == !mesh_ok, "a view only takes functions on its mesh"); if (!mesh_ok) same(a.data(), a0, "a rejected assignment changes nothing"); break; case 4: if (c1 != c2) __sym_stop(); CHECK(throws([&] { a += b; }) == !ok, "operands on different meshes are rejected"); if (!ok) same(a.data(), a0, "a rejected assignment changes nothing"); break; case 5: if (c1 != c2) __sym_stop(); CHECK(throws([&] { a() = b + b; }) == !mesh_ok, "a view only takes functions on its mesh"); break; } }
ENTRY(h_mismatch_product) { int n1 = s_pick("n", 1, 2), n2 = s_pick("n", 1, 2); int k1 = s_pick("k", 1, 2), k2 = s_pick("k", 1, 2); prod<refreq, discrete> m1{refreq(-1, 1, n1), discrete(k1)}, m2{refreq(-1, 1, n2), discrete(k2)}; using G = gf<prod<refreq, discrete>, scalar_valued>; auto a = mk<G>(m1, {}, "a"), b = mk<G>(m2, {}, "b"); bool ok = n1 == n2 && k1 == k2; CHECK(throws([&] { G r{a + b}; }) == !ok, "operands on different meshes are rejected"); CHECK(throws([&] { a() = b; }) == !ok, "a view only takes functions on its mesh"); }
// ---------------------------------------------------------------- assignment, copies and views
ENTRY(h_copy) { auto m = wmesh(); auto a = mk<GM>(m, {2, 1}, "a"); auto a0 = copy(a.data()); GM b{wmesh(), {s_pick("rows", 1, 2), 1}}; fill(b.data(), "b"); switch (s_pick("how", 0, 6)) { case 0: b = a; break; case 1: b = GM{a}; break; case 2: b = a(); break; case 3: b = GM{gf_const_view<imfreq, matrix_valued>{a}}; break; case 4: b = make_gf(a()); break; case 5: { GM t = a; b = std::move(t); break; } case 6: { GM t = std::move(b); b = a; break; } } CHECK(b.mesh() == m, "a copy has the mesh of the original"); same(b.data(), a0, "a copy has the data of the original"); b.data()(0, 1, 0) = 7; same(a.data(), a0, "a copy owns its data"); a.data()(0, 0, 0) = 8; CHECK(b.data()(0, 0, 0) == a0(0, 0, 0), "a copy owns its data"); }
ENTRY(h_scalar) { auto m = wmesh(); auto a = mk<GM>(m, {2, 2}, "a"); double s = s_real("s"); if (s_flag("element")) { long w = s_pick("w", 0, m.size() - 1); auto a0 = copy(a.data()); long n = m.to_index(w); a[n] = s; for (long k = 0; k < m.size(); k++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) CHECK(a.data()(k, i, j) == (k != w ? a0(k, i, j) : i == j ? C(s) : C(0)), "a scalar assigned to a matrix is a multiple of the identity"); } else { a() = s; for (long k = 0; k < m.size(); k++) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) CHECK(a.data()(k, i, j) == (i == j ? C(s) : C(0)), "a scalar assigned to a function is that multiple of the identity at every point"); } }
ENTRY(h_views) { auto m = wmesh(); auto a = mk<GM>(m, {2, 2}, "a"); auto e = copy(a.data()); long w = s_pick("w", 0, m.size() - 1); C x = s_cplx("x"), y = s_cplx("y"); gf_view<imfreq, matrix_valued> v = a; gf_const_view<imfreq, matrix_valued> c = a; auto p = m[w]; long n = p.index(); int how = s_pick("how", 0, 5);
  switch (how) { case 0: v[p](0, 1) = x; e(w, 0, 1) = x; break; case 1: a[n](1, 0) = x; e(w, 1, 0) = x; break; case 2: { auto s = slice_target_to_scalar(a, 1, 0); CHECK(s.mesh() == m, "mesh of a slice"); s[n] = x; e(w, 1, 0) = x; break; } case 3: { auto s = slice_target(v, nda::range(1, 2), nda::range(0, 2)); CHECK(s.mesh() == m && s.target_shape() == (std::array<long, 2>{1, 2}), "shape of a slice"); s[p](0, 1) = x; e(w, 1, 1) = x; break; } case 4: { auto v2 = v; auto b = mk<GM>(m, {2, 2}, "b"); auto b0 = copy(b.data()); v2.rebind(b()); v2[p](0, 0) = x; CHECK(b.data()(w, 0, 0) == x, "a view shares the data it is bound to"); b0(w, 0, 0) = x; same(b.data(), b0, "a view changes nothing else"); break; } case 5: { auto b = mk<GM>(m, {2, 2}, "b"); auto s = slice_target(a, nda::range(0, 1), nda::range(0, 2)); auto t = slice_target(b, nda::range(1, 2), nda::range(0, 2)); s = t; for (long k = 0; k < m.size(); k++) for (int j = 0; j < 2; j++) e(k, 0, j) = b.data()(k, 1, j); break; } }
  same(a.data(), e, "views share the data and change nothing else"); same(v.data(), e, "views share the data and change nothing else"); same(c.data(), e, "views share the data and change nothing else"); CHECK(v.mesh() == m && c.mesh() == m, "a view has the mesh of the original"); CHECK(c[p](1, 0) == e(w, 1, 0) && a[n](0, 1) == e(w, 0, 1) && v[n](1, 1) == e(w, 1, 1), "elements at a point and at its index"); }
ENTRY(h_view_of_view) { auto m = wmesh(); auto a = mk<GM>(m, {2, 2}, "a"); auto e = copy(a.data()); C x = s_cplx("x"); auto s = slice_target(a(), nda::range(0, 2), nda::range(1, 2)); auto t = slice_target_to_scalar(s, 1, 0); t() = x; for (long k = 0; k < m.size(); k++) e(k, 1, 1) = x; same(a.data(), e, "views share the data and change nothing else"); CHECK(make_gf(t).data()(0) == x, "a view is copied"); }
ENTRY(h_partial) { long n = s_pick("n", 1, 3), k = s_pick("k", 1, 2); refreq m1(-1, 1, n); imtime m2(2, Boson, k); using G = gf<prod<refreq, imtime>, scalar_valued>; auto a = mk<G>({m1, m2}, {}, "a"); auto e = copy(a.data()); long i = s_pick("i", 0, n - 1), j = s_pick("j", 0, k - 1); C x = s_cplx("x"); switch (s_pick("how", 0, 5)) { case 0: { auto s = a[i, triqs::mesh::all_t{}]; CHECK(s.mesh() == m2, "the mesh that remains"); s[j] = x; e(i, j) = x; break; } case 1: { auto s = a[triqs::mesh::all_t{}, m2[j]]; CHECK(s.mesh() == m1, "the mesh that remains"); s[m1[i]] = x; e(i, j) = x; break; } case 2: a[m1[i], j] = x; e(i, j) = x; break; case 3: a[std::tuple{i, j}] = x; e(i, j) = x; break; case 4: { long p = 0; for (auto q : a.mesh()) { CHECK(a[q] == e(p / k, p % k), "iteration over a product mesh: the last mesh runs fastest"); CHECK(q.data_index() == std::tuple(p / k, p % k), "iteration over a product mesh: the last mesh runs fastest"); p++; } CHECK(p == n * k && a.mesh().size() == n * k, "iteration visits every point"); break; } case 5: { auto s = a()[triqs::mesh::all_t{}, j]; s = x; for (long q = 0; q < n; q++) e(q, j) = x; break; } } same(a.data(), e, "partial evaluation gives views of the function"); }
ENTRY(h_partial3) { using G = gf<prod<discrete, discrete, discrete>, matrix_valued>; discrete d1(2), d2(1), d3(2); auto a = mk<G>({d1, d2, d3}, {1, 2}, "a"); auto e = copy(a.data()); long i = s_pick("i", 0, 1), k = s_pick("k", 0, 1); C x = s_cplx("x"); switch (s_pick("how", 0, 2)) { case 0: { auto s = a[i, triqs::mesh::all_t{}, triqs::mesh::all_t{}]; CHECK(std::get<0>(s.mesh()) == d2 && std::get<1>(s.mesh()) == d3, "the meshes that remain"); s[0, k](0, 1) = x; break; } case 1: { auto s = a[triqs::mesh::all_t{}, 0, triqs::mesh::all_t{}]; CHECK(std::get<0>(s.mesh()) == d1 && std::get<1>(s.mesh()) == d3, "the meshes that remain"); s[i, k](0, 1) = x; break; } case 2: { auto s = a[triqs::mesh::all_t{}, triqs::mesh::all_t{}, k]; CHECK(std::get<0>(s.mesh()) == d1 && std::get<1>(s.mesh()) == d2, "the meshes that remain"); s[i, 0](0, 1) = x; break; } } e(i, 0, k, 0, 1) = x; same(a.data(), e, "partial evaluation gives views of the function"); }
ENTRY(h_flatten) { using G = gf<prod<refreq, discrete>, matrix_valued>; long n = s_pick("n", 1, 3), k = s_pick("k", 1, 2); refreq m1(-1, 1, n); discrete m2(k); auto a = mk<G>({m1, m2}, {1, 2}, "a"); auto e = copy(a.data()); long i = s_pick("i", 0, n - 1), j = s_pick("j", 0, k - 1); if (s_flag("second")) { auto f = flatten_gf_2d<1>(a); CHECK(f.mesh() == m2 && f.data().shape() == (std::array<long, 2>{k, n * 2}), "shape of a flattened function"); for (long c = 0; c < 2; c++) CHECK(f.data()(j, i * 2 + c) == e(i, j, 0, c), "flattening keeps the order of the other dimensions"); fill(f.data(), "f"); unflatten_gf_2d<1>(a, f); for (long p = 0; p < n; p++) for (long q = 0; q < k; q++) for (long c = 0; c < 2; c++) CHECK(a.data()(p, q, 0, c) == f.data()(q, p * 2 + c), "unflattening is the inverse of flattening"); } else { auto f = flatten_gf_2d<0>(a); CHECK(f.mesh() == m1 && f.data().shape() == (std::array<long, 2>{n, k * 2}), "shape of a flattened function"); for (long c = 0; c < 2; c++) CHECK(f.data()(i, j * 2 + c) == e(i, j, 0, c), "flattening keeps the order of the other dimensions"); fill(f.data(), "f"); unflatten_gf_2d<0>(a, f); for (long p = 0; p < n; p++) for (long q = 0; q < k; q++) for (long c = 0; c < 2; c++) CHECK(a.data()(p, q, 0, c) == f.data()(p, q * 2 + c), "unflattening is the inverse of flattening"); } }
ENTRY(h_reinterpret) { imfreq m(2, Boson, s_pick("n", 1, 2)); auto g = mk<gf<imfreq, scalar_valued>>(m, {}, "g"); auto v = reinterpret_scalar_valued_gf_as_matrix_valued(g); CHECK(v.target_shape() == (std::array<long, 2>{1, 1}) && v.mesh() == m, "a scalar function seen as 1x1 matrices"); C x = s_cplx("x"); long w = s_pick("w", 0, m.size() - 1); auto e = copy(g.data()); v[m[w]](0, 0) = x; e(w) = x; same(g.data(), e, "a view of the same data"); }
ENTRY(h_parts) { auto m = wmesh(); auto g = mk<GM>(m, {2, 1}, "g"); auto g0 = copy(g.data()); double tol = s_real("tol", 0, 1); auto re = real(g), im = imag(g); auto cj = conj(g); auto cv = conj(g()); CHECK(re.mesh() == m && im.mesh() == m && cj.mesh() == m && cv.mesh() == m, "the mesh is kept"); bool isreal = true; for (long i = 0; i < g0.size(); i++) { C z = g0.flat(i); CHECK(re.data().flat(i) == z.real() && im.data().flat(i) == z.imag(), "real and imaginary part at every point"); CHECK(cj.data().flat(i).real() == z.real() && cj.data().flat(i).imag() == -z.imag() && cv.data().flat(i) == cj.data().flat(i), "the complex conjugate at every point"); } same(g.data(), g0, "the operand is not modified"); }
ENTRY(h_is_real) { refreq m(-1, 1, s_pick("n", 1, 3)); GS g{m}; double tol = s_real("tol", 0, 1); bool e = true; for (long i = 0; i < m.size(); i++) { double y = s_real("y", -2, 2); g.data()(i) = C(s_real("x"), y); e = e & (y <= tol) & (-y <= tol); } CHECK(is_gf_real(g, tol) == e, "a function is real iff every imaginary part is small"); }
ENTRY(h_h5) { ::h5::file f("x.h5", 'w'); ::h5::group gr(f); switch (s_pick("function", 0, 3)) { case 0: { auto g = mk<GM>(wmesh(), {2, 1}, "g"); h5_write(gr, "g", g); GM r; h5_read(gr, "g", r); CHECK(r.mesh() == g.mesh(), "a stored function is read back"); same(r.data(), g.data(), "a stored function is read back"); break; } case 1: { auto g = mk<GP>({refreq(-1, 1, 2), imtime(4, Boson, 3)}, {}, "g"); h5_write(gr, "g", g); GP r; h5_read(gr, "g", r); CHECK(r.mesh() == g.mesh(), "a stored function is read back"); same(r.data(), g.data(), "a stored function is read back"); break; }
    case 2: { auto g = mk<GM>(imfreq(2, Fermion, 1), {1, 1}, "g"), h = mk<GM>(imfreq(2, Fermion, 2), {2, 1}, "h"); auto b = make_block_gf<imfreq, matrix_valued>(vector<string>{"up", "down"}, {g, h}); h5_write(gr, "b", b); block_gf<imfreq> r; h5_read(gr, "b", r); bool ok = r.size() == 2 && r.block_names() == b.block_names(); CHECK(ok, "a stored function is read back"); if (!ok) return; CHECK(r[0].mesh() == g.mesh() && r[1].mesh() == h.mesh(), "a stored function is read back"); same(r[0].data(), g.data(), "a stored function is read back"); same(r[1].data(), h.data(), "a stored function is read back"); break; }
    case 3: { vector<vector<GM>> v(2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) v[i].push_back(mk<GM>(imfreq(2, Fermion, 1), {i + 1, j + 1}, "g")); auto b = make_block2_gf<imfreq, matrix_valued>({"x", "y"}, {"p", "q"}, v); h5_write(gr, "b", b); block2_gf<imfreq> r; h5_read(gr, "b", r); bool ok = r.size1() == 2 && r.size2() == 2 && r.block_names() == b.block_names(); CHECK(ok, "a stored function is read back"); if (!ok) return; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) same(r(i, j).data(), v[i][j].data(), "a stored function is read back"); break; } } }
// ---------------------------------------------------------------- blocks
using BG = block_gf<imfreq, matrix_valued>; using B2 = block2_gf<imfreq, matrix_valued>;
static BG blocks(vector<string> const &names, const char *n) { vector<GM> v; for (size_t i = 0; i < names.size(); i++) v.push_back(mk<GM>(imfreq(2, Fermion, 1), {1 + (long)i, 1}, n)); return {names, v}; }
static vector<nda::array<C, 3>> snap(BG const &b) { vector<nda::array<C, 3>> r; for (auto const &g : b.data()) r.push_back(copy(g.data())); return r; }
template <typename B> void sameb(B const &b, vector<nda::array<C, 3>> const &e, const char *id) { bool ok = b.size() == (int)e.size(); CHECK(ok, id); if (!ok) __sym_stop(); for (size_t i = 0; i < e.size(); i++) same(b[i].data(), e[i], id); }
static vector<string> nm(int n) { vector<string> r; for (int i = 0; i < n; i++) r.push_back(string(1, 'a' + (i * 2) % 3)); return r; }
ENTRY(h_blocks) { int n = s_pick("blocks", 1, 3); auto names = nm(n); auto a = blocks(names, "a"), b = blocks(names, "b"); auto a0 = snap(a), b0 = snap(b); double s = s_real("s"); ASSUME((s > 0.1) | (s < -0.1)); int op = s_pick("op", 0, 9); BG r = s_flag("smaller") ? blocks(nm(1), "old") : BG(n, a[0]); switch (op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = s * a; break; case 3: r = a * s; break; case 4: r = a / s; break; case 5: r = -a; break; case 6: r = a; r += b; break; case 7: r = a; r -= b; break; case 8: r = a; r *= s; break; case 9: r = a; r /= s; break; }
  bool ok = r.size() == n && r.block_names() == names; CHECK(ok, "the result has the blocks of the operands"); if (!ok) return; for (int k = 0; k < n; k++) { CHECK(r[k].mesh() == a[k].mesh(), "mesh of a block"); bool q = r[k].data().shape() == a0[k].shape(); CHECK(q, "shape of a block"); if (q) for (long i = 0; i < a0[k].size(); i++) { C x = a0[k].flat(i), y = b0[k].flat(i); CLOSEC(r[k].data().flat(i), op == 0 || op == 6 ? x + y : op == 1 || op == 7 ? x - y : op == 2 || op == 3 || op == 8 ? s * x : op == 5 ? -x : x / s, "arithmetic acts block by block"); } } sameb(a, a0, "operands are not modified"); sameb(b, b0, "operands are not modified"); }
ENTRY(h_block_views) { int n = s_pick("blocks", 1, 3); auto names = nm(n); auto a = blocks(names, "a"), b = blocks(names, "b"); auto e = snap(a); auto b0 = snap(b); block_gf_view<imfreq, matrix_valued> v = a; block_gf_const_view<imfreq, matrix_valued> c = a; CHECK(v.block_names() == names && c.block_names() == names && v.size() == n && c.size() == n, "a view has the blocks of the original"); int k = s_pick("k", 0, n - 1); C x = s_cplx("x"); double s = s_real("s"); switch (s_pick("how", 0, 6)) { case 0: v[k].data()(1, k, 0) = x; e[k](1, k, 0) = x; break; case 1: a[k].data()(0, 0, 0) = x; e[k](0, 0, 0) = x; break; case 2: v = b; e = b0; break; case 3: { v = s; for (int i = 0; i < n; i++) for (int w = 0; w < 2; w++) for (int q = 0; q <= i; q++) e[i](w, q, 0) = q == 0 ? s : 0; break; } case 4: { int i = 0; for (auto &&g : v) { if (i == k) g.data()(1, 0, 0) = x; i++; } CHECK(i == n, "iteration visits every block"); e[k](1, 0, 0) = x; break; } case 5: { auto w = map_block_gf([](auto &&g) { return slice_target(g, nda::range(0, 1), nda::range(0, 1)); }, a); CHECK(w.block_names() == names, "names are kept"); w[k].data()(1, 0, 0) = x; e[k](1, 0, 0) = x; break; } case 6: { BG d = c; d[k].data()(0, 0, 0) = x; BG d2{v}; d2[k].data()(0, 0, 0) = x; CHECK(d.block_names() == names && d2.block_names() == names, "a copy has the blocks of the original"); break; } }
  sameb(a, e, "block views share the data and change nothing else"); sameb(v, e, "block views share the data and change nothing else"); sameb(c, e, "block views share the data and change nothing else"); sameb(b, b0, "operands are not modified"); }
ENTRY(h_block_map) { int n = s_pick("blocks", 1, 3); auto names = nm(n); auto a = blocks(names, "a"); auto a0 = snap(a); int calls = 0; auto m = map_block_gf([&](auto const &g) { calls++; return conj(g); }, a); CHECK(m.block_names() == names && calls == n, "map applies the function to every block once"); for (int k = 0; k < n; k++) for (long i = 0; i < a0[k].size(); i++) CHECK(m[k].data().flat(i) == std::conj(a0[k].flat(i)), "map applies the function to every block"); auto d = map_block_gf([](auto const &g) { return g.data()(0, 0, 0); }, a); CHECK((int)d.size() == n, "map to other values gives a vector"); for (int k = 0; k < n && k < (int)d.size(); k++) CHECK(d[k] == a0[k](0, 0, 0), "map to other values gives a vector"); auto re = real(a), im = imag(a); CHECK(re.block_names() == names && im.block_names() == names, "names are kept"); for (int k = 0; k < n; k++) for (long i = 0; i < a0[k].size(); i++) CHECK(re[k].data().flat(i) == a0[k].flat(i).real() && im[k].data().flat(i) == a0[k].flat(i).imag(), "real and imaginary part of every block"); sameb(a, a0, "operands are not modified"); }
static vector<vector<GM>> grid(int n, int p, const char *s) { vector<vector<GM>> v(n); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) v[i].push_back(mk<GM>(imfreq(2, Fermion, 1), {1 + (long)i, 1 + (long)j}, s)); return v; }
ENTRY(h_block2) { int n = s_pick("n", 1, 2), p = s_pick("p", 1, 3); auto va = grid(n, p, "a"), vb = grid(n, p, "b"); vector<string> N1 = nm(n), N2 = {"r", "q", "s"}; N2.resize(p); auto a = make_block2_gf(N1, N2, va), b = make_block2_gf(N1, N2, vb); double s = s_real("s"); ASSUME((s > 0.1) | (s < -0.1)); int op = s_pick("op", 0, 8); B2 r = B2{1, 1, va[0][0]}; switch (op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = s * a; break; case 3: r = a / s; break; case 4: r = a; r += b; break; case 5: r = a; r() = b; break; case 6: r = map_block_gf([](auto const &g) { return conj(g); }, a); break; case 7: r = -a; break; case 8: r = -a + b; break; }
  bool ok = r.size1() == n && r.size2() == p && r.size() == n * p && r.block_names() == (vector<vector<string>>{N1, N2}); CHECK(ok, "the result has the blocks of the operands"); if (!ok) return; for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) { bool q = r(i, j).data().shape() == va[i][j].data().shape(); CHECK(q, "shape of a block"); if (q) for (long k = 0; k < va[i][j].data().size(); k++) { C x = va[i][j].data().flat(k), y = vb[i][j].data().flat(k); CLOSEC(r(i, j).data().flat(k), op == 0 || op == 4 ? x + y : op == 1 ? x - y : op == 2 ? s * x : op == 3 ? x / s : op == 5 ? y : op == 6 ? std::conj(x) : op == 7 ? -x : y - x, "arithmetic acts block by block"); } } int c = 0; for (auto const &g : r) { same(g.data(), r(c / p, c % p).data(), "iteration over two-index blocks: the second index runs fastest"); c++; } CHECK(c == n * p, "iteration visits every block"); }
ENTRY(h_block_construct) { imfreq m(2, Boson, 1); int z = s_pick("size", 1, 3); BG a(m, gf_struct_t{{"x", z}, {"y", 1}}); CHECK(a.size() == 2 && a.block_names() == (vector<string>{"x", "y"}), "blocks of a structure"); CHECK(a[0].mesh() == m && a[1].mesh() == m && a[0].target_shape() == (std::array<long, 2>{z, z}) && a[1].target_shape() == (std::array<long, 2>{1, 1}), "blocks of a structure"); CHECK(a.block_sizes() == (vector<int>{z, 1}), "sizes of the blocks"); BG b(m, vector<int>{1, z}); CHECK(b.size() == 2 && b.block_names() == (vector<string>{"0", "1"}) && b[1].target_shape() == (std::array<long, 2>{z, z}) && b[0].target_shape() == (std::array<long, 2>{1, 1}), "blocks of given sizes"); int k = s_pick("names", 0, 3); vector<string> N(k, "n"); vector<GM> v(2, a[0]); CHECK(throws([&] { BG q(N, v); }) == (k != 2), "as many names as blocks"); auto w = grid(2, 2, "g"); CHECK(throws([&] { auto q = make_block2_gf(N, {"a", "b"}, w); }) == (k != 2) && throws([&] { auto q = make_block2_gf({"a", "b"}, N, w); }) == (k != 2), "as many names as blocks"); w[1].pop_back(); CHECK(throws([&] { auto q = make_block2_gf({"a", "b"}, {"a", "b"}, w); }), "as many names as blocks"); }
ENTRY(h_block_mismatch) { int n = s_pick("blocks", 1, 3), p = s_pick("blocks", 1, 3); auto a = blocks(nm(n), "a"), b = blocks(nm(p), "b"); auto a0 = snap(a), b0 = snap(b); auto v = a(); auto w = b(); int op = s_pick("op", 0, 5); BG r; bool t = throws([&] { switch (op) { case 0: r = a + b; break; case 1: r = 2.0 * a - b; break; case 2: a += b; break; case 3: v = b; break; case 4: v = w; break; case 5: v -= b; break; } }); CHECK(t == (n != p), "operands with different numbers of blocks are rejected"); if (t) { sameb(a, a0, "a rejected operation changes nothing"); CHECK(a.block_names() == nm(n) && v.block_names() == nm(n), "a rejected operation changes nothing"); } sameb(b, b0, "operands are not modified"); }
ENTRY(h_block2_mismatch) { int n = s_pick("n", 1, 2), p = s_pick("p", 1, 2), n2 = s_pick("n", 1, 2), p2 = s_pick("p", 1, 2); GM g = mk<GM>(imfreq(2, Fermion, 1), {1, 1}, "g"), h = mk<GM>(imfreq(2, Fermion, 1), {1, 1}, "h"); B2 a(n, p, g), b(n2, p2, h); auto v = a(); auto w = b(); int op = s_pick("op", 0, 4); B2 r(1, 1, g); bool ok = n == n2 && p == p2, t = throws([&] { switch (op) { case 0: r = a - b; break; case 1: a += b; break; case 2: v = b; break; case 3: v = w; break; case 4: v = 2.0 * b; break; } }); CHECK(t == !ok, "operands with different numbers of blocks are rejected"); if (t) for (auto const &x : a) same(x.data(), g.data(), "a rejected operation changes nothing"); }
ENTRY(h_block2_names) { const char *t[] = {"a", "a_b", "c", "b_c", "", "_"}; vector<string> N1 = {t[s_pick("first", 0, 5)], t[s_pick("second", 0, 5)]}, N2 = {t[s_pick("third", 0, 5)], t[s_pick("fourth", 0, 5)]}; if (N1[0] == N1[1] || N2[0] == N2[1]) __sym_stop(); vector<vector<GM>> v(2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { v[i].push_back(GM{imfreq(2, Fermion, 1), {1, 1}}); v[i][j].data()() = i + 2 * j; } auto b = make_block2_gf(N1, N2, v); ::h5::file f("x.h5", 'w'); ::h5::group gr(f); h5_write(gr, "b", b); block2_gf<imfreq> r; h5_read(gr, "b", r); bool ok = r.size1() == 2 && r.size2() == 2 && r.block_names() == b.block_names(); CHECK(ok, "a stored function is read back"); if (!ok) return; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { bool clash = false; for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) if ((k != i || l != j) && N1[k] + "_" + N2[l] == N1[i] + "_" + N2[j]) clash = true; if (clash) same(r(i, j).data(), v[i][j].data(), "blocks whose joined names coincide are stored apart"); else same(r(i, j).data(), v[i][j].data(), "blocks are read back"); } }
ENTRY(h_imtime_product) { bool f1 = s_flag("fermion"), f2 = s_flag("fermion"); int n = s_pick("n", 2, 3); imtime m1(2, f1 ? Fermion : Boson, n), m2(2, f2 ? Fermion : Boson, n); using G = gf<imtime, matrix_real_valued>; auto a = mk<G>(m1, {1, 1}, "a"), b = mk<G>(m2, {1, 1}, "b"); auto a0 = copy(a.data()), b0 = copy(b.data()); G r; switch (s_pick("op", 0, 2)) { case 0: r = a * b; break; case 1: r = a; r *= b; break; case 2: r = 2.0 * (a * b) * 0.5; break; } CHECK(r.mesh() == imtime(2, f1 == f2 ? Boson : Fermion, n), "the product of functions of imaginary time has the product of the statistics"); for (long w = 0; w < n; w++) CLOSE(r.data()(w, 0, 0), a0(w, 0, 0) * b0(w, 0, 0), "products are pointwise"); CHECK(throws([&] { G q{a + b}; }) == (f1 != f2), "operands on different meshes are rejected"); imtime m3(s_flag("beta") ? 2 : 3, Boson, s_pick("n", 2, 3)); auto c = mk<G>(m3, {1, 1}, "c"); CHECK(throws([&] { G q{a * c}; }) == !(m3.beta() == 2 && m3.size() == n), "operands on different meshes are rejected"); }
