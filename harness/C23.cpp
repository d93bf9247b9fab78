// C23: direct and reciprocal lattices, grids.
#include <triqs/lattice/bravais_lattice.hpp>
#include <triqs/lattice/brillouin_zone.hpp>
#include <triqs/lattice/grid_generator.hpp>
#include "sym.h"
using namespace triqs::lattice; using vec = nda::vector<double>; using mat = nda::matrix<double>;
static const double PI = 3.14159265358979323846;
static mat cell(int nd, bool ortho) { mat u(nd, nd); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) u(i, j) = ortho && i != j ? 0 : s_real("a", -4, 4); return u; }
static double det(mat const &u) { int n = u.extent(0); if (n == 1) return u(0, 0); if (n == 2) return u(0, 0) * u(1, 1) - u(0, 1) * u(1, 0); double d = 0; for (int k = 0; k < 3; k++) d += u(0, k) * (u(1, (k + 1) % 3) * u(2, (k + 2) % 3) - u(1, (k + 2) % 3) * u(2, (k + 1) % 3)); return d; }
static mat indep(int nd) { mat u = cell(nd, false); double d = det(u); ASSUME((d > 0.5) | (d < -0.5)); return u; }
static void dual(bravais_lattice const &l, int nd) { brillouin_zone z(l); CHECK(z.ndim() == nd && z.lattice() == l, "the lattice of a zone"); auto const &K = z.reciprocal_matrix(); auto const &A = l.units(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0, t = 0; for (int k = 0; k < 3; k++) { s += A(i, k) * K(j, k); t += K(i, k) * z.reciprocal_matrix_inv()(k, j); } CLOSE(s, i == j ? 2 * PI : 0, "a_i . b_j = 2 pi delta_ij"); CLOSE(t, i == j ? 1 : 0, "inverse of the reciprocal matrix"); CHECK(z.units()(i, j) == K(i, j), "units of a zone"); } }
ENTRY(h_dual_1) { double a = s_real("a", -4, 4); ASSUME((a > 0.1) | (a < -0.1)); mat u(1, 1); u(0, 0) = a; bravais_lattice l(u); CHECK(l.ndim() == 1, "dimension"); CHECK(l.units()(0, 0) == a && l.units()(0, 1) == 0 && l.units()(0, 2) == 0, "the basis starts with the given vectors"); auto const &A = l.units(); for (int i = 1; i < 3; i++) { CHECK(A(i, 0) == 0, "the basis is completed by orthogonal unit vectors"); CLOSE(A(i, 1) * A(i, 1) + A(i, 2) * A(i, 2), 1, "the basis is completed by orthogonal unit vectors"); } CLOSE(A(1, 1) * A(2, 1) + A(1, 2) * A(2, 2), 0, "the basis is completed by orthogonal unit vectors"); dual(l, 1); }
ENTRY(h_basis_2) { mat u = indep(2); bravais_lattice l(u); auto const &A = l.units(); CHECK(l.ndim() == 2, "dimension"); for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) CHECK(A(i, j) == u(i, j), "the basis starts with the given vectors"); CHECK(A(i, 2) == 0, "the basis starts with the given vectors"); CLOSE(A(2, 0) * A(i, 0) + A(2, 1) * A(i, 1) + A(2, 2) * A(i, 2), 0, "the basis is completed by an orthogonal unit vector"); } CLOSE(A(2, 0) * A(2, 0) + A(2, 1) * A(2, 1) + A(2, 2) * A(2, 2), 1, "the basis is completed by an orthogonal unit vector"); }
ENTRY(h_dual_2) { mat u = indep(2); dual(bravais_lattice(u), 2); }
static void dual3(mat const &u) { bravais_lattice l(u); CHECK(l.ndim() == 3, "dimension"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(l.units()(i, j) == u(i, j), "the basis starts with the given vectors"); dual(l, 3); }
ENTRY(h_dual_3) { dual3(indep(3)); } // irsym: thorough-only
ENTRY(h_dual_3t) { mat u = cell(3, true); u(1, 0) = s_real("a", -4, 4); u(2, 0) = s_real("a", -4, 4); u(2, 1) = s_real("a", -4, 4); for (int k = 0; k < 3; k++) ASSUME(u(k, k) > 0.5); mat v(3, 3); int r = s_pick("order", 0, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v(i, j) = u(i, (j + r) % 3); dual3(v); }
ENTRY(h_default) { bravais_lattice l; CHECK(l.ndim() == 3 && l.n_orbitals() == 1, "the default lattice"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(l.units()(i, j) == (i == j), "the default lattice"); brillouin_zone z; CHECK(z == brillouin_zone(l), "the default zone is that of the default lattice"); dual(l, 3); }
ENTRY(h_reject) { int nd = s_pick("nd", 2, 3); mat u(nd, nd); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) u(i, j) = s_real("a", -4, 4); int a = s_pick("a", 0, nd - 1), b = s_pick("b", 0, nd - 1); if (a == b) return; double f = s_real("f", -3, 3); for (int j = 0; j < nd; j++) u(a, j) = f * u(b, j); CHECK(throws([&] { bravais_lattice l(u); }), "dependent vectors are rejected"); }
ENTRY(h_reject_dim) { int nd = s_pick("nd", 0, 5); if (nd >= 1 && nd <= 3) return; mat u(nd, nd); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) u(i, j) = i == j; CHECK(throws([&] { bravais_lattice l(u); }), "only 1, 2 or 3 dimensions"); }
// ---------------------------------------------------------------- coordinates
static void coords(int nd, mat const &u) { bravais_lattice l(u); double x[3] = {s_real("x", -9, 9), nd > 1 ? s_real("x", -9, 9) : 0, nd > 2 ? s_real("x", -9, 9) : 0}; vec v(3); for (int k = 0; k < 3; k++) v(k) = x[k]; vec r = l.lattice_to_real_coordinates(v); CHECK(r.size() == 3, "size"); for (int j = 0; j < 3; j++) { double s = 0; for (int i = 0; i < nd; i++) s += x[i] * (j < nd ? u(i, j) : 0); CLOSE(r(j), s, "real coordinates are the combination of the basis vectors"); } vec b = l.real_to_lattice_coordinates(r); for (int j = 0; j < 3; j++) CLOSE(b(j), x[j], "conversion inverts"); vec c = l.real_to_lattice_coordinates(v), d = l.lattice_to_real_coordinates(c); for (int j = 0; j < 3; j++) CLOSE(d(j), x[j], "conversion inverts");
  brillouin_zone z(l); vec w(nd); for (int k = 0; k < nd; k++) w(k) = x[k]; vec p = z.lattice_to_real_coordinates(w); for (int j = 0; j < 3; j++) { double s = 0; for (int i = 0; i < nd; i++) s += x[i] * z.units()(i, j); CLOSE(p(j), s, "momenta are the combination of the reciprocal vectors"); } vec pn(nd); for (int k = 0; k < nd; k++) pn(k) = p(k); vec q = z.real_to_lattice_coordinates(pn); for (int j = 0; j < nd; j++) CLOSE(q(j), x[j], "conversion inverts"); }
ENTRY(h_coords_ortho) { int nd = s_pick("nd", 1, 3); mat u = cell(nd, true); for (int k = 0; k < nd; k++) ASSUME((u(k, k) > 0.1) | (u(k, k) < -0.1)); coords(nd, u); }
static const double cells[][9] = {{2, 0, 0, 0.5, 1, 0, -0.25, 0.5, 4}, {0, 1, 1, 1, 0, 1, 1, 1, 0}, {1, 2, 3, -1, 1, 0.5, 2, 0, 1}, {-1, 1, 1, 1, -1, 1, 1, 1, -1}};
ENTRY(h_coords) { int nd = s_pick("nd", 2, 3), c = s_pick("cell", 0, 3); if (c == 3 && nd == 2) return; mat u(nd, nd); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) u(i, j) = cells[c][3 * i + j]; coords(nd, u); }
ENTRY(h_coords_2) { mat u = indep(2); bravais_lattice l(u); vec v(3); v(0) = s_real("x", -9, 9); v(1) = s_real("x", -9, 9); v(2) = 0; vec b = l.real_to_lattice_coordinates(l.lattice_to_real_coordinates(v)); for (int j = 0; j < 3; j++) CLOSE(b(j), v(j), "conversion inverts"); }
ENTRY(h_points) { bravais_lattice l(mat(mat(nda::eye<double>(3)) * 2.0)); long i[3], j[3]; for (int k = 0; k < 3; k++) { i[k] = s_pick("i", -2, 2); j[k] = k ? 1 - k : s_pick("j", -2, 2); } using pt = bravais_lattice::point_t; pt a(std::array{i[0], i[1], i[2]}, &l), b(std::array{j[0], j[1], j[2]}, &l); auto s = a + b, d = a - b, m = -a; for (int k = 0; k < 3; k++) { CHECK(s.index()[k] == i[k] + j[k] && d.index()[k] == i[k] - j[k] && m.index()[k] == -i[k], "points are added by index"); CLOSE(a[k], 2.0 * i[k], "position of a point"); CLOSE(s[k], a[k] + b[k], "position of a sum"); CLOSE(vec(d)(k), a[k] - b[k], "position of a difference"); } CHECK(&s.lattice() == &l, "the lattice of a point"); }
ENTRY(h_orbitals) { long n = s_pick("n", 1, 3); std::vector<vec> pos; std::vector<std::string> names; for (long k = 0; k < n; k++) { vec v(3); for (int i = 0; i < 3; i++) v(i) = s_real("p", -1, 1); pos.push_back(v); names.push_back(k ? "x" : "yy"); } bool nm = s_flag("names"); bravais_lattice l(mat(nda::eye<double>(3)), pos, nm ? names : std::vector<std::string>{}); CHECK(l.n_orbitals() == n, "orbitals"); CHECK((long)l.orbital_positions().size() == n && (long)l.orbital_names().size() == n, "orbitals"); ::h5::file f("x.h5", 'w'); ::h5::group g(f); brillouin_zone z(l); h5_write(g, "l", l); h5_write(g, "z", z); bravais_lattice r; brillouin_zone y; h5_read(g, "l", r); h5_read(g, "z", y); CHECK(r == l && y == z && y.lattice() == l, "a stored lattice is read back"); for (long k = 0; k < n; k++) { CHECK(r.orbital_names()[k] == (nm ? names[k] : ""), "a stored lattice is read back"); for (int i = 0; i < 3; i++) CHECK(r.orbital_positions()[k](i) == pos[k](i), "a stored lattice is read back"); } }
ENTRY(h_equal) { mat u = cell(2, true), v = cell(2, true); for (int k = 0; k < 2; k++) { ASSUME(u(k, k) > 0.1); ASSUME(v(k, k) > 0.1); } bravais_lattice a(u), b(v); bool same = (u(0, 0) == v(0, 0)) & (u(1, 1) == v(1, 1)); CHECK((a == b) == same && (a != b) == !same, "lattices are equal iff their vectors are"); mat w(1, 1); w(0, 0) = 1; bravais_lattice c(w), d(mat(nda::eye<double>(2))); CHECK(c != d && !(c == d), "lattices of different dimension differ"); }
// ---------------------------------------------------------------- grids
ENTRY(h_grid) { int dim = s_pick("dim", 1, 3), n = s_pick("n", 1, dim == 3 ? 3 : 5); int N[3] = {n, dim > 1 ? n : 1, dim > 2 ? n : 1}, total = N[0] * N[1] * N[2]; grid_generator g(dim, n); CHECK(g.size() == total, "size of a grid"); int c = 0; std::vector<int> seen(total, 0); for (; g; ++g) { if (c >= total) { c++; break; } CHECK(g.index() == c, "index of a grid point"); auto const p = *g; int k[3]; for (int a = 0; a < 3; a++) { k[a] = int(p(a) * N[a]); CHECK(k[a] >= 0 && k[a] < N[a], "grid points lie in the zone"); CLOSE(p(a), (k[a] + 0.5) / N[a], "grid points are the centres of equal boxes"); } seen[(k[0] * N[1] + k[1]) * N[2] + k[2]]++; c++; } CHECK(c == total, "every grid point is visited"); bool once = true; for (int s : seen) once = once && s == 1; CHECK(once, "every grid point is visited once"); grid_generator a(dim, n), b(dim, n); if (total > 1) { ++a; CHECK(!(a == b), "grids at different points differ"); ++b; } CHECK(a == b, "grids at the same point are equal"); }
