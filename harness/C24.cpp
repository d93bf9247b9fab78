// C24: Pade approximants pass through their points.
#include <triqs/utility/pade_approximants.hpp>
#include "sym.h"
using cd = std::complex<double>; using triqs::utility::pade_approximant; using vec = nda::vector<cd>;
static vec pack(std::vector<cd> const &x) { vec v(x.size()); for (size_t i = 0; i < x.size(); i++) v(i) = x[i]; return v; }
static void close(cd a, cd b, const char *id) { __sym_assert_close(a.real(), b.real(), 1e-6, id); __sym_assert_close(a.imag(), b.imag(), 1e-6, id); }
static double n2(cd x) { return x.real() * x.real() + x.imag() * x.imag(); }
static void interpolates(std::vector<cd> const &z, std::vector<cd> const &u) { pade_approximant f(pack(z), pack(u)); for (size_t i = 0; i < z.size(); i++) close(f(z[i]), u[i], "the approximant passes through its points"); CHECK(mpf_get_default_prec() == 64, "the precision of GMP is restored"); }
static cd cplx(const char *n) { double re = s_real(n, -8, 8), im = s_real(n, -8, 8); return {re, im}; }
ENTRY(h_one) { cd z = cplx("z"), u = cplx("u"), e = cplx("e"); pade_approximant f(pack({z}), pack({u})); close(f(e), u, "one point: a constant"); }
ENTRY(h_two) { cd z = cplx("z"), w = cplx("z"); std::vector<cd> Z = {z, w}; double dx = z.real() - w.real(), dy = z.imag() - w.imag(); ASSUME(dx * dx + dy * dy > 0.1); cd u = cplx("u"), v = cplx("u"); ASSUME(n2(u) > 1e-3); ASSUME(n2(v) > 1e-3); interpolates(Z, {u, v}); }
ENTRY(h_two_matsubara) { int k = s_pick("k", 0, 3); double b = s_real("w", 0.5, 4); std::vector<cd> Z = {{0, b * (2 * k + 1)}, {0, b * (2 * k + 3)}}; cd u = cplx("u"), v = cplx("u"); ASSUME(n2(u) > 1e-3); ASSUME(n2(v) > 1e-3); interpolates(Z, {u, v}); cd e = cplx("e"); pade_approximant f(pack(Z), pack({u, v})); /* a1/(1 + a2 (e - z1)) */ cd a2 = (u / v - 1.0) / (Z[1] - Z[0]); cd den = 1.0 + a2 * (e - Z[0]); ASSUME(n2(den) > 1e-3); close(f(e) * den, u, "two points: the continued fraction"); }
// three points; the evaluation divides by 1 + (z_3 - z_1) a_2, which the points have to keep away from zero
ENTRY(h_three_real) { std::vector<cd> Z = {1, 2, 4}; double a = s_real("u", 0.5, 3), b = s_real("u", 3.5, 5), c = s_real("u", 5.5, 9); std::vector<cd> U = {a, b, c}; double g1 = a / b - 1, g2 = (a / c - 1) / 3; ASSUME((g1 - g2 > 0.01) | (g2 - g1 > 0.01)); double B = 1 + 3 * g1; ASSUME((B > 0.01) | (B < -0.01)); interpolates(Z, U); }
ENTRY(h_three_imag) { std::vector<cd> Z = {cd(0, 1), cd(0, 3), cd(0, 5)}; double a = s_real("u", -3, -0.5), b = s_real("u", -6, -3.5), c = s_real("u", -9, -6.5); std::vector<cd> U = {cd(0, a), cd(0, b), cd(0, c)}; double g1 = (a / b - 1) / 2, g2 = (a / c - 1) / 4; ASSUME((g1 - g2 > 0.01) | (g2 - g1 > 0.01)); double B = 1 + 4 * g1; ASSUME((B > 0.01) | (B < -0.01)); interpolates(Z, U); }
// the approximant of a function of that form is the function
ENTRY(h_pole) { double e0 = s_real("e0", -2, 2), a = s_real("a", 0.5, 3); std::vector<cd> Z = {cd(0, 1), cd(0, 3)}, U; for (auto z : Z) U.push_back(a / (z - e0)); pade_approximant f(pack(Z), pack(U)); double x = s_real("x", -5, 5), y = s_real("y", 0.5, 3); cd e(x, y); close(f(e) * (e - e0), a, "a single pole is reproduced everywhere"); }
ENTRY(h_constant) { cd u = cplx("u"); ASSUME(n2(u) > 1e-3); int n = s_pick("n", 1, 4); std::vector<cd> Z, U; for (int i = 0; i < n; i++) { Z.push_back(cd(i % 2, i)); U.push_back(u); } pade_approximant f(pack(Z), pack(U)); close(f(cplx("e")), u, "a constant is reproduced everywhere"); }
ENTRY(h_zero) { int n = s_pick("n", 1, 3); std::vector<cd> Z, U; for (int i = 0; i < n; i++) { Z.push_back(cd(0, i)); U.push_back(0); } pade_approximant f(pack(Z), pack(U)); close(f(cplx("e")), 0, "zero is reproduced everywhere"); }
// a value of zero at a later point has no continued fraction: the error leaves the precision of GMP as it was
ENTRY(h_zero_value) { cd u = cplx("u"); ASSUME(n2(u) > 1e-3); int at = s_pick("at", 1, 2); std::vector<cd> U = {u, u * 2.0, u * 3.0}; U[at] = 0; CHECK(throws([&] { pade_approximant f(pack({cd(0, 1), cd(0, 3), cd(0, 5)}), pack(U)); }), "a zero value is rejected"); CHECK(mpf_get_default_prec() == 64, "the precision of GMP is restored after an error"); }
