// C21: arithmetic of Matsubara frequencies.
#include <triqs/mesh/imfreq.hpp>
#include <triqs/mesh/dlr_imfreq.hpp>
#include <triqs/mesh/domains/matsubara.hpp>
#include "sym.h"
using namespace triqs::mesh;
using cd = std::complex<double>;
static const double PI = 3.14159265358979323846;
static statistic_enum st(const char *n) { return s_flag(n) ? Fermion : Boson; }
static long units(matsubara_freq const &f) { return 2 * f.n + (f.statistic == Fermion ? 1 : 0); } // frequency in units of pi/beta
static const long B = 1l << 40;
static matsubara_freq freq(double beta, const char *n = "n", const char *s = "s") { long k = s_int(n, -B, B); return {k, beta, st(s)}; }
// ---------------------------------------------------------------- integers: every index
ENTRY(h_sum) { double beta = s_real("beta", 0.01, 1000); auto x = freq(beta), y = freq(beta); bool bos = x.statistic == y.statistic; auto s = x + y, d = x - y, m = -x;
  CHECK(units(s) == units(x) + units(y), "sum of frequencies"); CHECK(units(d) == units(x) - units(y), "difference of frequencies"); CHECK(units(m) == -units(x), "opposite of a frequency");
  CHECK((s.statistic == Boson) == bos, "statistics of a sum"); CHECK((d.statistic == Boson) == bos, "statistics of a difference"); CHECK(m.statistic == x.statistic, "statistics of the opposite"); CHECK(s.beta == beta && d.beta == beta && m.beta == beta, "the temperature is kept"); CHECK(s.index() == s.n && d.index() == d.n, "index"); }
ENTRY(h_group) { auto x = freq(1), y = freq(1), z = freq(1); auto eq = [](matsubara_freq const &a, matsubara_freq const &b) { return (a.n == b.n) & (a.statistic == b.statistic); }; CHECK(eq((x + y) + z, x + (y + z)), "addition is associative"); CHECK(eq(x + y, y + x), "addition is commutative"); CHECK(eq(x - y, x + (-y)), "subtraction adds the opposite"); CHECK(eq((x + y) - y, x), "subtraction undoes addition"); CHECK(eq(-(-x), x), "the opposite of the opposite"); auto z0 = x - x; CHECK(z0.n == 0 && z0.statistic == Boson && kronecker(z0), "a frequency minus itself is zero"); }
ENTRY(h_kronecker) { auto s = st("s"); long a = s_int("a", -B, B), b = s_int("b", -B, B); matsubara_freq x(a, 3, s), y(b, 3, s); CHECK(kronecker(x, y) == (a == b), "the delta of two frequencies"); CHECK(kronecker(x - y) == (a == b), "the delta of a difference"); CHECK(kronecker(x + y) == (units(x) + units(y) == 0), "the delta of a sum"); matsubara_freq o(a, 3, Boson); CHECK(kronecker(o) == (a == 0), "the delta of a bosonic frequency"); CHECK(kronecker(o, matsubara_freq(0, 3, Boson)) == kronecker(o), "the delta of a bosonic frequency"); }
// ---------------------------------------------------------------- as complex numbers
#ifdef THOROUGH
static const long K = 40;
#else
static const long K = 12;
#endif
static cd exact(long n, statistic_enum s, double beta) { return {0, (2 * n + (s == Fermion)) * PI / beta}; }
static void same(cd a, cd b, const char *id) { __sym_assert_close(a.real(), b.real(), 1e-7, id); __sym_assert_close(a.imag(), b.imag(), 1e-7, id); }
ENTRY(h_value) { long n = s_int("n", -100000, 100000); auto s = st("s"); double b = s_real("beta", 0.5, 50); cd v = matsubara_freq(n, b, s); __sym_assert_close(v.real(), 0, 0, "frequencies are imaginary"); __sym_assert_close(v.imag() * b, (2.0 * n + (s == Fermion ? 1 : 0)) * PI, 1e-4, "value of a frequency"); } // irsym: --bv2real
ENTRY(h_value_pick) { long n = s_pick("n", -K, K); auto s = st("s"); double b = s_real("beta", 0.5, 50); cd v = matsubara_freq(n, b, s); same(v * b, exact(n, s, b) * b, "value of a frequency"); imfreq m(b, s, K + 1); if (!m.is_index_valid(n)) return; same(cd(m(n)), exact(n, s, b), "value of a mesh point"); same(cd(m.to_value(n)), exact(n, s, b), "value of a mesh point"); same(cd(m.index_to_freq(n)), exact(n, s, b), "value of a mesh point"); same(m.w_max(), exact(K, s, b), "the largest frequency"); }
static const long idx[] = {-37, -2, -1, 0, 1, 5}; 
ENTRY(h_product) { long a = idx[s_pick("a", 0, 5)], c = idx[s_pick("c", 0, 5)]; auto s = st("s"), t = st("t"); double b = s_pick("beta", 1, 2) * 2.5; matsubara_freq x(a, b, s), y(c, b, t); cd X = exact(a, s, b), Y = exact(c, t, b); same(x * y, X * Y, "product of frequencies"); if (Y != 0.0) same(x / y, X / Y, "quotient of frequencies"); }
ENTRY(h_numbers) { long a = idx[s_pick("a", 0, 5)]; auto s = st("s"); double b = 2.5; matsubara_freq x(a, b, s); cd X = exact(a, s, b), z = s_cplx("z"); double r = s_real("r", -50, 50); same(x + z, X + z, "sum with a number"); same(z + x, X + z, "sum with a number"); same(x - z, X - z, "difference with a number"); same(z - x, z - X, "difference with a number"); same(x * z, X * z, "product with a number"); same(z * x, X * z, "product with a number"); same(x + r, X + r, "sum with a number"); same(r + x, X + r, "sum with a number"); same(x - r, X - r, "difference with a number"); same(r - x, r - X, "difference with a number"); same(x * r, X * r, "product with a number"); same(r * x, X * r, "product with a number"); ASSUME((r > 0.1) | (r < -0.1)); same(x / r * r, X, "quotient with a number"); if (X == 0.0) return; same(r / x * X, r, "quotient with a number"); same(z / x * X, z, "quotient with a number"); }
ENTRY(h_quotient) { long a = idx[s_pick("a", 0, 5)]; auto s = st("s"); matsubara_freq x(a, 2.5, s); cd z = s_cplx("z"); ASSUME((z.real() > 0.1) & (z.imag() > 0.1)); same(x / z * z, exact(a, s, 2.5), "quotient with a number"); }
ENTRY(h_mesh_points) { long a = idx[s_pick("a", 1, 5)], c = idx[s_pick("c", 1, 5)]; auto s = st("s"), t = st("t"); double b = 2.5, r = s_real("r", -50, 50); imfreq m(b, s, 8), w(b, t, 8); auto p = m(a); auto q = w(c); auto f = p + q, d = p - q, n = -p; CHECK(units(f) == units(p) + units(q) && units(d) == units(p) - units(q) && units(n) == -units(p), "mesh points are added as frequencies"); CHECK((f.statistic == Boson) == (s == t), "statistics of a sum"); matsubara_freq y(c, b, t); CHECK(units(p + y) == units(f) && units(y - p) == -units(d), "mesh points and frequencies are added as frequencies"); cd X = exact(a, s, b), Y = exact(c, t, b); same(p * q, X * Y, "product of frequencies"); if (Y != 0.0) same(p / q, X / Y, "quotient of frequencies"); same(p * r, X * r, "product with a number"); same(r - p, r - X, "difference with a number"); same(p + r, X + r, "sum with a number"); CHECK(kronecker(p, q) == (a == c), "the delta of two frequencies"); }
// ---------------------------------------------------------------- domains
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
ENTRY(h_domain) { double b1 = s_real("b", 0.1, 9), b2 = s_real("b", 0.1, 9); auto s = st("s"), t = st("s"); matsubara_freq_domain d(b1, s), e(b2, t); CHECK((d == e) == ((b1 == b2) & (s == t)), "domains are equal iff their parameters are"); CHECK(d.contains(matsubara_freq(s_int("n", -B, B), b2, t)) == (d == e), "the frequencies of a domain"); matsubara_time_domain u(d), v(b2, t); CHECK((u == v) == (d == e), "domains are equal iff their parameters are"); double x = s_real("x", -1, 12); CHECK(u.contains(x) == ((x >= 0) & (x <= b1)), "the times of a domain"); CHECK(u.min() == 0 && u.max() == b1 && u.beta == b1 && u.statistic == s, "the times of a domain"); CHECK(matsubara_freq_domain(u) == d, "conversions of the domains invert"); 
  h5::file f("x.h5", 'w'); h5::group g(f); h5_write(g, "d", d); h5_write(g, "u", u); matsubara_freq_domain d2; matsubara_time_domain u2; h5_read(g, "d", d2); h5_read(g, "u", u2); CHECK(d2 == d && u2 == u, "a stored domain is read back"); }
ENTRY(h_domain_reject) { double b = s_real("b", -5, 5); int k = 0; try { matsubara_freq_domain d(b, Fermion); } catch (...) { k++; } try { matsubara_time_domain d(b, Boson); } catch (...) { k += 2; } CHECK(k == (b < 0 ? 3 : 0), "negative temperatures are rejected"); }
