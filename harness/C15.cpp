// C15: Legendre polynomials by their recurrence, Legendre transformation coefficients and the modified spherical Bessel function by their definitions.
#include <triqs/utility/legendre.hpp>
#include <vector>
#include "sym.h"
#ifdef THOROUGH
static const int N = 12, LN = 12, TN = 14;
#else
static const int N = 8, LN = 6, TN = 9;
#endif
using namespace triqs::utility; using C = std::complex<double>;
namespace env { struct call { int kind; double nu, x, v; }; static std::vector<call> calls; static double f(int kind, double nu, double x) { for (auto &c : calls) if (c.kind == kind && c.nu == nu && c.x == x) return c.v; double v = s_real(kind ? "I" : "J", -10, 10); calls.push_back({kind, nu, x, v}); return v; } }
namespace boost::math { double cyl_bessel_j(double nu, double x) { return env::f(0, nu, x); } double cyl_bessel_i(double nu, double x) { return env::f(1, nu, x); } }
// coefficients of P_n times 2^n: exact integers
static double coef(int n, int k) { double b = 1; for (int i = 0; i < k; ++i) b = b * (n - i) / (i + 1); double c = 1; for (int i = 0; i < n; ++i) c = c * (2 * n - 2 * k - i) / (i + 1); return (k % 2 ? -1 : 1) * b * c; }
static double legendre_p(int n, double x) { double s = 0; for (int k = 0; 2 * k <= n; ++k) { double m = coef(n, k); for (int i = 0; i < n; ++i) m /= 2; for (int i = 0; i < n - 2 * k; ++i) m *= x; s += m; } return s; }
static void series(legendre_generator &g, double x, int n) { for (int k = 0; k <= n; ++k) CLOSETOL(g.next(), legendre_p(k, x), 1e-9, "successive calls give successive Legendre polynomials"); }
ENTRY(h_poly) { double x = s_real("x", -1, 1); legendre_generator g; g.reset(x); series(g, x, N); }
ENTRY(h_outside) { double x = s_real("x", -8, 8); legendre_generator g; g.reset(x); series(g, x, 5); }
ENTRY(h_reset) { double x = s_real("x", -1, 1), y = s_real("y", -1, 1); legendre_generator g; g.reset(x); int k = s_pick("calls", 0, 5); for (int i = 0; i < k; ++i) g.next(); auto h = g; g.reset(y); series(g, y, 5); CLOSETOL(h.next(), legendre_p(k, x), 1e-9, "copies go on independently"); g.reset(x); series(g, x, 3); }
ENTRY(h_ends) { legendre_generator g; double s = s_flag("minus") ? -1 : 1; g.reset(s); for (int k = 0; k < 40; ++k) CLOSETOL(g.next(), (k % 2) ? s : 1, 1e-9, "Legendre polynomials at the ends of the interval"); }
// T_nl = (-1)^n i^(l+1) sqrt(2l+1) j_l((n+1/2) pi), with j_l by the Bessel function of order l + 1/2
ENTRY(h_T) {
  int n = s_pick("n", -LN, LN), l = s_pick("l", 0, LN + 3); int m = n < 0 ? -n - 1 : n; C t = legendre_T(n, l); CHECK(env::calls.size() == 1, "one Bessel function"); if (env::calls.size() != 1) return; auto c = env::calls[0]; CHECK(c.kind == 0, "Bessel function of the first kind"); CHECK(std::fabs(c.nu - (l + 0.5)) < 1e-12, "order of the Bessel function"); CHECK(std::fabs(c.x - (m + 0.5) * M_PI) < 1e-9, "argument of the Bessel function");
  double r = std::sqrt((2 * l + 1) / double(2 * m + 1)) * c.v * (m % 2 ? -1 : 1); static const int RE[] = {0, -1, 0, 1}, IM[] = {1, 0, -1, 0}; C e(r * RE[l % 4], r * IM[l % 4]); if (n < 0) e = std::conj(e); CLOSEC(t, e, "Matsubara-Legendre coefficient");
  C t2 = legendre_T(-n - 1, l); CLOSEC(t2, std::conj(t), "conjugation symmetry"); }
ENTRY(h_t) { int l = s_pick("l", 0, TN), p = s_pick("p", 1, TN + 2); double t = legendre_t(l, p), f = 1; if ((l + p) % 2 == 0 || p > l + 1) { CHECK(t == 0, "tail coefficients of wrong parity or order vanish"); return; } for (int i = l - p + 2; i <= l + p - 1; ++i) f *= i; for (int i = 2; i < p; ++i) f /= i; double e = (p % 2 ? -2 : 2) * f; CLOSETOL(t / e, std::sqrt(2 * l + 1.0), 1e-9, "tail coefficient"); }
ENTRY(h_bessel) { int n = s_pick("n", 0, 4); double x = s_real("x", 0, 50); double v = mod_cyl_bessel_i(n, x); if (x == 0) { CHECK(v == (n == 0 ? 1 : 0), "value at zero"); return; } CHECK(env::calls.size() == 1, "one Bessel function"); if (env::calls.size() != 1) return; auto c = env::calls[0]; CHECK(c.kind == 1 && std::fabs(c.nu - (n + 0.5)) < 1e-12, "order of the Bessel function"); CHECK(c.x == x, "argument of the Bessel function"); CHECK((v >= 0) | (c.v <= 0), "sign"); CHECK((v <= 0) | (c.v >= 0), "sign"); CLOSE(v * v * x, c.v * c.v * (M_PI / 2), "modified spherical Bessel function"); }
