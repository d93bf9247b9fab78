// C16: numeric helpers and the real-or-complex number.
#include <triqs/utility/numeric_ops.hpp>
#include <triqs/utility/real_or_complex.hpp>
#include <limits>
#include "sym.h"
namespace u = triqs::utility; using C = std::complex<double>; using R = u::real_or_complex;
template <typename T> void integral(const char *n) { T x = (T)__sym_int(n, sizeof(T) * 8); CHECK(u::is_zero(x) == (x == 0), "an integer is zero iff it is 0"); CHECK(u::conj(x) == x && u::real(x) == x && u::imag(x) == 0, "integers are real"); }
ENTRY(h_integral) { integral<int>("i"); integral<long>("l"); integral<unsigned long>("u"); integral<short>("s"); integral<signed char>("c"); }
ENTRY(h_double) { double x = s_real("x"), t = s_real("tol", 0, 10); CHECK(u::is_zero(x, t) == ((x < t) & (-x < t)), "within the tolerance of zero"); double d = 100 * std::numeric_limits<double>::epsilon(); CHECK(u::is_zero(x) == ((x < d) & (-x < d)), "within the default tolerance of zero"); CHECK(u::conj(x) == x, "reals are their own conjugate"); CHECK(u::real(x) == x, "real part of a real"); CHECK(u::imag(x) == 0, "imaginary part of a real"); }
ENTRY(h_double_fp) { double x = s_real("x"), t = s_real("tol", 0, 10); CHECK(u::is_zero(x, t) == ((x < t) & (-x < t)), "within the tolerance of zero"); double d = 100 * std::numeric_limits<double>::epsilon(); CHECK(u::is_zero(x) == ((x < d) & (-x < d)), "within the default tolerance of zero"); } // irsym: --fp
ENTRY(h_complex) { C x(s_real("re"), s_real("im")); double t = s_real("tol", 0, 10); auto in = [](double a, double t) { return (a < t) & (-a < t); }; CHECK(u::is_zero(x, t) == (in(x.real(), t) & in(x.imag(), t)), "both parts within the tolerance of zero"); double d = 100 * std::numeric_limits<double>::epsilon(); CHECK(u::is_zero(x) == (in(x.real(), d) & in(x.imag(), d)), "both parts within the default tolerance of zero"); C c = u::conj(x), re = u::real(x), im = u::imag(x); CHECK((c.real() == x.real()) & (c.imag() == -x.imag()), "conjugation"); CHECK((re.real() == x.real()) & (re.imag() == 0), "real part"); CHECK((im.real() == x.imag()) & (im.imag() == 0), "imaginary part"); }
// a number that is real or complex, and its reference
struct num { R r; C c; bool real; }; 
static num input(const char *n, bool nonzero = false) { if (s_flag(n)) { double x = s_real("x", -100, 100); if (nonzero) ASSUME((x > 0.01) | (x < -0.01)); return {R(x), C(x, 0), true}; } double a = s_real("re", -100, 100), b = s_real("im", -100, 100); if (nonzero) ASSUME((a > 0.01) | (a < -0.01) | (b > 0.01) | (b < -0.01)); return {R(C(a, b)), C(a, b), false}; }
static void agree(R const &r, C c, bool rl) { CHECK(r.is_real() == rl, "real iff every operand was"); CLOSE(real(r), c.real(), "value"); CLOSE(imag(r), c.imag(), "value"); if (rl) { CLOSE(double(r), c.real(), "value"); CHECK(imag(r) == 0, "real numbers have no imaginary part"); } else CHECK(throws([&] { (void)double(r); }), "complex numbers are not converted to real ones"); C z = C(r); CLOSEC(z, c, "value"); }
static C mul(C a, C b) { return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()}; }
// r == a/b iff r*b == a
static void quotient(R const &r, C a, C b, bool rl) { CHECK(r.is_real() == rl, "real iff every operand was"); C q(real(r), imag(r)); CLOSEC(mul(q, b), a, "quotient"); if (rl) CHECK(imag(r) == 0, "real numbers have no imaginary part"); }
ENTRY(h_ops) { auto a = input("a"), b = input("b"); bool re = a.real && b.real; agree(a.r, a.c, a.real);
  switch (s_pick("op", 0, 2)) { case 0: agree(a.r + b.r, a.c + b.c, re); { R x = a.r; x += b.r; agree(x, a.c + b.c, re); } break; case 1: agree(a.r - b.r, a.c - b.c, re); { R x = a.r; x -= b.r; agree(x, a.c - b.c, re); } break; case 2: agree(a.r * b.r, mul(a.c, b.c), re); { R x = a.r; x *= b.r; agree(x, mul(a.c, b.c), re); } break; }
  agree(a.r, a.c, a.real); agree(b.r, b.c, b.real); agree(-a.r, -a.c, a.real); agree(conj(a.r), std::conj(a.c), a.real); }
ENTRY(h_mixed) { auto a = input("a"); double d = s_real("d", -100, 100); C z(s_real("zr", -100, 100), s_real("zi", -100, 100));
  switch (s_pick("op", 0, 2)) { case 0: agree(a.r + d, a.c + d, a.real); agree(d + a.r, a.c + d, a.real); agree(a.r + z, a.c + z, false); agree(z + a.r, a.c + z, false); break; case 1: agree(a.r - d, a.c - d, a.real); agree(d - a.r, d - a.c, a.real); agree(a.r - z, a.c - z, false); agree(z - a.r, z - a.c, false); break; case 2: agree(a.r * d, a.c * d, a.real); agree(d * a.r, a.c * d, a.real); agree(a.r * z, mul(a.c, z), false); agree(z * a.r, mul(a.c, z), false); break; } }
ENTRY(h_div) { auto a = input("a"), b = input("b", true); quotient(a.r / b.r, a.c, b.c, a.real && b.real); }
ENTRY(h_div_mixed) { auto b = input("b", true); switch (s_pick("op", 0, 3)) { case 0: { double d = s_real("d", -100, 100); quotient(d / b.r, d, b.c, b.real); break; } case 1: { C z(s_real("zr", -100, 100), s_real("zi", -100, 100)); quotient(z / b.r, z, b.c, false); break; } case 2: { double d = s_real("d", 0.1, 100); quotient(b.r / d, b.c, d, b.real); break; } case 3: { C z(s_real("zr", 0.1, 100), s_real("zi", -100, 100)); quotient(b.r / z, b.c, z, false); break; } } }
ENTRY(h_compare) { auto a = input("a"), b = input("b"); bool eq = (a.c.real() == b.c.real()) & (a.c.imag() == b.c.imag()); CHECK((a.r == b.r) == eq, "equal iff both parts are"); CHECK((a.r != b.r) == !eq, "equal iff both parts are"); auto in = [](double a, double t) { return (a < t) & (-a < t); }; double t = s_real("tol", 0, 10); CHECK(is_zero(a.r, t) == (in(a.c.real(), t) & in(a.c.imag(), t)), "both parts within the tolerance of zero"); double m = abs(a.r); CHECK(m >= 0, "modulus"); CLOSE(m * m, a.c.real() * a.c.real() + a.c.imag() * a.c.imag(), "modulus"); R z; agree(z, 0, true); }
ENTRY(h_chain) { auto a = input("a"), b = input("b"), c = input("c"); R x = a.r; x *= b.r; x += c.r; x -= a.r; agree(x, mul(a.c, b.c) + c.c - a.c, a.real && b.real && c.real); x = c.r; agree(x, c.c, c.real); }
