// C01: the operator algebra is canonical and exact.  Oracle: every operator expression is also evaluated as a
// matrix on the Fock space of the flavours involved, independently of many_body_operator.
#include <triqs/operators/many_body_operator.hpp>
#include "sym.h"
#include <cmath>
using namespace triqs::operators; using dcomplex = std::complex<double>;
template <typename T> using OP = many_body_operator_generic<T>;
using ix_t = indices_t; using lv = std::variant<long, std::string>;
struct mode { long x; };
// ---- reference: matrices over nm modes; letters (dagger, mode)
struct letter { bool dag; int m; };
static int par(unsigned v) { return __builtin_popcount(v) & 1; }
static bool act(letter l, unsigned &f, int &s) { unsigned b = 1u << l.m; if (((f & b) != 0) == l.dag) return false; if (par(f & (b - 1))) s = -s; f ^= b; return true; }
template <typename T> struct Mat { int n; std::vector<T> a; Mat(int nm) : n(1 << nm), a(size_t(n) * n, T(0)) {} T &operator()(int i, int j) { return a[i * n + j]; } T const &operator()(int i, int j) const { return a[i * n + j]; } };
template <typename T> Mat<T> word(int nm, std::vector<letter> const &w, T c) { Mat<T> r(nm); for (int j = 0; j < r.n; ++j) { unsigned f = j; int s = 1; bool ok = true; for (int k = w.size() - 1; ok && k >= 0; --k) ok = act(w[k], f, s); if (ok) r(f, j) = s > 0 ? c : -c; } return r; }
template <typename T> Mat<T> operator+(Mat<T> a, Mat<T> const &b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] = a.a[i] + b.a[i]; return a; }
// mode number of an index list, given the table
using table = std::vector<ix_t>;
static int find(table const &t, ix_t const &i) { for (size_t k = 0; k < t.size(); ++k) if (t[k] == i) return k; CHECK(false, "!operator contains a flavour that was not put in"); return 0; }
template <typename T> Mat<T> matrix(table const &t, OP<T> const &op) {
  Mat<T> r(t.size());
  for (auto const &term : op) { std::vector<letter> w; for (auto const &c : term.monomial) w.push_back({c.dagger, find(t, c.indices)}); r = r + word<T>(t.size(), w, term.coef); }
  return r;
}
template <typename T> void same(Mat<T> const &a, Mat<T> const &b) { for (size_t i = 0; i < a.a.size(); ++i) { if constexpr (std::is_same_v<T, double>) CLOSE(a.a[i], b.a[i], "matrix of the operator"); else CLOSEC(a.a[i], b.a[i], "matrix of the operator"); } }
// canonical form: daggers first; increasing then decreasing flavours; no repeated letter; map strictly ordered; nonzero coefficients
template <typename T> void canonical(OP<T> const &op) {
  for (auto const &term : op) {
    auto const &m = term.monomial;
    for (size_t i = 1; i < m.size(); ++i) {
      bool ok = m[i - 1].dagger == m[i].dagger ? (m[i].dagger ? m[i - 1].indices < m[i].indices : m[i].indices < m[i - 1].indices) : m[i - 1].dagger;
      CHECK(ok, "monomials are normal ordered and sorted");
    }
    CHECK(term.coef != T(0), "no zero coefficient is stored");
  }
}
static OP<double> L(letter l, table const &t) { return OP<double>::make_canonical(l.dag, t[l.m]); }
// symbolic flavours: n long indices with every ordering and coincidence; returns table of the distinct ones and the mode of each letter
static std::vector<letter> letters(int n, table &t, int fixed = 0) { // the first `fixed` letters alternate c+, c
  std::vector<letter> w;
  for (int i = 0; i < n; ++i) { long v = (long)__sym_int("flavour", 64); bool d = i < fixed ? i % 2 == 0 : s_flag("dagger"); ix_t id{v}; int k = -1; for (size_t j = 0; j < t.size(); ++j) if (t[j] == id) k = j; if (k < 0) { k = t.size(); t.push_back(id); } w.push_back({d, k}); }
  return w;
}
static double coef(const char *n) { double x = s_real(n, -64, 64); ASSUME((x > 0.03125) | (x < -0.03125)); return x; }
#ifdef THOROUGH
#define NFIX 0
#else
#define NFIX 3
#endif
static void test_word(int n, int fixed = 0) {
  table t; auto w = letters(n, t, fixed); double c = coef("c");
  OP<double> op(c); for (auto l : w) op = op * L(l, t);
  canonical(op); same(matrix(t, op), word<double>(t.size(), w, c));
  OP<double> op2(c); { OP<double> r(1.0); for (int k = n - 1; k >= 0; --k) r = L(w[k], t) * r; op2 = c * r; }
  CHECK(op == op2, "associativity: left and right products are the same object");
  CHECK(op.get_monomials().size() == op2.get_monomials().size(), "same number of terms");
  auto d = dagger(op); canonical(d);
  std::vector<letter> wd; for (int k = n - 1; k >= 0; --k) wd.push_back({!w[k].dag, w[k].m});
  same(matrix(t, d), word<double>(t.size(), wd, c));
  CHECK(dagger(d) == op, "dagger is an involution");
}
ENTRY(h_word2) { test_word(2); }
ENTRY(h_word3) { test_word(3); }
ENTRY(h_word4) { test_word(4, NFIX / 2); }
ENTRY(h_word5) { test_word(5); } // irsym: thorough-only
// the canonical anticommutation relations for arbitrary flavours of mixed kinds
static ix_t some_index(const char *n) { switch (s_pick(n, 0, 4)) { case 0: return {(long)__sym_int("i", 64)}; case 1: return {std::string("up"), (long)__sym_int("j", 64)}; case 2: return {std::string("do"), (long)__sym_int("k", 64)}; case 3: return {std::string("up")}; default: return {}; } }
ENTRY(h_car) {
  ix_t a = some_index("a"), b = some_index("b"); using O = OP<double>;
  O ca = O::make_canonical(false, a), cb = O::make_canonical(false, b), da = O::make_canonical(true, a), db = O::make_canonical(true, b);
  CHECK((ca * cb + cb * ca).is_zero(), "{c,c} = 0"); CHECK((da * db + db * da).is_zero(), "{c+,c+} = 0");
  O x = da * cb + cb * da; bool eq = a == b;
  CHECK(eq ? x == O(1.0) : x.is_zero(), "{c+_a,c_b} = delta_ab");
  canonical(da * cb); canonical(cb * da); canonical(ca * cb); canonical(db * da);
}
// sums and products of sums: distributivity, commuting scalars, cancellation
ENTRY(h_bilinear) {
  table t; using O = OP<double>;
  auto w = letters(4, t, NFIX); double a = coef("a"), b = coef("b"), c = coef("c"), d = coef("d");
  O A = a * L(w[0], t) + b * L(w[1], t), B = c * L(w[2], t) + L(w[3], t) + d;
  O P = A * B; canonical(A); canonical(B); canonical(P);
  int n = t.size();
  auto M = word<double>(n, {w[0], w[2]}, a * c) + word<double>(n, {w[0], w[3]}, a) + word<double>(n, {w[1], w[2]}, b * c) + word<double>(n, {w[1], w[3]}, b) + word<double>(n, {w[0]}, a * d) + word<double>(n, {w[1]}, b * d);
  same(matrix(t, P), M);
}
ENTRY(h_sum) {
  table t; using O = OP<double>;
  auto w = letters(3, t, NFIX / 2); double a = coef("a"), b = coef("b"), c = coef("c"), s = coef("s");
  O A = a * L(w[0], t), B = b * L(w[1], t) + s, C = c * L(w[2], t); int n = t.size();
  O S = A + B - C; canonical(S);
  same(matrix(t, S), word<double>(n, {w[0]}, a) + word<double>(n, {w[1]}, b) + word<double>(n, {}, s) + word<double>(n, {w[2]}, -c));
  CHECK((S - S).is_zero(), "x - x is the zero operator"); O Z = S; Z -= S; CHECK(Z.is_zero() && Z == O(), "cancellation leaves no term");
  CHECK(S + (-S) == O(), "unary minus"); CHECK((S * 0.0).is_zero(), "times zero");
  CHECK(A + B == B + A, "addition commutes");
  same(matrix(t, s - S), word<double>(n, {}, s) + matrix(t, -S));
  same(matrix(t, S - s), word<double>(n, {}, -s) + matrix(t, S));
  same(matrix(t, S * c), matrix(t, c * S));
  same(matrix(t, (S * c) / c), matrix(t, S));
}
// complex coefficients: antilinear dagger, real and imaginary part, hermiticity test
ENTRY(h_complex) {
  using O = OP<dcomplex>; table t; auto w = letters(2, t); int n = t.size();
  dcomplex c{s_real("re"), s_real("im")}; ASSUME(c.real() > 0.1); ASSUME(c.imag() > 0.1);
  auto LL = [&](letter l) { return O::make_canonical(l.dag, t[l.m]); };
  O op = c * LL(w[0]) * LL(w[1]) + dcomplex(0, 1);
  auto M = word<dcomplex>(n, {w[0], w[1]}, c) + word<dcomplex>(n, {}, dcomplex(0, 1));
  same(matrix(t, op), M);
  auto D = matrix(t, dagger(op)); for (int i = 0; i < D.n; ++i) for (int j = 0; j < D.n; ++j) CLOSEC(D(i, j), std::conj(M(j, i)), "dagger is the adjoint matrix");
  CHECK(real(op) + dcomplex(0, 1) * imag(op) == op, "real + i imag");
  CHECK(is_op_hermitian(op + dagger(op), 1e-9), "x + dagger(x) is hermitian");
  bool herm = true; for (int i = 0; i < D.n; ++i) for (int j = 0; j < D.n; ++j) herm &= std::abs(D(i, j).real() - M(i, j).real()) + std::abs(D(i, j).imag() - M(i, j).imag()) < 1e-3;
  CHECK(is_op_hermitian(op, 1e-9) == herm, "is_op_hermitian agrees with the matrix");
}
// real_or_complex scalars follow the same algebra and remember whether they are real
ENTRY(h_real_or_complex) {
  using O = many_body_operator; table t; auto w = letters(2, t); double a = coef("a"); dcomplex c{coef("re"), coef("im")}; bool cplx = s_flag("cplx");
  auto LL = [&](letter l) { return O::make_canonical(l.dag, t[l.m]); };
  O op = (cplx ? real_or_complex(c) : real_or_complex(a)) * LL(w[0]) * LL(w[1]);
  many_body_operator_complex oc = many_body_operator_complex(op); int n = t.size();
  same(matrix(t, oc), word<dcomplex>(n, {w[0], w[1]}, cplx ? c : dcomplex(a)));
  for (auto const &term : op) CHECK(term.coef.is_real() == !cplx, "realness of the coefficients");
  if (!cplx) { many_body_operator_real r(op); same(matrix(t, r), word<double>(n, {w[0], w[1]}, a)); }
}
ENTRY(h_fops_h5) {
  using O = many_body_operator; table t; auto w = letters(3, t); double a = coef("a"), b = coef("b");
  auto LL = [&](letter l) { return O::make_canonical(l.dag, t[l.m]); };
  O op = a * LL(w[0]) * LL(w[1]) + real_or_complex(dcomplex(0, b)) * LL(w[2]) + 1.5;
  auto f = op.make_fundamental_operator_set();
  for (auto const &term : op) for (auto const &x : term.monomial) CHECK(f.has_indices(x.indices), "every flavour is in the fundamental set");
  auto d = f.data(); for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK(!(d[i] == d[j]), "no flavour twice");
}
ENTRY(h_h5) {
  using O = many_body_operator; double a = coef("a"), b = coef("b"); table t{{0L}, {std::string("up"), 1L}, {std::string("do"), -3L}, {}};
  auto ix = [&](const char *n) { return t[s_pick(n, 0, 3)]; };
  O op = a * O::make_canonical(true, ix("i")) * O::make_canonical(false, ix("j")) + real_or_complex(dcomplex(0, b)) * O::make_canonical(s_flag("d"), ix("k")) + 1.5 + 2. * O::make_canonical(true, t[0]) * O::make_canonical(true, t[1]) * O::make_canonical(false, t[2]) * O::make_canonical(false, t[3]);
  { h5::file file; h5::group g(file); h5_write(g, "op", op); O r; h5_read(g, "op", r); CHECK(r == op && r.get_monomials().size() == op.get_monomials().size(), "HDF5 round trip"); for (auto const &term : r) CHECK(term.coef.is_real() == op.get_monomials().at(term.monomial).is_real(), "HDF5 round trip keeps realness"); }
  using F = triqs::hilbert_space::fundamental_operator_set; F fs(t), f2; { h5::file file; h5::group g(file); h5::write_attribute(g, "f", fs); h5::read_attribute(g, "f", f2); } CHECK(f2 == fs, "HDF5 round trip of the fundamental set");
}
