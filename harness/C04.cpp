// C04: many-body states form a vector space, for both storages.
#include <triqs/hilbert_space/state.hpp>
#include "sym.h"
using namespace triqs::hilbert_space; using F = uint64_t; using dcomplex = std::complex<double>;
static double amp(const char *n, bool maybe_zero) { double x = s_real(n, -8, 8); bool big = (x > 0.125) | (x < -0.125); ASSUME(maybe_zero ? big | (x == 0) : big); return x; }
template <typename S> S val(const char *n, bool mz) { if constexpr (std::is_same_v<S, double>) return amp(n, mz); else return S(amp(n, false), s_real(n, -4, 4)); }
static double sc(const char *n) { double x = s_real(n, -4, 4); ASSUME((x > 0.125) | (x < -0.125)); return x; }
template <typename ST> std::vector<typename ST::value_type> dense(ST const &s, int d) {
  std::vector<typename ST::value_type> r(d, typename ST::value_type(0)); std::vector<int> hit(d, 0);
  foreach (s, [&](int i, typename ST::value_type v) { CHECK(i >= 0 && i < d, "iteration yields valid indices"); r[i] = v; CHECK(++hit[i] == 1, "an amplitude is visited once"); });
  return r;
}
template <typename ST> void algebra(hilbert_space const &hs, std::vector<int> const &ia, std::vector<int> const &ib, bool mz) {
  using S = typename ST::value_type; int d = hs.size(); ST a(hs), b(hs); std::vector<S> A(d, S(0)), B(d, S(0));
  for (int i : ia) a(i) = A[i] = val<S>("a", mz); for (int i : ib) b(i) = B[i] = val<S>("b", mz);
  CHECK(a.size() == d && &a.get_hilbert() == &hs, "the state knows its space");
  double x = sc("x"); ST sum = a + b, dif = a - b, lin = S(x) * a, lin2 = a * S(x), quo = a / S(x); ST c = a; c += a; ST zz = a - a;
  auto s = dense(sum, d), m = dense(dif, d), l = dense(lin, d), l2 = dense(lin2, d), q = dense(quo, d), cc = dense(c, d), z = dense(zz, d), aa = dense(a, d), z2 = dense(make_zero_state(a), d);
  S dot(0), dot2(0);
  for (int i = 0; i < d; ++i) {
    CLOSEC(aa[i], A[i], "amplitudes are stored"); CLOSEC(s[i], A[i] + B[i], "sum"); CLOSEC(m[i], A[i] - B[i], "difference"); CLOSEC(l[i], A[i] * S(x), "scaling (left)"); CLOSEC(l2[i], A[i] * S(x), "scaling (right)"); CLOSEC(q[i] * S(x), A[i], "division"); CLOSEC(cc[i], A[i] + A[i], "in-place sum"); CLOSEC(z[i], S(0), "x - x"); CLOSEC(z2[i], S(0), "make_zero_state");
    if constexpr (std::is_same_v<S, double>) dot += A[i] * B[i]; else dot += std::conj(A[i]) * B[i];
  }
  CLOSEC(dot_product(a, b), dot, "scalar product"); 
  auto a2 = dense(a, d); for (int i = 0; i < d; ++i) CLOSEC(a2[i], A[i], "operands are unchanged");
}
static hilbert_space space(int n) { fundamental_operator_set f; for (int i = 0; i < n; ++i) f.insert((long)i); return hilbert_space(f); }
ENTRY(h_vector) { auto hs = space(2); algebra<state<hilbert_space, double, false>>(hs, {0, 1, 2, 3}, {0, 1, 2, 3}, true); }
ENTRY(h_vector_complex) { auto hs = space(2); algebra<state<hilbert_space, dcomplex, false>>(hs, {0, 1, 3}, {0, 2, 3}, false); }
ENTRY(h_map) { auto hs = space(3); algebra<state<hilbert_space, double, true>>(hs, {1, 6}, {6, 3}, true); }
ENTRY(h_map_disjoint) { auto hs = space(3); algebra<state<hilbert_space, double, true>>(hs, {0, 7}, {5}, false); }
ENTRY(h_map_complex) { auto hs = space(2); algebra<state<hilbert_space, dcomplex, true>>(hs, {2}, {2, 3}, false); }
// basis state constructor; writing to an amplitude
template <typename ST> void basis(hilbert_space const &hs) { int i = s_pick("i", 0, hs.size() - 1); ST a(hs, i); auto v = dense(a, hs.size()); for (int k = 0; k < hs.size(); ++k) CLOSEC(v[k], typename ST::value_type(k == i), "basis state"); a(i) = 0; a((i + 1) % hs.size()) = 2.; v = dense(a, hs.size()); for (int k = 0; k < hs.size(); ++k) CLOSEC(v[k], typename ST::value_type(k == (i + 1) % hs.size() ? 2 : 0), "assignment to an amplitude"); }
ENTRY(h_basis) { auto hs = space(3); basis<state<hilbert_space, double, false>>(hs); basis<state<hilbert_space, double, true>>(hs); basis<state<hilbert_space, dcomplex, true>>(hs); }
// projection between the full space and sub-spaces
template <bool M1, bool M2> void projections() {
  auto hs = space(3); F f[3]; sub_hilbert_space sub(1), sub2(2);
  f[0] = s_pick("f0", 0, 7); f[1] = (f[0] + 3) % 8; f[2] = (f[0] + 5) % 8; for (F x : f) sub.add_fock_state(x); sub2.add_fock_state(f[2]); sub2.add_fock_state((f[0] + 1) % 8); sub2.add_fock_state(f[0]);
  using SF = state<hilbert_space, double, M1>; using SS = state<sub_hilbert_space, double, M2>;
  SF psi(hs); double A[8]; for (int i = 0; i < 8; ++i) psi(i) = A[i] = amp("a", false);
  SS p = project<SS>(psi, sub); CHECK(p.size() == 3, "size of the projected state"); auto v = dense(p, 3); for (int i = 0; i < 3; ++i) CLOSE(v[i], A[f[i]], "projection onto a sub-space keeps its amplitudes");
  SF back = project<SF>(p, hs); auto w = dense(back, 8); for (int i = 0; i < 8; ++i) CLOSE(w[i], (F(i) == f[0] || F(i) == f[1] || F(i) == f[2]) ? A[i] : 0., "embedding into the full space");
  SS p2 = project<SS>(p, sub2); auto u = dense(p2, 3); CLOSE(u[0], A[f[2]], "projection between sub-spaces"); CLOSE(u[1], 0., "projection between sub-spaces, state outside"); CLOSE(u[2], A[f[0]], "projection between sub-spaces");
}
ENTRY(h_project_vv) { projections<false, false>(); }
ENTRY(h_project_mv) { projections<true, false>(); }
ENTRY(h_project_vm) { projections<false, true>(); }
