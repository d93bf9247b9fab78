// C02: imperative_operator acts on Fock states exactly as the second-quantised operator it was built from.
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include "sym.h"
using namespace triqs::hilbert_space; using namespace triqs::operators;
using op_t = many_body_operator_real; using F = uint64_t;
// reference: |n> = C^+_0^{n0} C^+_1^{n1} ... |0>; applies C_k / C^+_k; sign 0 = annihilated
static bool par(F v) { int s = 0; v ^= v >> 32; v ^= v >> 16; v ^= v >> 8; v ^= v >> 4; v ^= v >> 2; v ^= v >> 1; return v & 1; }
struct R { F f; int s; };
static R apply1(R r, bool dag, int k) {
  F b = F(1) << k; bool occ = (r.f & b) != 0;
  int s = (occ == dag) ? 0 : r.s; s = par(r.f & (b - 1)) ? -s : s;
  return {dag ? (r.f | b) : (r.f & ~b), s};
}
static fundamental_operator_set make_fops(int n) { fundamental_operator_set::data_t v; for (long i = 0; i < n; ++i) v.push_back({i}); return fundamental_operator_set(v); }
static op_t cr(bool dag, long k) { return op_t::make_canonical(dag, {k}); }
using st_t = state<sub_hilbert_space, double, false>;

// act with the product of nops canonical operators (leftmost first) on the Fock state f of 64 modes
template <int N> static void act(fundamental_operator_set const &fops, std::array<bool, N> dag, std::array<long, N> k, double coef) {
  op_t op(coef);
  for (int i = 0; i < N; ++i) op = op * cr(dag[i], k[i]);
  F f = __sym_int("f", 64);
  R r{f, 1};
  for (int i = N - 1; i >= 0; --i) r = apply1(r, dag[i], k[i]);
  ASSUME(r.s != 0); // annihilation is checked by h_zero*
  bool same = s_flag("same"); ASSUME((r.f == f) == same);
  sub_hilbert_space A(0), B(1);
  A.add_fock_state(f); B.add_fock_state(r.f);
  if (!same) A.add_fock_state(r.f);
  double a = s_real("amp");
  imperative_operator<sub_hilbert_space, double, false> im(op, fops);
  st_t st(A); st(0) = a;
  auto out = im(st);
  CLOSE(out(same ? 0 : 1), a * coef * r.s, "amplitude and sign of the image");
  if (!same) CLOSE(out(0), 0.0, "nothing left on the original state");
  std::vector<sub_hilbert_space> subs{A, B};
  imperative_operator<sub_hilbert_space, double, true> imm(op, fops, std::vector<int>{1, -1}, &subs);
  st_t st2(subs[0]); st2(0) = a;
  auto out2 = imm(st2);
  CHECK(out2.get_hilbert().get_index() == 1 && out2.size() == 1, "mapped subspace");
  CLOSE(out2(0), a * coef * r.s, "amplitude and sign, with map");
}
template <int N> static void zero(fundamental_operator_set const &fops, std::array<bool, N> dag, std::array<long, N> k) {
  op_t op(1.0); for (int i = 0; i < N; ++i) op = op * cr(dag[i], k[i]);
  F f = __sym_int("f", 64); R r{f, 1}; for (int i = N - 1; i >= 0; --i) r = apply1(r, dag[i], k[i]);
  ASSUME(r.s == 0);
  sub_hilbert_space A(0); A.add_fock_state(f);
  st_t st(A); st(0) = 1;
  auto out = imperative_operator<sub_hilbert_space, double, false>(op, fops)(st);
  CLOSE(out(0), 0.0, "annihilated state gives zero");
}
static const long P[] = {0, 1, 7, 15, 16, 17, 31, 32, 40, 48, 62, 63};
static long pos(const char *n) { return P[s_pick(n, 0, 11)]; }
ENTRY(h_one) { auto fops = make_fops(64); bool d = s_flag("dag"); long k = s_pick("k", 0, 63); act<1>(fops, {d}, {k}, 2.5); }
ENTRY(h_one_zero) { auto fops = make_fops(64); bool d = s_flag("dag"); long k = s_pick("k", 0, 63); zero<1>(fops, {d}, {k}); }
static void two(bool d0, bool d1) { auto fops = make_fops(64); long a = pos("a"), b = pos("b"); if (a == b) return; act<2>(fops, {d0, d1}, {a, b}, -1.5); }
ENTRY(h_two_cc) { two(false, false); }
ENTRY(h_two_dc) { two(true, false); }
ENTRY(h_two_dd) { two(true, true); }
ENTRY(h_density) { auto fops = make_fops(64); long a = s_pick("a", 0, 63); act<2>(fops, {true, false}, {a, a}, 3.); }
ENTRY(h_four) { auto fops = make_fops(64); static const long T[4][4] = {{3, 17, 40, 63}, {63, 31, 0, 32}, {16, 5, 33, 62}, {1, 48, 15, 30}}; int i = s_pick("row", 0, 3); act<4>(fops, {true, true, false, false}, {T[i][0], T[i][1], T[i][2], T[i][3]}, 0.5); }
ENTRY(h_three_interleaved) { auto fops = make_fops(64); static const long T[2][3] = {{3, 17, 40}, {63, 20, 33}}; int i = s_pick("row", 0, 1); act<3>(fops, {false, true, false}, {T[i][0], T[i][1], T[i][2]}, 1.); }
// product of operators = successive action; the order of the fundamental set differs from the order of the flavours;
// states with all 8 amplitudes symbolic, vector and map storage, real and complex
static const int PERM[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}};
template <typename S> static void successive(bool b_only_dag, int nperm) {
  using ST = state<hilbert_space, S, false>; using SM = state<hilbert_space, S, true>; using O = many_body_operator_generic<S>; using I = imperative_operator<hilbert_space, S, false>;
  int p = s_pick("perm", 0, nperm - 1); fundamental_operator_set::data_t v(3); for (long i = 0; i < 3; ++i) v[PERM[p][i]] = {i}; fundamental_operator_set fops(v);
  hilbert_space hs(fops); CHECK(hs.size() == 8, "dimension");
  struct L { bool d; long m; } l[3]; for (int i = 0; i < 3; ++i) l[i] = {i == 1 ? !b_only_dag : s_flag("d"), s_pick("m", 0, 2)};
  auto op = [&](int i) { return O::make_canonical(l[i].d, {l[i].m}); };
  O A = S(2.) * op(0) * op(1) + S(0.5) * op(2), B = op(2) + S(3.);
  ST psi(hs); SM psm(hs); std::vector<S> a(8);
  for (int i = 0; i < 8; ++i) { a[i] = S(s_real("amp", 1, 2)); if constexpr (!std::is_same_v<S, double>) a[i] += S(0, s_real("ampi", 1, 2)); psi(i) = a[i]; psm(i) = a[i]; }
  auto ref = [&](std::vector<S> const &x, int i) { std::vector<S> r(8, S(0)); for (int f = 0; f < 8; ++f) { R q = apply1({F(f), 1}, l[i].d, PERM[p][l[i].m]); if (q.s) r[q.f] += x[f] * S(q.s); } return r; };
  auto b0 = ref(a, 2); for (int i = 0; i < 8; ++i) b0[i] += S(3.) * a[i];
  auto c0 = ref(ref(b0, 1), 0), c1 = ref(b0, 2);
  ST r1 = I(A * B, fops)(psi), r2 = I(A, fops)(I(B, fops)(psi)); SM r3 = I(A, fops)(I(B, fops)(psm));
  for (int i = 0; i < 8; ++i) { S e = S(2.) * c0[i] + S(0.5) * c1[i]; CLOSEC(r1(i), e, "action of a product"); CLOSEC(r2(i), e, "successive action"); CLOSEC(r3(i), e, "successive action, map storage"); }
  I z; CHECK(z.is_empty() && I(O(), fops).is_empty(), "zero operator is empty");
}
ENTRY(h_successive) { successive<double>(false, 3); }
ENTRY(h_successive_complex) { successive<std::complex<double>>(true, 1); }
ENTRY(h_successive_all) { successive<double>(true, 6); } // irsym: thorough-only
