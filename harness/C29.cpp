// C29: exact diagonalisation of small fermionic systems and the Green's functions built from it.
#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
#include <nda/linalg/eigenelements.hpp>
#include "sym.h"
using namespace triqs; using namespace triqs::gfs; using namespace triqs::mesh; using namespace triqs::operators;
using std::vector; using std::string; using std::pair; using C = dcomplex; using fops_t = hilbert_space::fundamental_operator_set;
// i_{n+1/2} by its power series (concrete arguments)
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double v, double x) { double t = std::pow(x / 2, v) / std::tgamma(v + 1), s = t; for (int k = 1; k < 60; k++) { t *= (x * x / 4) / (k * (k + v)); s += t; } return s; } }
static const C I(0, 1);
template <bool Z> using AD = atom_diag::atom_diag<Z>; template <bool Z> using OP = many_body_operator_generic<std::conditional_t<Z, C, double>>;
using mat = vector<vector<C>>;
static mat zeros(size_t n, size_t m) { return mat(n, vector<C>(m, C(0))); }
static mat mul(mat const &a, mat const &b) { mat r = zeros(a.size(), b[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) if (a[i][k] != C(0) && b[k][j] != C(0)) r[i][j] += a[i][k] * b[k][j]; return r; }
static mat dag(mat const &a) { mat r = zeros(a[0].size(), a.size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < a.size(); j++) r[i][j] = std::conj(a[j][i]); return r; }
// reference: |n> = C^+_0^{n0} C^+_1^{n1} ... |0>
static int parity(size_t f, int k) { return __builtin_popcountl(f & ((1ul << k) - 1)) % 2 ? -1 : 1; }
static mat ladder(int modes, int k, bool dagger) { size_t n = 1 << modes; mat r = zeros(n, n); for (size_t f = 0; f < n; f++) if (((f >> k) & 1) == !dagger) r[f ^ (1 << k)][f] = parity(f, k); return r; }
template <typename O> mat dense(O const &op, fops_t const &fops) { size_t n = 1ul << fops.size(); mat r = zeros(n, n); for (auto const &t : op) { vector<pair<int, bool>> w; for (auto const &o : t.monomial) w.push_back({fops[o.indices], o.dagger}); for (size_t j = 0; j < n; j++) { size_t f = j; int sg = 1; for (size_t q = w.size(); q-- && sg;) { auto [k, d] = w[q]; if (((f >> k) & 1) == d) sg = 0; else { sg *= parity(f, k); f ^= 1ul << k; } } if (sg) r[f][j] += double(sg) * C(t.coef); } } return r; }
static fops_t modes(int n) { fops_t f; for (int i = 0; i < n; i++) f.insert("s", i); return f; }
template <bool Z> OP<Z> cd(int i) { return OP<Z>::make_canonical(true, hilbert_space::fundamental_operator_set::indices_t{"s", i}); }
template <bool Z> OP<Z> cc(int i) { return OP<Z>::make_canonical(false, hilbert_space::fundamental_operator_set::indices_t{"s", i}); }
template <bool Z> OP<Z> nn(int i) { return cd<Z>(i) * cc<Z>(i); }
// levels: every value in the thorough tier, samples otherwise (the other parameters of a Hamiltonian are symbolic in both)
#ifdef THOROUGH
static double any(const char *n, std::initializer_list<double>, double lo = -2, double hi = 2) { return s_real(n, lo, hi); }
#else
static double any(const char *n, std::initializer_list<double> v, double = 0, double = 0) { return v.begin()[s_pick(n, 0, v.size() - 1)]; }
#endif
static double big(const char *n, double m = 2) { double x = s_real(n, -m, m); ASSUME((x >= 0.1) | (x <= -0.1)); return x; }
// rotations that diagonalise [[7,24],[24,-7]] with a phase
static void hints() { nda::linalg::eig_hints.clear(); for (C p : {C(1), C(-1), I, -I}) { nda::matrix<C> u(2, 2); u(0, 0) = 0.8; u(0, 1) = -0.6; u(1, 0) = p * 0.6; u(1, 1) = p * 0.8; nda::linalg::eig_hints.push_back(u); } }
// the transformation from eigenstates (columns, flattened) to Fock states
template <typename A> mat basis(A const &ad) { size_t n = ad.get_full_hilbert_space_dim(), d = 0; for (int sp = 0; sp < ad.n_subspaces(); sp++) d += ad.get_subspace_dim(sp); mat w = zeros(n, d); for (int sp = 0; sp < ad.n_subspaces(); sp++) { auto const &fs = ad.get_fock_states(sp); auto const &u = ad.get_unitary_matrix(sp); for (int i = 0; i < ad.get_subspace_dim(sp); i++) for (size_t k = 0; k < fs.size(); k++) w[fs[k]][ad.flatten_subspace_index(sp, i)] = u(k, i); } return w; }
template <typename A> vector<double> energies(A const &ad) { vector<double> e; for (int sp = 0; sp < ad.n_subspaces(); sp++) for (int i = 0; i < ad.get_subspace_dim(sp); i++) e.push_back(ad.get_eigenvalue(sp, i)); return e; }
template <typename A> vector<int> owner(A const &ad) { vector<int> o; for (int sp = 0; sp < ad.n_subspaces(); sp++) for (int i = 0; i < ad.get_subspace_dim(sp); i++) o.push_back(sp); return o; }
template <typename A, typename H> void verify(A const &ad, H const &h, fops_t const &fops, int nmin = 0, int nmax = 64) {
  int M = fops.size(); size_t n = 1ul << M; CHECK(ad.get_full_hilbert_space_dim() == (int)n, "the full space has a state for every occupation"); CHECK(ad.get_h_atomic() == h && ad.get_fops() == fops, "the Hamiltonian and the operators are kept");
  vector<int> sub(n, -1); auto dims = ad.get_subspace_dims(); auto all = ad.get_fock_states(); auto en = ad.get_energies(); auto us = ad.get_unitary_matrices(); int S = ad.n_subspaces(); bool sizes = (int)dims.size() == S && (int)all.size() == S && (int)en.size() == S && (int)us.size() == S; CHECK(sizes, "one entry for every subspace"); if (!sizes) __sym_stop();
  int first = 0; for (int sp = 0; sp < S; sp++) { auto const &fs = ad.get_fock_states(sp); CHECK(fs == all[sp], "one entry for every subspace"); CHECK((int)fs.size() == dims[sp] && dims[sp] > 0 && (int)en[sp].size() == dims[sp] && ad.get_subspace_dim(sp) == dims[sp], "the dimension of a subspace is its number of states"); for (auto f : fs) { CHECK(f < n && sub[f] == -1, "every Fock state lies in one subspace"); sub[f] = sp; } CHECK(ad.flatten_subspace_index(sp, 0) == first, "states are numbered subspace by subspace"); auto r = ad.index_range_of_subspace(sp); CHECK(r.first() == first && r.last() == first + dims[sp], "states are numbered subspace by subspace"); first += dims[sp]; }
  for (size_t f = 0; f < n; f++) { int p = __builtin_popcountl(f); CHECK((sub[f] >= 0) == (p >= nmin && p <= nmax), "exactly the states with an allowed number of particles are kept"); }
  mat H0 = dense(h, fops); for (size_t f = 0; f < n; f++) for (size_t g = 0; g < n; g++) if (sub[f] != -1 && sub[g] != -1 && sub[f] != sub[g]) CHECK(H0[f][g] == C(0), "the Hamiltonian does not connect subspaces");
  double last = 0; for (int sp = 0; sp < S; sp++) { auto const &u = ad.get_unitary_matrix(sp); auto const &fs = all[sp]; int d = dims[sp]; CHECK(u.shape() == (std::array<long, 2>{d, d}) && us[sp].shape() == u.shape(), "the transformation is square");
    for (int i = 0; i < d; i++) { CHECK(en[sp][i] == ad.get_eigenvalue(sp, i), "one entry for every subspace"); for (int j = 0; j < d; j++) { C o = 0, hu = 0; for (int k = 0; k < d; k++) { o += std::conj(C(u(k, i))) * C(u(k, j)); hu += H0[fs[i]][fs[k]] * C(u(k, j)); } CLOSEC(o, C(i == j), "the transformation is unitary"); CLOSEC(hu, C(u(i, j)) * (en[sp][j] + ad.get_gs_energy()), "the states of a subspace are eigenstates with the given energies above the ground state"); } if (i) CHECK(en[sp][i] >= en[sp][i - 1], "energies ascend within a subspace"); }
    CHECK(en[sp][0] >= last - 1e-8, "subspaces are in order of their lowest energy"); last = en[sp][0]; if (sp == 0) CLOSE(last, 0., "the ground state has energy zero"); }
  for (int k = 0; k < M; k++) for (int dg = 0; dg < 2; dg++) { mat c = ladder(M, k, dg); for (int a = 0; a < S; a++) { long b = dg ? ad.cdag_connection(k, a) : ad.c_connection(k, a); for (auto f : all[a]) for (size_t g = 0; g < n; g++) if (c[g][f] != C(0) && sub[g] != -1) CHECK(sub[g] == b, "a creation or annihilation operator maps a subspace into the connected one"); bool any = false; for (auto f : all[a]) for (size_t g = 0; g < n; g++) any |= c[g][f] != C(0) && sub[g] != -1; CHECK(any == (b != -1), "only subspaces with matrix elements are connected"); if (b < 0 || b >= S) continue;
        auto const &m = dg ? ad.cdag_matrix(k, a) : ad.c_matrix(k, a); bool ok = m.shape() == (std::array<long, 2>{dims[b], dims[a]}); CHECK(ok, "matrices of creation and annihilation operators are in the eigenbasis"); if (!ok) __sym_stop(); auto const &ua = ad.get_unitary_matrix(a), &ub = ad.get_unitary_matrix(b); for (int i = 0; i < dims[b]; i++) for (int j = 0; j < dims[a]; j++) { C e = 0; for (int x = 0; x < dims[b]; x++) for (int y = 0; y < dims[a]; y++) if (c[all[b][x]][all[a][y]] != C(0)) e += std::conj(C(ub(x, i))) * c[all[b][x]][all[a][y]] * C(ua(y, j)); CLOSEC(C(m(i, j)), e, "matrices of creation and annihilation operators are in the eigenbasis"); } } }
  auto const &vac = ad.get_vacuum_state(); CHECK(vac.size() == (long)n, "the vacuum is a vector of the full space"); int v = sub[0]; if (v == -1) { CHECK(ad.get_vacuum_subspace_index() == -1, "the vacuum is in no subspace when it is excluded"); for (size_t i = 0; i < n; i++) CHECK(C(vac(i)) == C(0), "the vacuum in the eigenbasis"); } else { CHECK(ad.get_vacuum_subspace_index() == v, "the subspace of the vacuum"); mat w = basis(ad); for (size_t i = 0; i < w[0].size(); i++) CLOSEC(C(vac(i)), std::conj(w[0][i]), "the vacuum in the eigenbasis"); }
}
// Hamiltonians
template <bool Z> OP<Z> diagonal_h() { return any("e0", {-0.6, 0.4}) * nn<Z>(0) + s_real("e1", -2, 2) * nn<Z>(1) + any("u", {-0.7, 0.9}) * nn<Z>(0) * nn<Z>(1); }
template <bool Z> OP<Z> hopping_h(bool imag, double u, double k, double m) { auto t = cd<Z>(0) * cc<Z>(1); OP<Z> h = (m + 7 * k) * nn<Z>(0) + (m - 7 * k) * nn<Z>(1) + u * nn<Z>(0) * nn<Z>(1); if constexpr (Z) { C p = imag ? C(0, -24 * k) : C(24 * k); h += p * t + std::conj(p) * dagger(t); } else h += 24 * k * (t + dagger(t)); return h; }
template <bool Z> OP<Z> hopping_h() { double k = big("k", 0.5), m = any("m", {-1.3, 0.2}), u = any("u", {-1.1, 0.9}); return hopping_h<Z>(Z, u, k, m); }
template <bool Z> OP<Z> pairing_h() { double k = big("k", 0.5), e = any("e", {-1.3, 0.2}), d = any("d", {-0.4, 0.2}); auto t = cd<Z>(0) * cd<Z>(1); OP<Z> h = e * nn<Z>(0) + d * nn<Z>(1) + (-14 * k - e - d) * nn<Z>(0) * nn<Z>(1); double s = s_flag("sign") ? 1 : -1; if constexpr (Z) h += C(0, 24 * s * k) * t + C(0, -24 * s * k) * dagger(t); else h += 24 * s * k * (t + dagger(t)); return h; }
ENTRY(h_diagonal) { auto f = modes(2); auto h = diagonal_h<false>(); verify(AD<false>(h, f), h, f); }
ENTRY(h_hopping) { hints(); auto f = modes(2); auto h = hopping_h<false>(); verify(AD<false>(h, f), h, f); }
ENTRY(h_hopping_complex) { hints(); auto f = modes(2); auto h = hopping_h<true>(); verify(AD<true>(h, f), h, f); }
ENTRY(h_pairing) { hints(); auto f = modes(2); auto h = pairing_h<false>(); verify(AD<false>(h, f), h, f); }
#ifdef THOROUGH
static OP<false> filter_h() { return s_flag("hopping") ? hopping_h<false>() : diagonal_h<false>(); }
#else
static OP<false> filter_h() { if (s_flag("hopping")) return hopping_h<false>(false, 0.9, big("k", 0.5), -0.3); double e = s_real("e1", -2, 2); return -0.6 * nn<false>(0) + e * nn<false>(1) + 0.9 * nn<false>(0) * nn<false>(1); }
#endif
ENTRY(h_filter) { hints(); auto f = modes(2); auto h = filter_h(); int a = s_pick("min", 0, 2), b = s_pick("max", 0, 2); if (a > b) __sym_stop(); verify(AD<false>(h, f, a, b), h, f, a, b); }
ENTRY(h_hybridisation) { hints(); auto f = modes(2); OP<false> y = big("y") * (s_flag("pairing") ? cd<false>(0) * cd<false>(1) + cc<false>(1) * cc<false>(0) : cd<false>(0) * cc<false>(1) + cd<false>(1) * cc<false>(0)); double e = s_real("e", -2, 2), u = s_real("u", -2, 2); auto h = e * (nn<false>(0) + nn<false>(1)) + u * nn<false>(0) * nn<false>(1); AD<false> ad(h, y, f); verify(ad, h, f); mat Y = dense(y, f); for (int a = 0; a < ad.n_subspaces(); a++) for (int b = 0; b < a; b++) for (auto p : ad.get_fock_states(a)) for (auto q : ad.get_fock_states(b)) CHECK(Y[p][q] == C(0), "the hybridisation does not connect subspaces"); }
// the most general quadratic and density-density terms on three modes, with concrete numbers
template <bool Z> OP<Z> three(int v) { OP<Z> h = 0.3 * nn<Z>(0) - 0.7 * nn<Z>(1) + (v == 2 ? -1.9 : 0.2) * nn<Z>(2) + 1.1 * nn<Z>(0) * nn<Z>(2); OP<Z> t = 0.4 * cd<Z>(0) * cc<Z>(1); if (v) t += 0.25 * cd<Z>(1) * cc<Z>(2); if (v == 3) t += 0.3 * cd<Z>(0) * cd<Z>(2); if constexpr (Z) t *= C(0.6, 0.8); return h + t + dagger(t); }
ENTRY(h_three) { auto f = modes(3); int v = s_pick("h", 0, 3), a = s_pick("min", 0, 2); int b = s_flag("all") ? 3 : 2; if (v == 3 && (a || b != 3)) __sym_stop(); if (s_flag("complex")) { auto h = three<true>(v); verify(AD<true>(h, f, a, b), h, f, a, b); } else { auto h = three<false>(v); verify(AD<false>(h, f, a, b), h, f, a, b); } } // irsym: --round
// ---------------------------------------------------------------- quantum numbers
template <typename A> void qn_check(A const &ad, vector<mat> const &Q, bool order) { auto const &qn = ad.get_quantum_numbers(); CHECK((int)qn.size() == ad.n_subspaces(), "quantum numbers of every subspace"); vector<vector<double>> seen; for (int sp = 0; sp < ad.n_subspaces(); sp++) { auto const &fs = ad.get_fock_states(sp); vector<double> v; for (auto const &q : Q) { v.push_back(q[fs[0]][fs[0]].real()); for (auto f : fs) CLOSEC(q[f][f], C(v.back()), "the states of a subspace have the same quantum numbers"); } for (auto const &w : seen) { double d = 0; for (size_t i = 0; i < v.size(); i++) d = std::max(d, std::abs(v[i] - w[i])); CHECK(d > 1e-9, "different subspaces have different quantum numbers"); } seen.push_back(v); if (order) { CHECK(qn[sp].size() == v.size(), "quantum numbers of every subspace"); for (size_t i = 0; i < v.size(); i++) CLOSE(qn[sp][i], v[i], "quantum numbers of every subspace"); } } }
ENTRY(h_qn) { hints(); auto f = modes(2); bool hop = s_flag("hopping"); double a = big("a"), b = big("b"); using O = OP<false>; O h, q1; vector<O> q; if (hop) { double k = big("k", 0.5); ASSUME(k > 0); h = hopping_h<false>(false, s_real("u", 0, 2), k, s_real("m", 25 * 0.5, 20)); q = {a * (nn<false>(0) + nn<false>(1))}; if (s_flag("constant")) q[0] += 1; } else { double e = s_real("e0", 0.1, 2), d = s_real("d", 0.1, 2), u = s_real("u", 0, 2); h = e * nn<false>(0) + (e + d) * nn<false>(1) + u * nn<false>(0) * nn<false>(1); if (s_flag("one")) { ASSUME((a + b >= 0.1) | (a + b <= -0.1)); ASSUME((a - b >= 0.1) | (a - b <= -0.1)); q = {a * nn<false>(0) + b * nn<false>(1)}; } else q = {a * nn<false>(0), b * nn<false>(1) + 2}; } AD<false> ad(h, f, q); verify(ad, h, f); vector<mat> Q; for (auto const &o : q) Q.push_back(dense(o, f)); qn_check(ad, Q, true); if (hop) CHECK(ad.n_subspaces() == 3, "different subspaces have different quantum numbers"); }
// the same values of a quantum number collect states into one subspace, whatever the Hamiltonian
ENTRY(h_qn_equal) { hints(); auto f = modes(2); double a = big("a"); double e = any("e0", {-1.3, 0.7}), d = s_real("d", -2, 2), u = any("u", {-1, 0.5}); auto h = e * nn<false>(0) + d * nn<false>(1) + u * nn<false>(0) * nn<false>(1); bool diff = s_flag("difference"); vector<OP<false>> q = {a * (diff ? nn<false>(0) - nn<false>(1) : nn<false>(0) + nn<false>(1))}; AD<false> ad(h, f, q); verify(ad, h, f); qn_check(ad, {dense(q[0], f)}, false); CHECK(ad.n_subspaces() == 3, "different subspaces have different quantum numbers"); }
ENTRY(h_qn_order) { auto f = modes(1); auto h = -1. * nn<false>(0); vector<OP<false>> q = {nn<false>(0)}; AD<false> ad(h, f, q); auto const &qn = ad.get_quantum_numbers(); bool ok = qn.size() == 2 && qn[0].size() == 1 && qn[1].size() == 1; CHECK(ok, "quantum numbers of every subspace"); if (ok) for (int sp = 0; sp < 2; sp++) CHECK(qn[sp][0] == (double)ad.get_fock_states(sp)[0], "quantum numbers are in the order of the subspaces"); }
ENTRY(h_qn_rejected) { auto f = modes(2); double a = big("a"); auto h = diagonal_h<true>(); CHECK(throws([&] { AD<true>(h, f, vector{OP<true>(C(0, a) * nn<true>(0) + nn<true>(1))}); }), "complex quantum numbers are rejected"); CHECK(throws([&] { AD<true>(h, f, vector{OP<true>(C(a) * nn<true>(0) * nn<true>(1))}); }), "quantum numbers that operators do not connect one to one are rejected"); int k = s_flag("first"); double b = s_real("b", 0.1, 2); ASSUME((a - b >= 0.1) | (b - a >= 0.1)); CHECK(throws([&] { AD<true>(h, f, vector{OP<true>(C(a) * nn<true>(k) + C(b) * nn<true>(1 - k) - C(b) * nn<true>(0) * nn<true>(1))}); }), "quantum numbers that operators do not connect one to one are rejected"); }
// ---------------------------------------------------------------- operators in the eigenbasis
template <bool Z> std::conditional_t<Z, C, double> coef(const char *n) { double x = *n == 'a' ? s_real(n, 0.1, 2) : big(n); if constexpr (Z) return s_flag("imaginary") ? C(0, x) : C(x); else return x; }
template <bool Z> OP<Z> some_op(int v) { auto a = coef<Z>("a"), b = coef<Z>("b"); switch (v) { case 0: return a * cc<Z>(0); case 1: return a * cd<Z>(1); case 2: return a * nn<Z>(0) + b * nn<Z>(1); case 3: return a * cd<Z>(0) * cc<Z>(1) + b * cd<Z>(1) * cc<Z>(0); case 4: return a + b * nn<Z>(0) * nn<Z>(1); case 5: return a * cc<Z>(0) * cc<Z>(1); case 6: return a * cc<Z>(0) + b * cd<Z>(0); case 7: return a * cc<Z>(0) + b * cc<Z>(1); case 8: return a * nn<Z>(1) * cd<Z>(0); default: return OP<Z>(); } }
template <bool Z> void op_mat(AD<Z> const &ad, fops_t const &f, OP<Z> const &o) {
  mat W = basis(ad), O = dense(o, f), E = mul(dag(W), mul(O, W)); auto own = owner(ad); int S = ad.n_subspaces(); bool bad = false; vector<int> to(S, -1);
  // the rule: every monomial maps a subspace into one subspace, which must be the same for all of them
  for (int s = 0; s < S; s++) for (auto const &t : o) { mat T = dense(OP<Z>(1, t.monomial), f); int b = -1; for (auto p : ad.get_fock_states(s)) for (int r = 0; r < S; r++) for (auto q : ad.get_fock_states(r)) if (T[q][p] != C(0)) b = r; if (b == -1) continue; if (to[s] == -1) to[s] = b; else bad |= to[s] != b; }
  typename AD<Z>::op_block_mat_t m(0); bool t = throws([&] { m = ad.get_op_mat(o); }); CHECK(t == bad, "operators that do not map subspaces one to one are rejected"); if (t || bad) return; CHECK(m.n_blocks() == S, "one block for every subspace"); if (m.n_blocks() != S) __sym_stop();
  for (int s = 0; s < S; s++) { CHECK(m.connection(s) == to[s], "the subspace an operator maps into"); if (to[s] == -1) { CHECK(m.block_mat[s].is_empty(), "the matrix of an operator in the eigenbasis"); continue; } int r = to[s]; auto const &x = m.block_mat[s]; bool ok = x.shape() == (std::array<long, 2>{ad.get_subspace_dim(r), ad.get_subspace_dim(s)}); CHECK(ok, "the matrix of an operator in the eigenbasis"); if (!ok) __sym_stop(); for (int i = 0; i < x.shape()[0]; i++) for (int j = 0; j < x.shape()[1]; j++) CLOSEC(C(x(i, j)), E[ad.flatten_subspace_index(r, i)][ad.flatten_subspace_index(s, j)], "the matrix of an operator in the eigenbasis"); }
}
template <bool Z> AD<Z> solved(fops_t const &f, int v, bool filter = false) { hints(); OP<Z> h = v == 0 ? 0.5 * nn<Z>(0) - 0.25 * nn<Z>(1) + 1. * nn<Z>(0) * nn<Z>(1) : v == 1 ? hopping_h<Z>(Z, 1., 0.03, -0.2) : OP<Z>(three<Z>(v - 2)); if (filter) return AD<Z>(h, f, 1, 2); return AD<Z>(h, f); }
ENTRY(h_op_mat) { int v = s_pick("h", 0, 1), o = s_pick("op", 0, 9); bool fl = s_flag("filter"); auto f = modes(2); if (s_flag("complex")) { auto op = some_op<true>(o); op_mat<true>(solved<true>(f, v, fl), f, op); } else op_mat<false>(solved<false>(f, v, fl), f, some_op<false>(o)); }
ENTRY(h_op_mat3) { int v = s_pick("h", 0, 3), o = s_pick("op", 0, 8); auto f = modes(3); op_mat<false>(solved<false>(f, v + 2), f, some_op<false>(o)); } // irsym: --round
ENTRY(h_op_mat_symbolic) { hints(); auto f = modes(2); auto h = hopping_h<false>(); AD<false> ad(h, f); op_mat<false>(ad, f, some_op<false>(s_pick("op", 0, 9))); }
template <bool Z> auto scal(C z) { if constexpr (Z) return z; else return z.real(); }
template <bool Z> void act_check(int v, int o, int n) { auto f = modes(n); auto ad = solved<Z>(f, v); auto op = some_op<Z>(o); size_t d = 1ul << n; typename AD<Z>::full_hilbert_space_state_t st(d); vector<C> x; for (size_t i = 0; i < d; i++) { x.push_back(C(s_real("x", -4, 4), Z ? s_real("y", -4, 4) : 0.)); st(i) = scal<Z>(x[i]); } auto r = act(op, st, ad); mat W = basis(ad), E = mul(dag(W), mul(dense(op, f), W)); CHECK(r.size() == (long)d, "an operator acts on a state in the eigenbasis"); for (size_t i = 0; i < d; i++) { C e = 0; for (size_t j = 0; j < d; j++) if (E[i][j] != C(0)) e += E[i][j] * x[j]; CLOSEC(C(r(i)), e, "an operator acts on a state in the eigenbasis"); CHECK(C(st(i)) == x[i], "the state acted on is kept"); } }
ENTRY(h_act) { int v = s_pick("h", 0, 1), o = s_pick("op", 0, 9); if (s_flag("complex")) act_check<true>(v, o, 2); else act_check<false>(v, o, 2); }
ENTRY(h_act3) { act_check<false>(s_pick("h", 2, 5), s_pick("op", 0, 8), 3); } // irsym: --round
// ---------------------------------------------------------------- averages
template <bool Z> void trace_check(int v, int o) { auto f = modes(2); auto ad = solved<Z>(f, v); auto op = some_op<Z>(o); bool her = s_flag("hermitian"); int S = ad.n_subspaces(); typename AD<Z>::block_matrix_t dm; vector<mat> D; for (int s = 0; s < S; s++) { int d = ad.get_subspace_dim(s); mat x = zeros(d, d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { if (her && j < i) x[i][j] = std::conj(x[j][i]); else x[i][j] = C(s_real("r", -1, 1), Z && !(her && i == j) ? s_real("i", -1, 1) : 0.); } typename AD<Z>::matrix_t m(d, d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) m(i, j) = scal<Z>(x[i][j]); dm.push_back(m); D.push_back(x); }
  C e = 0; mat W = basis(ad), E = mul(dag(W), mul(dense(op, f), W)); for (int s = 0; s < S; s++) for (size_t i = 0; i < D[s].size(); i++) for (size_t j = 0; j < D[s].size(); j++) e += E[ad.flatten_subspace_index(s, i)][ad.flatten_subspace_index(s, j)] * D[s][j][i]; CLOSEC(C(trace_rho_op(dm, op, ad)), e, "the average is the trace of the operator with the density matrix"); auto few = dm; few.pop_back(); CHECK(throws([&] { trace_rho_op(few, op, ad); }), "a density matrix of another structure is rejected"); auto other = dm; other[S - 1] = typename AD<Z>::matrix_t(3, 3); CHECK(throws([&] { trace_rho_op(other, op, ad); }), "a density matrix of another structure is rejected"); }
ENTRY(h_trace) { int v = s_pick("h", 0, 1), o = s_pick("op", 2, 4); if (s_flag("other")) o = 2 * o - 4; if (s_flag("complex")) trace_check<true>(v, o); else trace_check<false>(v, o); }
ENTRY(h_gibbs) { hints(); auto f = modes(2); double beta = s_pick("beta", 1, 2); bool hop = s_flag("hopping"); auto h = hop ? hopping_h<false>() : diagonal_h<false>(); AD<false> ad(h, f); double z = 0; for (auto e : energies(ad)) z += std::exp(-beta * e); CLOSE(partition_function(ad, beta), z, "the partition function"); auto dm = atomic_density_matrix(ad, beta); CHECK((int)dm.size() == ad.n_subspaces(), "one block for every subspace"); for (int s = 0; s < ad.n_subspaces(); s++) { int d = ad.get_subspace_dim(s); CHECK(dm[s].shape() == (std::array<long, 2>{d, d}), "one block for every subspace"); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { if (i != j) CHECK(dm[s](i, j) == 0, "the density matrix is diagonal with the Boltzmann weights"); else CLOSE(dm[s](i, i) * z, std::exp(-beta * ad.get_eigenvalue(s, i)), "the density matrix is diagonal with the Boltzmann weights"); } } }
ENTRY(h_qn_eigenvalues) { int v = s_pick("h", 0, 2), o = s_pick("op", 0, 3); bool fl = s_flag("filter"); if (fl && v == 2) __sym_stop(); auto f = modes(2); hints(); using O = OP<true>; double a = big("a"), b = big("b"); O h = v == 0 ? 0.5 * nn<true>(0) - 0.25 * nn<true>(1) + 1. * nn<true>(0) * nn<true>(1) : v == 1 ? hopping_h<true>(s_flag("phase"), 1., 0.03, -0.2) : 0.5 * (nn<true>(0) + nn<true>(1)); AD<true> ad = fl ? AD<true>(h, f, 1, 2) : AD<true>(h, f); auto t = cd<true>(0) * cc<true>(1); O op = o == 0 ? O(C(a) * (nn<true>(0) + nn<true>(1))) : o == 1 ? O(C(a) * nn<true>(0) + C(b) * nn<true>(1)) : o == 2 ? O(C(a) * (t + dagger(t))) : O(C(0, a) * t - C(0, a) * dagger(t)); ASSUME((a - b > 0.1) | (b - a > 0.1));
  mat H = dense(h, f), Q = dense(op, f), A = mul(H, Q), B = mul(Q, H); bool com = true; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (std::abs((A[i][j] - B[i][j]).real()) > 1e-9 || std::abs((A[i][j] - B[i][j]).imag()) > 1e-9) com = false; mat W = basis(ad), E = mul(dag(W), mul(Q, W)); bool diag = true; for (size_t i = 0; i < E.size(); i++) for (size_t j = 0; j < E.size(); j++) if (i != j && (std::abs(E[i][j].real()) > 1e-9 || std::abs(E[i][j].imag()) > 1e-9)) diag = false;
  vector<vector<double>> r, c; bool t1 = throws([&] { r = quantum_number_eigenvalues(op, ad); }), t2 = throws([&] { c = quantum_number_eigenvalues_checked(op, ad); }); CHECK(t1 == !com, "only operators that commute with the Hamiltonian are quantum numbers"); CHECK(t2 == !(com && diag), "the checked form also requires a diagonal matrix in the eigenbasis"); for (int s = 0; s < ad.n_subspaces(); s++) for (int i = 0; i < ad.get_subspace_dim(s); i++) { double e = E[ad.flatten_subspace_index(s, i)][ad.flatten_subspace_index(s, i)].real(); if (!t1) CLOSE(r[s][i], e, "the quantum numbers of the eigenstates"); if (!t2) CLOSE(c[s][i], e, "the quantum numbers of the eigenstates"); } }
// ---------------------------------------------------------------- Green's functions
struct term { double pole; C res; };
static double leg(int l, double x) { double a = 1, b = x; if (l == 0) return a; for (int k = 1; k < l; k++) { double c = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = c; } return b; }
// the Legendre coefficients of -exp(-pole tau) / (1 + exp(-beta pole)) by Gauss quadrature
static vector<double> coefficients(double beta, double pole, int n) { const int N = 24; static vector<double> x, w; if (x.empty()) for (int i = 0; i < N; i++) { double z = std::cos(M_PI * (i + 0.75) / (N + 0.5)), d = 1; for (int k = 0; k < 8; k++) { d = N * (z * leg(N, z) - leg(N - 1, z)) / (z * z - 1); z -= leg(N, z) / d; } x.push_back(z); w.push_back(2 / ((1 - z * z) * d * d)); } vector<double> r(n); for (int l = 0; l < n; l++) for (int i = 0; i < N; i++) r[l] -= std::sqrt(2. * l + 1) * beta / 2 * w[i] * leg(l, x[i]) * std::exp(-pole * beta * (x[i] + 1) / 2 - std::log(1 + std::exp(-beta * pole))); return r; }
// G_ab of all eigenstates but the excluded ones
template <typename A> vector<term> terms(A const &ad, double beta, int a, int b, fops_t const &f, atom_diag::excluded_states_t const &ex) { mat W = basis(ad), Ca = mul(dag(W), mul(ladder(f.size(), a, false), W)), Cb = mul(dag(W), mul(ladder(f.size(), b, true), W)); auto e = energies(ad); double z = 0; for (auto x : e) z += std::exp(-beta * x); vector<bool> off(e.size(), false); for (auto [s, i] : ex) off[ad.flatten_subspace_index(s, i)] = true; vector<term> r; for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) if (!off[i] && !off[j]) r.push_back({e[j] - e[i], (std::exp(-beta * e[i]) + std::exp(-beta * e[j])) / z * Ca[i][j] * Cb[j][i]}); return r; }
template <typename A> atom_diag::excluded_states_t excluded(A const &ad) { int S = ad.n_subspaces(); atom_diag::excluded_states_t ex; int k = s_pick("excluded", 0, 4); if (k == 4) { int b = 0; for (int q = 0; q < S; q++) if (ad.get_subspace_dim(q) > ad.get_subspace_dim(b)) b = q; for (int i = ad.get_subspace_dim(b); i--;) ex.emplace_back(b, i); } if (k == 1) ex = {{0, 0}}; if (k == 2) ex = {{S - 1, 0}, {1, 0}}; if (k == 3) ex = {{2, 0}, {0, 0}}; return ex; }
template <bool Z> void lehmann_check(int v) { int n = v < 2 ? 2 : 3; auto f = modes(n); auto ad = solved<Z>(f, v); double beta = s_flag("cold") ? 3 : 0.5; auto ex = excluded(ad); auto gs = gf_struct_t{{"s", s_pick("size", 1, n)}}; auto L = atomic_g_lehmann(ad, beta, gs, ex); CHECK(L.size() == 1 && L[0].shape() == (std::array<long, 2>{gs[0].second, gs[0].second}), "one list of poles for every element"); C w(0.3, 1.5);
  auto gw = atom_diag::atomic_g_iw(ad, beta, gs, 2, ex); auto gt = atom_diag::atomic_g_tau(ad, beta, gs, 3, ex); double eta = beta; auto gr = atom_diag::atomic_g_w(ad, beta, gs, {-1., 2.}, 3, eta, ex); auto gl = atom_diag::atomic_g_l(ad, beta, gs, 3, ex); auto L2 = atom_diag::atomic_g_iw<Z>(L, gs, gw[0].mesh()); auto L3 = atom_diag::atomic_g_tau<Z>(L, gs, gt[0].mesh()); auto L4 = atom_diag::atomic_g_w<Z>(L, gs, gr[0].mesh(), eta); auto L5 = atom_diag::atomic_g_l<Z>(L, gs, gl[0].mesh()); CHECK(gw.size() == 1 && gw[0].mesh() == imfreq(beta, Fermion, 2) && gt[0].mesh() == imtime(beta, Fermion, 3) && gr[0].mesh() == refreq(-1, 2, 3) && gl[0].mesh() == mesh::legendre(beta, Fermion, 3), "the mesh of a Green's function");
  for (int a = 0; a < gs[0].second; a++) for (int b = 0; b < gs[0].second; b++) { auto t = terms(ad, beta, a, b, f, ex); C e = 0, g = 0; for (auto const &x : t) e += x.res / (w - x.pole); for (auto const &[p, r] : L[0](a, b)) g += C(r) / (w - p); CLOSEC(g, e, "the Lehmann representation is the sum over all pairs of eigenstates");
    for (auto iw : gw[0].mesh()) { C e = 0; for (auto const &x : t) e += x.res / (C(iw) - x.pole); CLOSEC(gw[0][iw](a, b), e, "the Matsubara Green's function"); CLOSEC(L2[0][iw](a, b), e, "the Matsubara Green's function"); } for (auto m : gr[0].mesh()) { C e = 0; for (auto const &x : t) e += x.res / (C(double(m), eta) - x.pole); CLOSEC(gr[0][m](a, b), e, "the retarded Green's function"); CLOSEC(L4[0][m](a, b), e, "the retarded Green's function"); }
    for (auto m : gt[0].mesh()) { C e = 0; for (auto const &x : t) e -= x.res * std::exp(-double(m) * x.pole) / (1 + std::exp(-beta * x.pole)); CLOSEC(gt[0][m](a, b), e, "the imaginary-time Green's function"); CLOSEC(L3[0][m](a, b), e, "the imaginary-time Green's function"); }
    vector<C> cl(3); for (auto const &x : t) if (std::abs(x.res) > 1e-12) { auto q = coefficients(beta, x.pole, 3); for (int l = 0; l < 3; l++) cl[l] += q[l] * x.res; } for (int l = 0; l < 3; l++) { CLOSEC(gl[0].data()(l, a, b), cl[l], "the Legendre coefficients of the Green's function"); CLOSEC(L5[0].data()(l, a, b), cl[l], "the Legendre coefficients of the Green's function"); } } }
ENTRY(h_lehmann) { lehmann_check<false>(s_pick("h", 0, 3)); } // irsym: --round
ENTRY(h_lehmann_complex) { lehmann_check<true>(s_pick("h", 1, 3)); } // irsym: --round
// any temperature: the weights are unknown positive numbers
ENTRY(h_lehmann_beta) { auto f = modes(2); auto ad = solved<false>(f, 0); double beta = s_real("beta", 0.1, 10); auto gs = gf_struct_t{{"s", 2}}; auto L = atomic_g_lehmann(ad, beta, gs, {}); C w(0.3, 1.5); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { C e = 0, g = 0; for (auto const &x : terms(ad, beta, a, b, f, {})) e += x.res / (w - x.pole); for (auto const &[p, r] : L[0](a, b)) g += C(r) / (w - p); CLOSEC(g, e, "the Lehmann representation is the sum over all pairs of eigenstates"); } }
// Green's functions of an arbitrary Lehmann representation
template <bool Z> void from_lehmann() { gf_struct_t gs{{"a", 1}, {"b", 2}}; static const double P[] = {-8, -0.5, 0, 0.25, 6}; int shift = s_pick("pole", 0, 4); atom_diag::gf_lehmann_t<Z> L; vector<vector<pair<double, C>>> T; for (auto const &[n, s] : gs) { L.emplace_back(s, s); for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) { vector<pair<double, C>> t; int k = i + j + (s == 1 ? 2 : 0); for (int q = 0; q < k; q++) { double p = P[(shift + 2 * T.size() + q) % 5]; C r(s_real("r", -2, 2), Z ? s_real("i", -2, 2) : 0.); t.push_back({p, r}); L.back()(i, j).emplace_back(p, scal<Z>(r)); } T.push_back(t); } } double beta = s_flag("cold") ? 3 : 1, eta = beta / 4;
  auto gw = atom_diag::atomic_g_iw<Z>(L, gs, imfreq(beta, Fermion, 2)); auto gt = atom_diag::atomic_g_tau<Z>(L, gs, imtime(beta, Fermion, 4)); auto gr = atom_diag::atomic_g_w<Z>(L, gs, refreq(-1, 1, 3), eta); auto gl = atom_diag::atomic_g_l<Z>(L, gs, mesh::legendre(beta, Fermion, 4)); CHECK(gw.size() == 2 && gt.size() == 2 && gr.size() == 2 && gl.size() == 2 && gw.block_names() == (vector<string>{"a", "b"}), "one block for every entry"); int n = 0; for (int bl = 0; bl < 2; bl++) for (int i = 0; i <= bl; i++) for (int j = 0; j <= bl; j++, n++) { for (auto m : gw[bl].mesh()) { C e = 0; for (auto [p, r] : T[n]) e += r / (C(m) - p); CLOSEC(gw[bl][m](i, j), e, "the Matsubara Green's function"); } for (auto m : gr[bl].mesh()) { C e = 0; for (auto [p, r] : T[n]) e += r / (C(double(m), eta) - p); CLOSEC(gr[bl][m](i, j), e, "the retarded Green's function"); } for (auto m : gt[bl].mesh()) { C e = 0; for (auto [p, r] : T[n]) e -= std::exp(-double(m) * p - std::log(1 + std::exp(-beta * p))) * r; CLOSEC(gt[bl][m](i, j), e, "the imaginary-time Green's function"); }
    vector<C> cl(4); for (auto [p, r] : T[n]) { auto q = coefficients(beta, p, 4); for (int l = 0; l < 4; l++) cl[l] += q[l] * r; } for (int l = 0; l < 4; l++) CLOSEC(gl[bl].data()(l, i, j), cl[l], "the Legendre coefficients of the Green's function"); } }
ENTRY(h_from_lehmann) { if (s_flag("complex")) from_lehmann<true>(); else from_lehmann<false>(); } // irsym: --round
// ---------------------------------------------------------------- storage
template <bool Z> void store(int v) { auto f = modes(2); auto ad = solved<Z>(f, v, s_flag("filter")); h5::file file("x.h5", 'w'); h5::group g(file); h5_write(g, "ad", ad); AD<Z> r; h5_read(g, "ad", r); CHECK(r == ad, "a solved problem is restored from a file"); AD<Z> o = ad; CHECK(o == ad, "a copy is equal"); op_mat<Z>(r, f, some_op<Z>(s_pick("op", 0, 3))); }
ENTRY(h_store) { int v = s_pick("h", 0, 1); if (s_flag("complex")) store<true>(v); else store<false>(v); }
// more than ten subspaces
ENTRY(h_store_many) { auto f = modes(4); OP<false> h; for (int i = 0; i < 4; i++) h += (0.3 + 0.17 * i * i) * nn<false>(i); AD<false> ad(h, f); h5::file file("x.h5", 'w'); h5::group g(file); h5_write(g, "ad", ad); AD<false> r; h5_read(g, "ad", r); CHECK(ad.n_subspaces() == 16, "every Fock state is a subspace of its own"); CHECK(r == ad, "a solved problem is restored from a file"); auto a = s_real("a", 0.1, 2); op_mat<false>(r, f, a * cc<false>(s_pick("mode", 0, 3))); } // irsym: --round
