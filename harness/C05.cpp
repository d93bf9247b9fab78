// C05: automatic partition into invariant subspaces.
#include <triqs/hilbert_space/state.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/space_partition.hpp>
#include "sym.h"
using namespace triqs::hilbert_space; using namespace triqs::operators; using F = uint64_t;
using mat = std::vector<std::vector<double>>;
// reference: finest partition such that a~b for every non-zero H_ab, closed under the requirement on the pairs (Cd, C)
struct uf { std::vector<int> p; uf(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int find(int i) const { while (p[i] != i) i = p[i]; return i; } bool join(int a, int b) { a = find(a); b = find(b); if (a == b) return false; if (a < b) p[b] = a; else p[a] = b; return true; } };
static uf components(mat const &H, mat const *Hyb = nullptr) { int n = H.size(); uf u(n); for (int i = 0; i < n; ++i) for (int f = 0; f < n; ++f) if (H[f][i] != 0 || (Hyb && (*Hyb)[f][i] != 0)) u.join(i, f); return u; }
static void close_pair(uf &u, mat const &A) {
  int n = A.size(); bool more = true; while (more) { more = false;
    for (int i = 0; i < n; ++i) for (int f = 0; f < n; ++f) if (A[f][i] != 0) for (int j = 0; j < n; ++j) for (int g = 0; g < n; ++g) if (A[g][j] != 0) { if (u.find(i) == u.find(j)) more |= u.join(f, g); if (u.find(f) == u.find(g)) more |= u.join(i, j); } }
}
template <typename SP> void same(SP &sp, uf const &u, const char *id) {
  int n = u.p.size(); std::set<int> reps; for (int i = 0; i < n; ++i) reps.insert(u.find(i));
  CHECK((size_t)sp.n_subspaces() == reps.size(), id);
  std::vector<int> ix(n); for (int i = 0; i < n; ++i) { ix[i] = sp.lookup_basis_state(i); CHECK(ix[i] >= 0 && ix[i] < (int)reps.size(), "subspace numbers are contiguous"); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) CHECK((ix[i] == ix[j]) == (u.find(i) == u.find(j)), id);
  int calls = 0; foreach (sp, [&](int b, int s) { CHECK(b == calls && s == ix[b], "foreach visits every basis state with its subspace"); ++calls; }); CHECK(calls == n, "foreach visits every basis state once");
}
template <typename MAP> void elements(MAP const &m, mat const &A, const char *id) { int n = A.size(), c = 0; for (int i = 0; i < n; ++i) for (int f = 0; f < n; ++f) if (A[f][i] != 0) { ++c; auto it = m.find({i, f}); CHECK(it != m.end(), id); if (it != m.end()) CLOSE(it->second, A[f][i], id); } CHECK((int)m.size() == c, id); }
template <typename SP, typename OP> void mappings(SP &sp, OP const &op, mat const &A) {
  std::set<std::pair<uint32_t, uint32_t>> all, diag; int n = A.size(); for (int i = 0; i < n; ++i) for (int f = 0; f < n; ++f) if (A[f][i] != 0) { uint32_t a = sp.lookup_basis_state(i), b = sp.lookup_basis_state(f); all.insert({a, b}); if (a == b) diag.insert({a, b}); }
  CHECK(sp.find_mappings(op) == all, "connections between subspaces are exactly the non-vanishing ones"); CHECK(sp.find_mappings(op, true) == diag, "diagonal connections");
}
template <typename SP, typename OP> void one_to_one(SP &sp, OP const &op) { std::map<uint32_t, uint32_t> to, from; for (auto [a, b] : sp.find_mappings(op)) { CHECK(!to.count(b), "a subspace is reached from at most one subspace"); CHECK(!from.count(a), "a subspace is mapped into at most one subspace"); to[b] = a; from[a] = b; } }
// ---- operators with an arbitrary sparsity pattern on a space of n states
using ST = state<sub_hilbert_space, double, true>;
struct op_t { mat m; bool is_empty() const { return m.empty(); } ST operator()(ST const &s) const { ST r = make_zero_state(s); foreach (s, [&](int i, double v) { for (size_t f = 0; f < m.size(); ++f) if (m[f][i] != 0) r(f) += m[f][i] * v; }); return r; } };
static mat zero(int n) { return mat(n, std::vector<double>(n, 0.)); }
static mat sym_h(int n, bool diag) { mat H = zero(n); for (int i = 0; i < n; ++i) for (int f = diag ? i : i + 1; f < n; ++f) if (s_flag("H")) H[f][i] = H[i][f] = 1 + i + 10 * f; return H; }
static mat tr(mat const &A) { int n = A.size(); mat B = zero(n); for (int i = 0; i < n; ++i) for (int f = 0; f < n; ++f) B[i][f] = A[f][i]; return B; }
static ST sample(sub_hilbert_space &s, int n) { for (int i = 0; i < n; ++i) s.add_fock_state(7 * i + 3); return ST(s); }
ENTRY(h_partition4) { sub_hilbert_space s; ST st = sample(s, 4); mat H = sym_h(4, true); space_partition<ST, op_t> sp(st, op_t{H}); same(sp, components(H), "subspaces are the connected components of H"); elements(sp.get_matrix_elements(), H, "matrix elements of H"); mappings(sp, op_t{H}, H); }
ENTRY(h_partition5) { sub_hilbert_space s; ST st = sample(s, 5); mat H = sym_h(5, false); space_partition<ST, op_t> sp(st, op_t{H}, false); same(sp, components(H), "subspaces are the connected components of H"); CHECK(sp.get_matrix_elements().empty(), "no matrix elements unless requested"); }
ENTRY(h_hyb) { sub_hilbert_space s; ST st = sample(s, 3); mat H = sym_h(3, false), Y = sym_h(3, false); space_partition<ST, op_t> sp(st, op_t{H}, false, op_t{Y}); same(sp, components(H, &Y), "subspaces are the connected components of H and the hybridisation"); }
// amplitudes: symbolic, of either sign, zero or above the zero threshold
ENTRY(h_amplitudes) { sub_hilbert_space s; ST st = sample(s, 3); mat H = zero(3); for (int i = 0; i < 3; ++i) for (int f = i; f < 3; ++f) { double x = s_real("x", -4, 4); ASSUME((x > 0.1) | (x < -0.1) | (x == 0)); H[f][i] = H[i][f] = x; }
  space_partition<ST, op_t> sp(st, op_t{H}); same(sp, components(H), "subspaces are the connected components of H"); elements(sp.get_matrix_elements(), H, "matrix elements of H"); }
static void merged(int n, mat const &H, mat const &A) {
  sub_hilbert_space s; ST st = sample(s, n); space_partition<ST, op_t> sp(st, op_t{H}); auto [d, c] = sp.merge_subspaces(op_t{A}, op_t{tr(A)}); elements(d, A, "matrix elements of the creation operator"); elements(c, tr(A), "matrix elements of the annihilation operator");
  uf u = components(H); close_pair(u, A); one_to_one(sp, op_t{A}); one_to_one(sp, op_t{tr(A)}); same(sp, u, "merged partition is the finest one with one-to-one connections"); mappings(sp, op_t{A}, A);
}
ENTRY(h_merge3) { mat H = sym_h(3, false), A = zero(3); for (int i = 0; i < 3; ++i) for (int f = 0; f < 3; ++f) if (i != f && s_flag("A")) A[f][i] = 1 + i + 7 * f; merged(3, H, A); }
ENTRY(h_merge4) { mat H = sym_h(4, false), A = zero(4); for (int i = 0; i < 2; ++i) for (int f = 2; f < 4; ++f) if (s_flag("A")) A[f][i] = 1 + i + 7 * f; merged(4, H, A); }
ENTRY(h_merge4r) { mat H = zero(4), A = zero(4); for (int i = 0; i < 4; ++i) for (int f = i + 1; f < 4; ++f) if (s_flag("A")) A[f][i] = 1 + i + 7 * f; for (int i = 0; i < 3; ++i) if (s_flag("H")) H[i + 1][i] = H[i][i + 1] = 1; merged(4, H, A); }
ENTRY(h_merge5) { mat H = sym_h(5, false), A = zero(5); for (int i = 0; i < 2; ++i) for (int f = 2; f < 5; ++f) if (s_flag("A")) A[f][i] = 1 + i + 7 * f; merged(5, H, A); } // irsym: thorough-only
// two operator pairs, one after the other, as in the atomic diagonalisation
ENTRY(h_pairs) { mat H = zero(4), A = zero(4), B = zero(4); for (int i = 0; i < 3; ++i) if (s_flag("H")) H[i + 1][i] = H[i][i + 1] = 1; A[1][0] = A[3][2] = 1; for (int i = 0; i < 2; ++i) for (int f = 2; f < 4; ++f) if (s_flag("B")) B[f][i] = 2;
  sub_hilbert_space s; ST st = sample(s, 4); space_partition<ST, op_t> sp(st, op_t{H}); sp.merge_subspaces(op_t{A}, op_t{tr(A)}, false); uf u = components(H); close_pair(u, A); auto [d, c] = sp.merge_subspaces(op_t{B}, op_t{tr(B)}, false); CHECK(d.empty() && c.empty(), "no matrix elements unless requested"); close_pair(u, B); same(sp, u, "merged partition after a second pair"); one_to_one(sp, op_t{B}); }
// ---- fermionic operators: H is any sum of a set of terms on three modes
using many_op = many_body_operator_generic<double>; using FS = state<hilbert_space, double, true>; using IO = imperative_operator<hilbert_space, double>;
static mat dense(IO const &o, hilbert_space const &hs) { int n = hs.size(); mat A = zero(n); for (int i = 0; i < n; ++i) { FS s(hs, i); FS r = o(s); foreach (r, [&](int f, double v) { A[f][i] = v; }); } return A; }
static void fermi(int part) {
  fundamental_operator_set fo; for (long i = 0; i < 3; ++i) fo.insert(i); hilbert_space hs(fo);
  auto d = [](long i) { return c_dag<double>(i); }; auto a = [](long i) { return c<double>(i); }; auto n0 = d(0) * a(0);
  many_op h = d(1) * a(1); auto add = [&](many_op const &t) { if (s_flag("term")) h += t + dagger(t); };
  if (part == 0) { add(d(1) * a(2)); add(d(0) * a(1)); add(d(0) * a(2) * d(1) * a(1)); add(d(1) * d(2)); add(d(0) * d(1)); }
  else { add(n0 * d(1) * a(2)); add(d(0) * a(1) * (many_op(1) - d(2) * a(2))); add(d(0) * d(1) * d(2) * a(2)); add(d(0) * a(2) * (many_op(1) - d(1) * a(1))); add(n0 * d(1) * d(2)); add(d(0) * d(2) * d(1) * a(1)); }
  FS st(hs); IO H(h, fo), Cd(d(0), fo), C(a(0), fo); mat Hm = dense(H, hs), A = dense(Cd, hs); space_partition<FS, IO> sp(st, H); uf u = components(Hm); same(sp, u, "subspaces are the connected components of H"); elements(sp.get_matrix_elements(), Hm, "matrix elements of H");
  sp.merge_subspaces(Cd, C); close_pair(u, A); one_to_one(sp, Cd); one_to_one(sp, C); same(sp, u, "merged partition is the finest one with one-to-one connections"); mappings(sp, Cd, A);
}
ENTRY(h_fermi0) { fermi(0); }
ENTRY(h_fermi1) { fermi(1); }
