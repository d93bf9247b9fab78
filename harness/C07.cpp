// C07: the determinant manipulator stays consistent with its matrix.
#include <triqs/det_manip/det_manip.hpp>
#include "sym.h"
using triqs::det_manip::det_manip;
static const int T = 10;
// f(x,y) is an arbitrary table: symbolic entries where the harness puts them
static double tab[T][T];
struct fun { double operator()(int x, int y) const { return tab[x][y]; } };
using DM = det_manip<fun>;
static double generic(int x, int y) { return 1.0 + ((x * 7 + y * 5 + x * y * 3) % 11) * 0.25 + (x == y ? 4 + x : 0); }
static void table() { for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) tab[i][j] = generic(i, j); }
using V = std::vector<int>;
static double det(V const &x, V const &y) { int n = x.size(); if (n == 0) return 1; if (n == 1) return tab[x[0]][y[0]]; double r = 0; V xs(x.begin() + 1, x.end()); for (int j = 0; j < n; ++j) { V ys; for (int k = 0; k < n; ++k) if (k != j) ys.push_back(y[k]); double m = tab[x[0]][y[j]] * det(xs, ys); r += j % 2 ? -m : m; } return r; }
struct model { V x, y; };
static void same(DM &d, model const &m, bool cheap = false) {
  long n = m.x.size(); CHECK(d.size() == n, "size");
  for (int i = 0; i < n; ++i) { CHECK(d.get_x(i) == m.x[i], "row arguments in order"); CHECK(d.get_y(i) == m.y[i], "column arguments in order"); }
  if (n == 0) { CLOSE(d.determinant(), 1, "determinant"); return; }
  double D = det(m.x, m.y); CLOSE(d.determinant(), D, "determinant");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += d.inverse_matrix(i, k) * tab[m.x[k]][m.y[j]]; CLOSE(s, i == j, "inverse times matrix is the identity"); }
  if (cheap) return; auto M = d.matrix(), I = d.inverse_matrix(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { CLOSE(M(i, j), tab[m.x[i]][m.y[j]], "matrix()"); CLOSE(I(i, j), d.inverse_matrix(i, j), "inverse_matrix()"); }
  CHECK(d.get_x() == m.x && d.get_y() == m.y, "get_x, get_y"); double s = 0; foreach (d, [&](int x, int y, double mi) { s += tab[x][y] * mi; }); CLOSE(s, n, "foreach pairs every element of the inverse with its own arguments");
}
static model initial(int n, int x0 = 0) { model m; for (int i = 0; i < n; ++i) { m.x.push_back(x0 + i); m.y.push_back(x0 + i); } return m; }
static void ins(V &v, long i, int x) { v.insert(v.begin() + i, x); }
static void del(V &v, long i) { v.erase(v.begin() + i); }
// one operation: kind and positions are inputs; new arguments nx, nx+1
static model apply(DM &d, model m, int kind, int nx, bool complete) {
  long n = m.x.size(); model r = m; double q = 0; auto P = [&](const char *s, long hi) { return s_pick(s, 0, hi); };
  switch (kind) {
    case 0: { long i = P("i", n), j = P("j", n); q = d.try_insert(i, j, nx, nx); ins(r.x, i, nx); ins(r.y, j, nx); break; }
    case 1: { if (n < 1) __sym_stop(); long i = P("i", n - 1), j = P("j", n - 1); q = d.try_remove(i, j); del(r.x, i); del(r.y, j); break; }
    case 2: { if (n < 1) __sym_stop(); long j = P("j", n - 1); q = d.try_change_col(j, nx); r.y[j] = nx; break; }
    case 3: { if (n < 1) __sym_stop(); long i = P("i", n - 1); q = d.try_change_row(i, nx); r.x[i] = nx; break; }
    case 4: { if (n < 1) __sym_stop(); long i = P("i", n - 1), j = P("j", n - 1); q = d.try_change_col_row(i, j, nx, nx); r.x[i] = nx; r.y[j] = nx; break; }
    case 5: { long i0 = P("i0", n + 1), i1 = P("i1", n + 1), j0 = P("j0", n + 1), j1 = P("j1", n + 1); ASSUME((i0 != i1) & (j0 != j1)); q = d.try_insert2(i0, i1, j0, j1, nx, nx + 1, nx, nx + 1);
      V xs = {nx, nx + 1}, ys = xs; if (i0 > i1) { std::swap(i0, i1); std::swap(xs[0], xs[1]); } if (j0 > j1) { std::swap(j0, j1); std::swap(ys[0], ys[1]); } ins(r.x, i0, xs[0]); ins(r.x, i1, xs[1]); ins(r.y, j0, ys[0]); ins(r.y, j1, ys[1]); break; }
    case 6: { if (n < 2) __sym_stop(); long i0 = P("i0", n - 1), i1 = P("i1", n - 1), j0 = P("j0", n - 1), j1 = P("j1", n - 1); ASSUME((i0 != i1) & (j0 != j1)); q = d.try_remove2(i0, i1, j0, j1); del(r.x, std::max(i0, i1)); del(r.x, std::min(i0, i1)); del(r.y, std::max(j0, j1)); del(r.y, std::min(j0, j1)); break; }
    case 7: { long s = P("size", std::min(n + 1, 3l)); r = model{}; for (int i = 0; i < s; ++i) { r.x.push_back(nx + (i + 1) % s); r.y.push_back(i); } q = d.try_refill(r.x, r.y); break; }
    case 8: { if (n < 1) __sym_stop(); long k = P("roll", 4); int s = d.roll_matrix((DM::RollDirection)k); if (k == 1) std::rotate(r.x.begin(), r.x.begin() + 1, r.x.end()); if (k == 2) std::rotate(r.x.begin(), r.x.end() - 1, r.x.end()); if (k == 3) std::rotate(r.y.begin(), r.y.begin() + 1, r.y.end()); if (k == 4) std::rotate(r.y.begin(), r.y.end() - 1, r.y.end()); CHECK(s == (k == 0 || n % 2 ? 1 : -1), "sign of a roll"); return r; }
    case 9: { if (n < 1) __sym_stop(); long i = P("i", n - 1), j = P("j", n - 1); if (s_flag("col")) { d.swap_col(i, j); std::swap(r.y[i], r.y[j]); } else { d.swap_row(i, j); std::swap(r.x[i], r.x[j]); } return r; }
    case 10: { d.clear(); return model{}; }
    case 11: { d.regenerate(); return r; }
    case 12: { long i = P("i", n), j = P("j", n); q = d.try_insert_k({i}, {j}, {nx}, {nx}); ins(r.x, i, nx); ins(r.y, j, nx); break; }
    case 13: { if (n < 3) __sym_stop(); long i = P("i", n - 1), j = P("j", n - 1); std::vector<long> I, J; for (long l = 0; l < n && (int)I.size() < 3; ++l) if (n == 3 || l != i) I.push_back(l); for (long l = n - 1; l >= 0 && (int)J.size() < 3; --l) if (n == 3 || l != j) J.push_back(l); q = d.try_remove_k(I, J); std::sort(J.begin(), J.end()); for (int l = 2; l >= 0; --l) { del(r.x, I[l]); del(r.y, J[l]); } break; }
    case 14: { long a = P("a", n + 2), b = P("b", n + 2); std::vector<long> I{a, (a + 1) % (n + 3), (a + 2) % (n + 3)}, J{(b + 2) % (n + 3), b, (b + 1) % (n + 3)}; q = d.try_insert_k(I, J, {nx, nx + 1, nx + 2}, {nx, nx + 1, nx + 2}); std::vector<std::pair<long, int>> x, y; for (int l = 0; l < 3; ++l) { x.push_back({I[l], nx + l}); y.push_back({J[l], nx + l}); } std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); for (int l = 0; l < 3; ++l) { ins(r.x, x[l].first, x[l].second); ins(r.y, y[l].first, y[l].second); } break; }
    case 15: { long i = P("i", n), j = P("j", n); q = d.try_insert_from_function(i, j, [&](int x) { return tab[x][nx]; }, [&](int y) { return tab[nx][y]; }, tab[nx][nx]); ins(r.x, i, nx); ins(r.y, j, nx); break; }
  }
  double D0 = det(m.x, m.y), D1 = det(r.x, r.y); CLOSE(q * D0, D1, "ratio is new over old determinant");
  if (!complete) { d.reject_last_try(); return m; }
  ASSUME((q > 0.01) | (q < -0.01)); d.complete_operation(); return r;
}
static DM make(model const &m) { return DM(fun{}, m.x, m.y); }
// permuted starting point: row and column orders differ from the internal order
static void shuffle(DM &d, model &m, int how) { int n = m.x.size(); if (n < 2 || how == 0) return; auto sr = [&](int a, int b) { d.swap_row(a, b); std::swap(m.x[a], m.x[b]); }; auto sc = [&](int a, int b) { d.swap_col(a, b); std::swap(m.y[a], m.y[b]); }; if (how == 1) sr(0, n - 1); else { sc(0, 1); sr(n - 2, n - 1); if (n > 2) sc(1, n - 1); } }
// (a) one operation on a matrix of size n with every new element symbolic
static void fresh(int nx, int from) { for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) if (i >= from || j >= from) if (i <= nx && j <= nx) tab[i][j] = s_real("f", -8, 8); }
static void one(int n, int kind, int width) {
  table(); model m = initial(n); if (width) fresh(n + width - 1, n); DM d = make(m); shuffle(d, m, s_pick("perm", 0, 2)); bool ok = s_flag("complete"); m = apply(d, m, kind, n, ok);
  if (kind != 15 || !ok) { same(d, m); return; }
  // the arguments of a line given by functions are unknown to the object: only the matrix is judged
  long N = m.x.size(); CHECK(d.size() == N, "size"); CLOSE(d.determinant(), det(m.x, m.y), "determinant");
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += d.inverse_matrix(i, k) * tab[m.x[k]][m.y[j]]; CLOSE(s, i == j, "inverse times matrix is the identity"); }
}
ENTRY(h_insert) { one(s_pick("n", 0, 3), 0, 1); }
ENTRY(h_remove) { one(s_pick("n", 1, 4), 1, 0); }
ENTRY(h_change_col) { one(s_pick("n", 1, 3), 2, 1); }
ENTRY(h_change_row) { one(s_pick("n", 1, 3), 3, 1); }
ENTRY(h_change_both) { one(s_pick("n", 1, 3), 4, 1); }
ENTRY(h_insert2) { one(s_pick("n", 0, 1), 5, 2); }
ENTRY(h_insert2_c) { one(2, 5, 0); }
ENTRY(h_insert2_c3) { one(3, 5, 0); } // irsym: thorough-only
ENTRY(h_remove2) { one(s_pick("n", 2, 4), 6, 0); }
ENTRY(h_refill) { one(s_pick("n", 0, 3), 7, 0); }
ENTRY(h_roll) { one(s_pick("n", 1, 4), 8, 0); }
ENTRY(h_swap) { one(s_pick("n", 1, 4), 9, 0); }
ENTRY(h_insert_k) { one(s_pick("n", 0, 3), 12, 1); }
ENTRY(h_remove3) { one(s_pick("n", 3, 4), 13, 0); }
ENTRY(h_insert3) { one(s_pick("n", 0, 2), 14, 0); }
ENTRY(h_from_function) { one(s_pick("n", 0, 3), 15, 1); }
// (b) every element of the matrix symbolic
static void allsym(int n, int kind) { table(); for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) tab[i][j] = s_real("f", -8, 8); model m = initial(n); double D = det(m.x, m.y); ASSUME((D > 0.01) | (D < -0.01)); DM d = make(m); m = apply(d, m, kind, n, true); same(d, m, true); }
ENTRY(h_sym_insert) { allsym(1, 0); }
ENTRY(h_sym_remove) { allsym(2, 1); }
ENTRY(h_sym_change) { allsym(2, 4); }
ENTRY(h_sym_change_row) { allsym(2, 3); }
ENTRY(h_sym_change_col) { allsym(2, 2); }
// (c) sequences of operations; kinds and positions are inputs, one parameter of the matrix symbolic
static void sequence(int n, std::vector<int> const &kinds1, std::vector<int> const &kinds2) {
  table(); model m = initial(n); DM d = make(m); shuffle(d, m, 2);
  m = apply(d, m, kinds1[s_pick("op1", 0, kinds1.size() - 1)], n, s_flag("complete")); m = apply(d, m, kinds2[s_pick("op2", 0, kinds2.size() - 1)], n + 3, true); same(d, m, true);
}
ENTRY(h_seq1) { sequence(2, {0, 1, 2}, {0, 1, 2, 3, 4, 7, 8, 9, 10, 11}); }
ENTRY(h_seq2) { sequence(2, {3, 4, 7}, {0, 1, 3, 8}); }
ENTRY(h_seq2b) { sequence(2, {6}, {0, 4, 5}); }
ENTRY(h_seq2c) { sequence(2, {3, 4, 6, 7}, {0, 1, 2, 3, 4, 5, 8, 9}); } // irsym: thorough-only
ENTRY(h_seq3) { sequence(1, {5}, {1, 6, 0, 11}); }
ENTRY(h_seq4) { sequence(3, {8, 9, 10, 1}, {0, 1, 4, 11}); }
ENTRY(h_seq5) { sequence(3, {6, 13}, {0, 14, 7, 11}); } // irsym: thorough-only
ENTRY(h_seq6) { sequence(2, {5, 12}, {6, 13, 1, 4}); } // irsym: thorough-only
// consistency check after the configured number of operations, thresholds
ENTRY(h_check) { table(); model m = initial(2); DM d = make(m); d.set_n_operations_before_check(s_pick("n", 0, 2)); for (int k = 0; k < 3; ++k) m = apply(d, m, k, 2 + k, true); same(d, m); }
// copy, move, swap, HDF5: a manipulator carries its whole state and stays usable
static void usable(DM &d, model m) { same(d, m); int n = m.x.size(); m = apply(d, m, s_pick("op", 0, 1) ? 5 : 0, 6, true); same(d, m, true); (void)n; }
static void usable_at(DM &d, model m) { same(d, m); int n = m.x.size(); bool two = s_flag("two"); double D0 = det(m.x, m.y), q = two ? d.try_insert2(0, n, n + 1, 0, 6, 7, 6, 7) : d.try_insert(0, n, 6, 6); ins(m.x, 0, 6); if (two) { ins(m.x, n, 7); ins(m.y, 0, 7); ins(m.y, n + 1, 6); } else ins(m.y, n, 6); CLOSE(q * D0, det(m.x, m.y), "ratio is new over old determinant"); d.complete_operation(); same(d, m, true); }
static DM used(model &m, int n, bool k2) { m = initial(n); DM d = make(m); shuffle(d, m, 2); if (k2) { d.insert2(n, n + 1, n, n + 1, n, n + 1, n, n + 1); for (int l = 0; l < 2; ++l) { m.x.push_back(n + l); m.y.push_back(n + l); } d.remove2(n, n + 1, n, n + 1); for (int l = 0; l < 2; ++l) { m.x.pop_back(); m.y.pop_back(); } } return d; }
ENTRY(h_copy) { table(); model a; DM d = used(a, 2, s_flag("k2")); d.set_singular_threshold(1e-3); d.set_precision_error(1e-2); d.set_precision_warning(1e-4); d.set_n_operations_before_check(17); DM c(d); CHECK(c.get_singular_threshold() == 1e-3 && c.get_precision_error() == 1e-2 && c.get_precision_warning() == 1e-4 && c.get_n_operations_before_check() == 17, "copies keep the settings"); usable(c, a); same(d, a); }
ENTRY(h_move) { table(); model a; DM d = used(a, 2, s_flag("k2")); d.set_singular_threshold(1e-3); d.set_precision_error(1e-2); d.set_precision_warning(1e-4); d.set_n_operations_before_check(17); DM c(std::move(d)); CHECK(c.get_singular_threshold() == 1e-3 && c.get_precision_error() == 1e-2 && c.get_precision_warning() == 1e-4 && c.get_n_operations_before_check() == 17, "moves keep the settings"); usable(c, a); }
ENTRY(h_exchange) { table(); model a, b; DM d = used(a, 2, s_flag("k2")), e = used(b, 1, s_flag("k2")); d.set_singular_threshold(1e-3); if (s_flag("assign")) { e = std::move(d); CHECK(e.get_singular_threshold() == 1e-3, "assignment keeps the settings"); usable_at(e, a); } else { swap(d, e); CHECK(e.get_singular_threshold() == 1e-3 && d.get_singular_threshold() == -1, "swap exchanges the settings"); usable_at(e, a); usable_at(d, b); } }
ENTRY(h_h5) { table(); model a; DM d = used(a, 2, false); d.set_singular_threshold(1e-3); d.set_n_operations_before_check(17); h5::file file; h5::group g(file); h5_write(g, "d", d); DM e(fun{}, s_pick("init", 0, 1) * 10); h5_read(g, "d", e); CHECK(e.get_singular_threshold() == 1e-3 && e.get_n_operations_before_check() == 17, "HDF5 round trip keeps the settings"); usable(e, a); }
ENTRY(h_sym_insert2) { allsym(2, 0); }
ENTRY(h_sym_remove3) { allsym(3, 1); }
ENTRY(h_sym_change3) { allsym(3, 2); }
ENTRY(h_sym_change3b) { allsym(3, 4); } // irsym: thorough-only
