// C03: fundamental operator sets, Hilbert spaces and sub-spaces are bijections.
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/fundamental_operator_set.hpp>
#include "sym.h"
using namespace triqs::hilbert_space; using ix_t = fundamental_operator_set::indices_t; using F = uint64_t;
static void bijection(fundamental_operator_set const &f, std::vector<ix_t> const &inserted) {
  int n = f.size(); std::vector<bool> hit(n, false);
  for (auto const &i : inserted) { CHECK(f.has_indices(i), "inserted index is a member"); int k = f[i]; CHECK(k >= 0 && k < n, "position in range"); CHECK(f.data()[k] == i, "position addresses its own index"); hit[k] = true; }
  for (int k = 0; k < n; ++k) CHECK(hit[k], "no position without an index");
  int c = 0; for (auto const &x : f) { CHECK(x.linear_index == c, "iteration yields positions in order"); CHECK(x.index == f.data()[c], "iteration yields the index of the position"); ++c; } CHECK(c == n, "iteration visits every position once");
}
ENTRY(h_insert) {
  fundamental_operator_set f; std::vector<ix_t> v, first; CHECK(f.size() == 0, "empty set");
  for (int i = 0; i < 4; ++i) { long x = (long)__sym_int("flavour", 64); ix_t id; switch (i) { case 2: id = {std::string("up"), x}; f.insert(std::string("up"), x); break; default: id = {x}; f.insert(x); }
    bool dup = false; for (auto const &y : v) dup |= y == id; v.push_back(id); if (!dup) first.push_back(id); }
  CHECK(f.size() == (int)first.size(), "duplicates are not counted"); bijection(f, v);
  for (size_t i = 0; i < first.size(); ++i) CHECK(f[first[i]] == (int)i, "positions follow the order of insertion");
  long y = (long)__sym_int("other", 64); ix_t q{y}; bool in = false; for (auto const &z : v) in |= z == q;
  CHECK(f.has_indices(q) == in, "membership"); CHECK(throws([&] { (void)f[q]; }) == !in, "unknown index is rejected");
  fundamental_operator_set g(f.data()); CHECK(g == f && static_cast<fundamental_operator_set::data_t>(g) == f.data(), "data round trip");
}
ENTRY(h_ctor) {
  int a = s_pick("a", 0, 3), b = s_pick("b", 0, 3);
  fundamental_operator_set f(std::vector<int>{a, b}); std::vector<ix_t> v; for (long i = 0; i < 2; ++i) for (long j = 0; j < (i ? b : a); ++j) v.push_back({i, j});
  CHECK(f.size() == a + b, "size"); bijection(f, v); for (size_t i = 0; i < v.size(); ++i) CHECK(f[v[i]] == (int)i, "block order");
  triqs::gfs::gf_struct_t gs{{"up", a}, {"do", b}}; fundamental_operator_set h(gs); v.clear(); for (long i = 0; i < 2; ++i) for (long j = 0; j < (i ? b : a); ++j) v.push_back({std::string(i ? "do" : "up"), j});
  CHECK(h.size() == a + b, "size from gf_struct"); bijection(h, v); for (size_t i = 0; i < v.size(); ++i) CHECK(h[v[i]] == (int)i, "gf_struct order");
  std::set<long> s{5, 1, 3}; fundamental_operator_set k(s); CHECK(k.size() == 3 && k[{1l}] == 0 && k[{3l}] == 1 && k[{5l}] == 2, "from a set");
}
static fundamental_operator_set nmodes(int n) { fundamental_operator_set::data_t v; for (long i = 0; i < n; ++i) v.push_back({i}); return fundamental_operator_set(v); }
ENTRY(h_full) {
  int n = s_pick("n", 0, 30); auto fops = nmodes(n); hilbert_space hs(fops); CHECK(hs.size() == (1 << n), "dimension 2^n"); CHECK(hs == hilbert_space(fops) && hs != hilbert_space(nmodes(n == 0 ? 1 : n - 1)), "equality of spaces");
  long i = s_int("i", 0, (1l << 31) - 1); bool in = i < (1l << n);
  CHECK(throws([&] { hs.get_fock_state((int)i); }) == !in, "index range");
  F f = __sym_int("f", 64); CHECK(hs.has_state(f) == ((f >> n) == 0), "membership"); CHECK(throws([&] { hs.get_state_index(f); }) == ((f >> n) != 0), "Fock state range");
  if (s_flag("in_range")) { ASSUME(in); ASSUME((f >> n) == 0); CHECK(hs.get_state_index(hs.get_fock_state((int)i)) == i, "index -> Fock state -> index"); CHECK(hs.get_fock_state(hs.get_state_index(f)) == f, "Fock state -> index -> Fock state"); }
}
ENTRY(h_product_state) {
  auto fops = nmodes(64); hilbert_space hs; long a = s_pick("a", 0, 63), b = (a * 7 + 13) % 64;
  std::set<ix_t> s{{a}}; CHECK(hs.get_fock_state(fops, s) == (F(1) << a), "Fock state of one creation operator");
  if (a != b) { s.insert({b}); CHECK(hs.get_fock_state(fops, s) == ((F(1) << a) | (F(1) << b)), "Fock state of a product of creation operators"); }
  CHECK(hs.get_fock_state(fops, std::set<ix_t>{}) == 0, "vacuum");
}
static void sub(int n) {
  CHECK(sub_hilbert_space().get_index() == -1, "a subspace has no index by default"); sub_hilbert_space hs(7); std::vector<F> f(n); CHECK(hs.get_index() == 7 && hs.size() == 0, "empty subspace");
  for (int i = 0; i < n; ++i) { f[i] = __sym_int("f", 64); for (int j = 0; j < i; ++j) ASSUME(f[i] != f[j]); hs.add_fock_state(f[i]); }
  CHECK(hs.size() == n, "size");
  for (int i = 0; i < n; ++i) { CHECK(hs.has_state(f[i]), "stored state is a member"); CHECK(hs.get_state_index(f[i]) == i, "state has the index under which it was stored"); CHECK(hs.get_fock_state(i) == f[i], "index gives the stored state"); CHECK(hs.get_all_fock_states()[i] == f[i], "list of states"); }
  F g = __sym_int("g", 64); bool in = false; for (auto x : f) in |= x == g; CHECK(hs.has_state(g) == in, "membership of any state");
  h5::file file; h5::group gr(file); h5_write(gr, "s", hs); sub_hilbert_space r; r.add_fock_state(1); r.add_fock_state(2); h5_read(gr, "s", r);
  CHECK(r == hs, "HDF5 round trip"); for (int i = 0; i < n; ++i) CHECK(r.has_state(f[i]) && r.get_state_index(f[i]) == i, "HDF5 round trip keeps the index map"); CHECK(r.has_state(g) == in, "HDF5 round trip keeps membership");
  sub_hilbert_space o(7); for (int i = n - 1; i >= 0; --i) o.add_fock_state(f[i]); CHECK((o == hs) == (n < 2), "equality compares the ordered basis"); o = hs; o.set_index(8); CHECK(o != hs && o.get_index() == 8, "equality compares the index");
}
ENTRY(h_sub2) { sub(2); }
ENTRY(h_sub3) { sub(3); }
ENTRY(h_sub4) { sub(4); } // irsym: thorough-only
ENTRY(h_h5_full) { hilbert_space hs(nmodes(s_pick("n", 0, 30))), r; h5::file file; h5::group g(file); h5_write(g, "h", hs); h5_read(g, "h", r); CHECK(r == hs && r.size() == hs.size(), "HDF5 round trip of the full space"); }
