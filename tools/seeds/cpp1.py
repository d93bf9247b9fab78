SEEDS = {}
SEEDS['C07-clear-sign'] = dict(property='C07',
 edits=[('c++/triqs/det_manip/det_manip.hpp', '        N        = 0;\n        sign     = 1;\n        det      = 1;\n        last_try = NoTry;\n        row_num.clear();', '        N        = 0;\n        det      = 1;\n        last_try = NoTry;\n        row_num.clear();')],
 needs='an odd row/column permutation, then clear(), then an insertion into a nonempty matrix', breaks='after clear() the determinant keeps the sign of the old permutation',
 cpp=r'''#include <triqs/det_manip.hpp>
#include <cstdio>
#include <cmath>
struct F { using result_type = double; using argument_type = double; double operator()(double x, double y) const { return 1.0 / (x + y * y + 0.3); } };
int main() {
  triqs::det_manip::det_manip<F> D(F{}, 10);
  D.insert(0, 0, 1.0, 2.0); D.insert(1, 1, 1.5, 0.3); D.swap_row(0, 1);
  D.clear();
  double e = std::fabs(D.determinant() - 1.0);
  D.insert(0, 0, 1.1, 0.7); D.insert(1, 1, 2.1, 0.4);
  F f; double ref = f(1.1, 0.7) * f(2.1, 0.4) - f(1.1, 0.4) * f(2.1, 0.7);
  e += std::fabs(D.determinant() - ref);
  printf("error %g\n", e); return e > 1e-8;
}
''')
SEEDS['C02-mask-width'] = dict(property='C02',
 edits=[('c++/triqs/hilbert_space/imperative_operator.hpp', '                mask |= (uint64_t(1) << i);', '                mask |= uint64_t(1u << i);')],
 needs='fermionic modes numbered 32 and above between the operator and the front', breaks='the count masks are computed with 32-bit shifts, so the fermionic sign is wrong for high modes',
 src=['operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp'],
 cpp=r'''#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <cstdio>
using namespace triqs::hilbert_space; using namespace triqs::operators;
int main() {
  fundamental_operator_set fops; for (long i = 0; i < 40; ++i) fops.insert(i);
  int bad = 0;
  for (int lo = 0; lo < 38; ++lo) { // c_39 on |lo,39>: one occupied mode in front, so the sign is -
    sub_hilbert_space hs(0); hs.add_fock_state((1ull << lo) | (1ull << 39)); hs.add_fock_state(1ull << lo);
    imperative_operator<sub_hilbert_space, double, false> op(c<double>(39l), fops);
    state<sub_hilbert_space, double, false> st(hs); st(0) = 1;
    auto r = op(st); if (r(1) != -1) { ++bad; printf("mode %d: %g\n", lo, r(1)); }
  }
  return bad != 0;
}
''')
SEEDS['C05-index-order'] = dict(property='C05',
 edits=[('c++/triqs/hilbert_space/space_partition.hpp', '''            if (is_zero(amplitude)) return;
            auto f_subspace = subspaces.find_set(f);
            if ((!diagonal_only)''', '''            if (is_zero(amplitude) || f < i) return;
            auto f_subspace = subspaces.find_set(f);
            if ((!diagonal_only)''')],
 needs='an operator whose connection between two subspaces only lowers the Fock index (an annihilation operator)', breaks='find_mappings misses connections that lower the state index',
 src=['operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp'],
 cpp=r'''#include <triqs/hilbert_space/space_partition.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <cstdio>
using namespace triqs::hilbert_space; using namespace triqs::operators;
int main() {
  fundamental_operator_set fops; for (long i = 0; i < 3; ++i) fops.insert(i);
  hilbert_space hs(fops); using op_t = imperative_operator<hilbert_space, double, false>; using st_t = state<hilbert_space, double, false>;
  auto H = n<double>(0l) + c_dag<double>(0l) * c<double>(1l) + c_dag<double>(1l) * c<double>(0l);
  space_partition<st_t, op_t> sp(st_t(hs), op_t(H, fops));
  int bad = 0;
  for (long k = 0; k < 3; ++k) { auto m = sp.find_mappings(op_t(c<double>(k), fops)), d = sp.find_mappings(op_t(c_dag<double>(k), fops));
    if (m.size() != d.size() || m.empty()) ++bad; for (auto &x : d) if (!m.count({x.second, x.first})) ++bad; }
  printf("bad %d\n", bad); return bad != 0;
}
''')
SEEDS['C05-merge-link'] = dict(property='C05',
 edits=[('c++/triqs/hilbert_space/space_partition.hpp', '        if (n_subspaces() != n_subspaces_orig) merge_subspaces(Cd, C, false);', '        (void)n_subspaces_orig;'), ('c++/triqs/hilbert_space/space_partition.hpp', '''              if (upwards)
                subspaces.link(f_subspace, upper_subspace);
              else
                subspaces.link(f_subspace, lower_subspace);''', '''              // representatives may have changed since the connections were collected
              if (upwards)
                subspaces.union_set(f_subspace, upper_subspace);
              else
                subspaces.union_set(f_subspace, lower_subspace);''')],
 needs='an operator pair for which one merged set is reached through two different zigzags', breaks='after merge_subspaces one subspace can still be connected to several others',
 src=['operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp'],
 cpp='TODO')
del SEEDS['C05-merge-link']
SEEDS['C01-minus-scalar'] = dict(property='C01',
 edits=[('c++/triqs/operators/many_body_operator.hpp', '''          std::tie(it, is_new_monomial) = monomials.insert(std::make_pair(m.first, -m.second));
          if (!is_new_monomial) {
            it->second -= m.second;
            erase_zero_monomial(monomials, it);
          }''', '''          std::tie(it, is_new_monomial) = monomials.insert(std::make_pair(m.first, -m.second));
          if (!is_new_monomial) {
            it->second -= m.second;
            if (m.first.size() > 2) erase_zero_monomial(monomials, it);
          }''')],
 needs='a subtraction that cancels a quadratic (or shorter) term exactly', breaks='cancelled terms remain in the operator with coefficient 0, so equal operators compare different',
 src=['operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp'],
 cpp=r'''#include <triqs/operators/many_body_operator.hpp>
#include <cstdio>
using namespace triqs::operators;
int main() {
  auto a = 2.0 * c_dag<double>(0l) * c<double>(1l) + n<double>(2l), b = 2.0 * c_dag<double>(0l) * c<double>(1l);
  auto d = a - b;
  bool ok = d == n<double>(2l) && (a - a).is_zero() && !(d.is_zero());
  int terms = 0; for (auto const &t : d) { ++terms; (void)t; }
  printf("ok %d terms %d\n", ok, terms); return !(ok && terms == 1);
}
''')
SEEDS['C03-has-state'] = dict(property='C03',
 edits=[('c++/triqs/hilbert_space/hilbert_space.hpp', '''        for (auto f : hs.fock_states) hs.fock_to_index.insert(std::make_pair(f, static_cast<int>(hs.fock_to_index.size())));''', '''        for (auto f : hs.fock_states) hs.fock_to_index.emplace_hint(hs.fock_to_index.end(), f, static_cast<int>(f - hs.fock_states.front()));''')],
 needs='a sub-space whose Fock states are not consecutive, restored from HDF5', breaks='state indices of a subspace read from HDF5 are wrong',
 src=['operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp'],
 cpp=r'''#include <triqs/hilbert_space/hilbert_space.hpp>
#include <cstdio>
using namespace triqs::hilbert_space;
int main() {
  sub_hilbert_space a(3), b; for (uint64_t f : {5ull, 2ull, 9ull, 6ull}) a.add_fock_state(f);
  h5::file fl("x.h5", 'w'); h5::group g(fl); h5::write(g, "a", a); h5::read(g, "a", b);
  int bad = b.get_index() != 3 || b.size() != 4;
  for (int i = 0; i < 4; ++i) if (b.get_state_index(a.get_fock_state(i)) != i || !b.has_state(a.get_fock_state(i))) ++bad;
  printf("bad %d\n", bad); return bad;
}
''')
SEEDS['C04-subtract-absent'] = dict(property='C04',
 edits=[('c++/triqs/hilbert_space/state.hpp', 'auto r = ampli.insert({aa.first, -aa.second});', 'auto r = ampli.insert(aa);')],
 needs='subtracting a state that has an amplitude where the first one has none (map storage)', breaks='the amplitude keeps its sign in a difference of map-based states',
 cpp=r'''#include <triqs/hilbert_space/state.hpp>
#include <cstdio>
using namespace triqs::hilbert_space;
int main() {
  fundamental_operator_set fops; for (long i = 0; i < 3; ++i) fops.insert(i);
  hilbert_space hs(fops); state<hilbert_space, double, true> a(hs), b(hs); a(1) = 1; a(2) = 3; b(2) = 1; b(5) = 4;
  auto d = a - b; double r[8] = {}; foreach (d, [&](auto i, double v) { r[i] = v; });
  bool ok = r[1] == 1 && r[2] == 2 && r[5] == -4; printf("%g %g %g\n", r[1], r[2], r[5]); return !ok;
}
''', src=['operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp'])
