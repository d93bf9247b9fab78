SEEDS = {}
GF = dict(inc=['stubs_c15'], std='c++2b', cxx='clang++', flags='-lfmt')
SEEDS['C12-compress-weight'] = dict(property='C12',
 edits=[('c++/triqs/stat/accumulator.hpp', '          new_last_bin *= bin_capacity; // full bins in last chunk', '          new_last_bin *= n_bins_last_chunk > 2 ? 1 : bin_capacity; // full bins in last chunk')],
 needs='a compression by 3 or more whose last chunk holds three or more bins of capacity above one', breaks='full bins of the last chunk enter the compressed bin with weight one instead of their capacity',
 cpp=r'''#include <triqs/stat/accumulator.hpp>
#include <cstdio>
#include <cmath>
int main() {
  triqs::stat::accumulator<double> a{0., 0, -1, 2}; // bins of two samples
  double x[6] = {1, 3, 2, 8, 5, 9}, m = 0; for (double v : x) { a << v; m += v / 6; }
  a.compress_linear_bins(3);
  auto b = a.linear_bins(); printf("%zu bins, %g expected %g\n", b.size(), b[0], m);
  return !(b.size() == 1 && std::fabs(b[0] - m) < 1e-12);
}
''', std='c++20')
SEEDS['C14-add-lost'] = dict(property='C14',
 edits=[('c++/triqs/stat/histograms.cpp', '    h1._n_lost_pts += h2._n_lost_pts;', '    if (h2._n_data_pts) h1._n_lost_pts += h2._n_lost_pts;')],
 needs='the sum with a histogram that only lost samples', breaks='the lost samples of a histogram without accepted samples are forgotten in the sum',
 src=['stat/histograms.cpp'], cpp=r'''#include <triqs/stat/histograms.hpp>
#include <cstdio>
int main() {
  triqs::stat::histogram a{0., 1., 4}, b{0., 1., 4}; a << 0.3; a << 3.; b << -1.; b << 7.;
  auto c = a + b, d = b + a; printf("%lld %lld\n", (long long)c.n_lost_pts(), (long long)d.n_lost_pts());
  return !(c.n_lost_pts() == 3 && d.n_lost_pts() == 3);
}
''')
SEEDS['C19-wrap-test'] = dict(property='C19',
 edits=[('c++/triqs/utility/time_pt.hpp', 'bool wrapped = ((Nmax - std::max(a.n, b.n)) < std::min(a.n, b.n));', 'bool wrapped = a.n / 2 + b.n / 2 >= Nmax / 2;')],
 needs='two grid positions whose sum is within one or two steps of the period', breaks='sums at the period are taken for wrapped (or not), so the time is off by a grid step',
 cpp=r'''#include <triqs/utility/time_pt.hpp>
#include <cstdio>
using triqs::utility::time_pt;
int main() {
  const uint64_t M = time_pt::Nmax; int bad = 0;
  for (uint64_t k = 0; k < 4; k++) for (uint64_t h : {M / 2, M / 3, (uint64_t)1, M / 2 - 1}) {
    time_pt a(h, 10.), b(M - h - k, 10.), s = a + b; // sum M - k
    time_pt e((M - k) % M, 10.); if (!(s == e)) ++bad;
    time_pt c(M - h, 10.), f(h + k, 10.), g((uint64_t)k, 10.); if (h > k && M - h > k && !(c + f == g)) ++bad;
  }
  printf("%d wrong sums\n", bad); return bad != 0;
}
''')
SEEDS['C26-positive-boson'] = dict(property='C26',
 edits=[('c++/triqs/gfs/functions/imfreq.hpp', '    int L1 = (is_boson ? L - 1 : L);\n    for (int u = is_boson; u < L; ++u) {', '    int L1 = (is_boson ? L - 1 : L);\n    for (int u = is_boson; u < L - is_boson; ++u) {')],
 needs='a bosonic function of positive frequencies', breaks='the largest frequencies of a bosonic function are left undefined when the negative frequencies are restored', **GF,
 cpp=r'''#include <triqs/gfs.hpp>
#include <cstdio>
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } }
using namespace triqs::gfs; using namespace triqs::mesh; using C = std::complex<double>;
int main() {
  int bad = 0;
  for (auto S : {Boson, Fermion}) {
    gf<imfreq, scalar_valued> g(imfreq(2., S, 4, imfreq::option::positive_frequencies_only)); int k = 0;
    for (auto w : g.mesh()) { g[w] = C(1 + k, k ? 2 * k : 0); ++k; }
    auto f = make_gf_from_real_gf(gf_const_view<imfreq, scalar_valued>(g));
    auto p = positive_freq_view(f);
    if (p.mesh().size() != g.mesh().size()) return 1;
    for (auto w : g.mesh()) if (std::abs(p[w] - g[w]) > 1e-12 || !(std::abs(f[-w] - std::conj(g[w])) <= 1e-12)) ++bad;
  }
  printf("%d wrong values\n", bad); return bad != 0;
}
''', src=['utility/legendre.cpp'])
SEEDS['C28-boson-third-moment'] = dict(property='C28',
 edits=[('c++/triqs/gfs/functions/density.cpp', '          a2 = -m1 / 2. + m2 / 2. + m3;', '          a2 = -m1 / 2. + m2 / 2. + m3.real();')],
 needs='a bosonic off-diagonal function with complex moments', breaks='the imaginary part of the third moment is dropped from the density of bosons', **GF, src=['utility/legendre.cpp', 'gfs/functions/density.cpp'],
 cpp=r'''#include <triqs/gfs.hpp>
#include <cstdio>
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } }
using namespace triqs::gfs; using namespace triqs::mesh; using C = std::complex<double>;
int main() {
  // a function that is a sum of three poles: the density is the sum over the poles exactly
  double beta = 3, p[3] = {-1.3, 0.4, 2.2}, worst = 0;
  for (int im = 0; im < 2; im++) {
    C r[2][3] = {{1., 0.5, 0.25}, {C(0.3, 0.7 * im), C(-0.2, 0.4 * im), C(0.6, -0.9 * im)}};
    gf<imfreq> g(imfreq(beta, Boson, 20), {2, 2}); nda::array<C, 3> m(4, 2, 2); m() = 0;
    auto res = [&](int i, int j, int k) { return i == j ? r[0][k] : i < j ? r[1][k] : std::conj(r[1][k]); };
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { for (auto w : g.mesh()) { C s = 0; for (int k = 0; k < 3; k++) s += res(i, j, k) / (C(w) - p[k]); g[w](i, j) = s; } for (int l = 1; l < 4; l++) { C s = 0; for (int k = 0; k < 3; k++) s += res(i, j, k) * std::pow(p[k], l - 1); m(l, i, j) = s; } }
    auto d = density(gf_const_view<imfreq>(g), nda::array_const_view<C, 3>(m));
    // the imaginary part of an exact off-diagonal density comes from the imaginary residues alone
    C e = 0; for (int k = 0; k < 3; k++) e += -r[1][k] / (std::exp(beta * p[k]) - 1); // bosons: -sum r n_B(p)
    C f = 0; for (int k = 0; k < 3; k++) f += r[1][k] / (1 - std::exp(-beta * p[k]));
    double t = std::min(std::abs(d(0, 1) - e), std::min(std::abs(d(0, 1) - f), std::min(std::abs(d(0, 1) + f), std::abs(d(0, 1) + e))));
    printf("density %g %g, distance %g\n", d(0, 1).real(), d(0, 1).imag(), t); worst = std::max(worst, t);
  }
  return worst > 2e-2;
}
''')
AD = dict(inc=['stubs_c15', 'stubs_c29'], std='c++2b', cxx='clang++', flags='-lfmt', src=['utility/legendre.cpp', 'operators/many_body_operator.cpp', 'hilbert_space/fundamental_operator_set.cpp', 'atom_diag/impl/atom_diag.cpp', 'atom_diag/impl/functions.cpp', 'atom_diag/impl/gf.cpp', 'atom_diag/impl/worker.cpp'])
HEAD = r'''#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
#include <cstdio>
namespace boost::math { double cyl_bessel_j(double, double) { return 0; } double cyl_bessel_i(double, double) { return 0; } }
using namespace triqs; using namespace triqs::operators; using C = std::complex<double>;
template <typename O> O cd(int i) { return O::make_canonical(true, hilbert_space::fundamental_operator_set::indices_t{"s", i}); }
template <typename O> O cc(int i) { return O::make_canonical(false, hilbert_space::fundamental_operator_set::indices_t{"s", i}); }
'''
SEEDS['C29-vacuum-phase'] = dict(property='C29',
 edits=[('c++/triqs/atom_diag/impl/atom_diag.cpp', '= dagger(eigensystems[sp].unitary_matrix)(range::all, 0);', '= transpose(eigensystems[sp].unitary_matrix)(range::all, 0);')],
 needs='a Hamiltonian with a complex pairing term, so that the vacuum mixes with other states', breaks='the vacuum in the eigenbasis is complex conjugated', **AD,
 cpp=HEAD + r'''int main() {
  using O = many_body_operator_generic<C>; hilbert_space::fundamental_operator_set f; f.insert("s", 0); f.insert("s", 1);
  double worst = 0;
  for (C p : {C(0.3, 0.8), C(0.3, -0.8), C(0.5)}) {
    O t = p * (cd<O>(0) * cd<O>(1)); O h = 0.4 * (cd<O>(0) * cc<O>(0)) - 0.9 * (cd<O>(1) * cc<O>(1)) + t + dagger(t);
    atom_diag::atom_diag<true> ad(h, f); auto v = ad.get_vacuum_state(); int s = ad.get_vacuum_subspace_index(), d = ad.get_subspace_dim(s);
    auto fs = ad.get_fock_states(s); auto u = ad.get_unitary_matrix(s);
    for (int k = 0; k < d; k++) { C x = 0; for (int i = 0; i < d; i++) x += u(k, i) * v(ad.flatten_subspace_index(s, i)); worst = std::max(worst, std::abs(x - C(fs[k] == 0))); }
    // annihilation operators destroy the vacuum
    for (int i = 0; i < 2; i++) { auto r = atom_diag::act(cc<O>(i), v, ad); for (long k = 0; k < r.size(); k++) worst = std::max(worst, std::abs(r(k))); }
  }
  printf("error %g\n", worst); return worst > 1e-8;
}
''')
SEEDS['C29-excluded-order'] = dict(property='C29',
 edits=[('c++/triqs/atom_diag/impl/gf.cpp', 'return std::binary_search(excluded_states.begin(), excluded_states.end(), std::make_pair(A, ia));', 'auto it = std::find_if(excluded_states.begin(), excluded_states.end(), [&](auto const &s) { return s.first == A; });\n        return it != excluded_states.end() && it->second == ia;')],
 needs='two excluded states of one subspace', breaks='only the first excluded state of each subspace is left out of the Green function', **AD,
 cpp=HEAD + r'''int main() {
  using O = many_body_operator_generic<double>; hilbert_space::fundamental_operator_set f; f.insert("s", 0); f.insert("s", 1);
  O t = 0.7 * (cd<O>(0) * cc<O>(1)); O h = 0.4 * (cd<O>(0) * cc<O>(0)) - 0.3 * (cd<O>(1) * cc<O>(1)) + t + dagger(t);
  atom_diag::atom_diag<false> ad(h, f); int s = -1; for (int i = 0; i < ad.n_subspaces(); i++) if (ad.get_subspace_dim(i) == 2) s = i;
  if (s < 0) return 1;
  // every transition of one mode starts or ends in the states with one particle: without them nothing is left
  auto L = atom_diag::atomic_g_lehmann(ad, 2., atom_diag::gf_struct_t{{"s", 2}}, {{s, 0}, {s, 1}}); size_t n = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) n += L[0](i, j).size();
  printf("%zu terms\n", n); return n != 0;
}
''')
SEEDS['C29-qn-many-to-one'] = dict(property='C29',
 edits=[('c++/triqs/atom_diag/impl/worker.cpp', '            else if (annihilation_map[n][origin] != target)\n', '            else if (annihilation_map[n][origin] > target)\n')],
 needs='quantum numbers for which a creation operator maps two subspaces into one', breaks='an annihilation operator that connects a subspace with two others is accepted and one connection is lost', **AD,
 cpp=HEAD + r'''int main() {
  using O = many_body_operator_generic<double>; hilbert_space::fundamental_operator_set f; f.insert("s", 0); f.insert("s", 1);
  O n0 = cd<O>(0) * cc<O>(0), n1 = cd<O>(1) * cc<O>(1), h = 0.4 * n0 - 0.3 * n1;
  try { atom_diag::atom_diag<false> ad(h, f, std::vector<O>{O(1.5 * n0 + 0.7 * n1 - 0.7 * (n0 * n1))}); } catch (triqs::runtime_error const &) { printf("rejected\n"); return 0; }
  printf("accepted\n"); return 1;
}
''')
