// C06: parameters extracted from an operator reproduce it.
#include <triqs/operators/util/extractors.hpp>
#include "sym.h"
using namespace triqs::operators; using namespace triqs::operators::utils; using triqs::utility::real_or_complex; using triqs::hilbert_space::fundamental_operator_set; using dcomplex = std::complex<double>;
using ix = triqs::hilbert_space::fundamental_operator_set::indices_t;
static double coef(const char *n) { static int k = 0; double x = s_real(n, 0.03125, 64); return (k++ % 3) == 1 ? -x : x; }
template <typename T> T val(const char *n) { if constexpr (std::is_same_v<T, double>) return coef(n); else return T(dcomplex(coef(n), -coef(n))); }
template <typename T> op_t<T> D(ix const &i) { return op_t<T>::make_canonical(true, i); }
template <typename T> op_t<T> C(ix const &i) { return op_t<T>::make_canonical(false, i); }
template <typename T> bool eq(T const &a, T const &b) { return a == b; }
template <typename T> void close(T const &a, T const &b, const char *id) { if constexpr (std::is_same_v<T, double>) CLOSE(a, b, id); else { CLOSE(real(a), real(b), id); CLOSE(imag(a), imag(b), id); } }
// same terms, coefficients equal
template <typename T> void same_op(op_t<T> const &a, op_t<T> const &b, const char *id) {
  auto const &x = a.get_monomials(); auto const &y = b.get_monomials(); CHECK(x.size() == y.size(), id); auto i = x.begin(); auto j = y.begin();
  for (; i != x.end() && j != y.end(); ++i, ++j) { CHECK(i->first == j->first, id); close(i->second, j->second, id); }
}
static std::vector<ix> names() { return {ix{std::string("up"), 0l}, ix{std::string("up"), 1l}, ix{std::string("dn"), 0l}, ix{7l}}; }
// terms that are of neither, one or the other form
template <typename T> op_t<T> odd_term(int k, std::vector<ix> const &v) {
  switch (k) { case 0: return op_t<T>(1.5); case 1: return D<T>(v[0]) * D<T>(v[1]); case 2: return C<T>(v[0]) * C<T>(v[1]); case 3: return D<T>(v[0]); case 4: return C<T>(v[2]);
    case 5: return D<T>(v[0]) * D<T>(v[1]) * D<T>(v[2]) * C<T>(v[3]); case 6: return D<T>(v[1]) * C<T>(v[2]) * C<T>(v[0]) * C<T>(v[3]); case 7: return D<T>(v[0]) * D<T>(v[1]) * D<T>(v[2]) * D<T>(v[3]); case 8: return D<T>(v[0]) * C<T>(v[1]) * C<T>(v[2]); case 9: return D<T>(v[0]) * D<T>(v[1]) * D<T>(v[2]) * C<T>(v[2]) * C<T>(v[1]) * C<T>(v[0]);
    case 10: return D<T>(v[3]) * C<T>(v[1]); case 11: return D<T>(v[0]) * D<T>(v[3]) * C<T>(v[3]) * C<T>(v[0]); default: return D<T>(v[0]) * D<T>(v[2]) * C<T>(v[3]) * C<T>(v[1]); }
}
#define ODD 12
template <typename T> void h_dict(bool extra) {
  auto v = names(); op_t<T> h; std::map<std::tuple<ix, ix>, T> want;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if ((i + 2 * j) % 3 != 1 || !extra) { T x = val<T>("h"); h += x * D<T>(v[i]) * C<T>(v[j]); want.emplace(std::make_tuple(v[i], v[j]), x); }
  if (!extra) { auto d = extract_h_dict(h); CHECK(d.size() == want.size(), "quadratic dictionary has one entry per term"); op_t<T> r; for (auto &[k, x] : d) { CHECK(want.count(k), "quadratic dictionary keys"); if (want.count(k)) close(x, want.at(k), "quadratic dictionary values"); r += x * D<T>(std::get<0>(k)) * C<T>(std::get<1>(k)); } same_op(r, h, "quadratic dictionary rebuilds the operator"); return; }
  int k = s_pick("odd", 0, ODD); op_t<T> all = h + odd_term<T>(k, v); bool bad = k != 10;
  CHECK(throws([&] { extract_h_dict(all); }) == bad, "a term that is not quadratic is rejected"); auto d = extract_h_dict(all, true); CHECK(d.size() == want.size() + !bad, "irrelevant terms are ignored on request"); for (auto &[q, x] : want) { CHECK(d.count(q), "irrelevant terms are ignored on request"); if (d.count(q)) close(d.at(q), x, "quadratic dictionary values"); }
}
ENTRY(h_hdict) { h_dict<double>(false); }
ENTRY(h_hdict_roc) { h_dict<real_or_complex>(false); }
ENTRY(h_hdict_odd) { h_dict<double>(true); }
template <typename T> void u2(bool extra) {
  auto v = names(); op_t<T> h; std::map<std::tuple<ix, ix>, T> want; 
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (!extra || (i == 2)) { T x = val<T>("U"); h += x * D<T>(v[i]) * C<T>(v[i]) * D<T>(v[j]) * C<T>(v[j]); want.emplace(std::make_tuple(v[i], v[j]), x); want.emplace(std::make_tuple(v[j], v[i]), x); }
  op_t<T> all = h; bool bad = false; int more = 0; if (extra) { int k = s_pick("odd", 0, ODD); all = h + odd_term<T>(k, v); bad = k != 11; more = bad ? 0 : 2; CHECK(throws([&] { extract_U_dict2(all); }) == bad, "a term that is not density-density is rejected"); }
  auto d = extract_U_dict2(all, extra); CHECK(d.size() == want.size() + more, "density-density dictionary has two entries per term"); op_t<T> r;
  for (auto &[q, x] : want) { CHECK(d.count(q), "density-density dictionary keys"); if (d.count(q)) close(d.at(q), x, "density-density dictionary values"); }
  if (extra) return; for (auto &[q, x] : d) { auto const &[a, b] = q; r += T(0.5) * x * D<T>(a) * C<T>(a) * D<T>(b) * C<T>(b); } same_op(r, h, "density-density dictionary rebuilds the operator");
}
ENTRY(h_u2) { u2<double>(false); }
ENTRY(h_u2_roc) { u2<real_or_complex>(false); }
ENTRY(h_u2_odd) { u2<double>(true); }
template <typename T> void u4(bool extra) {
  auto v = names(); op_t<T> h; int n = 0;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < 4; ++k) for (int l = 0; l < k; ++l) if ((i + 3 * j + 5 * k + 7 * l) % (extra ? 11 : 4) == 0) { h += val<T>("U") * D<T>(v[i]) * D<T>(v[j]) * C<T>(v[l]) * C<T>(v[k]); ++n; }
  op_t<T> all = h; if (extra) { int k = s_pick("odd", 0, 10); all = h + odd_term<T>(k, v); CHECK(throws([&] { extract_U_dict4(all); }), "a term that is not of two-particle form is rejected"); }
  auto d = extract_U_dict4(all, extra); CHECK(d.size() == 4 * h.get_monomials().size(), "interaction dictionary has four entries per term"); op_t<T> r;
  for (auto &[q, x] : d) { auto const &[a, b, c, e] = q; r += T(0.5) * x * D<T>(a) * D<T>(b) * C<T>(e) * C<T>(c);
    auto sw = d.find(std::make_tuple(b, a, e, c)), an = d.find(std::make_tuple(b, a, c, e)); CHECK(sw != d.end() && an != d.end(), "interaction dictionary is closed under exchange"); if (sw != d.end()) close(sw->second, x, "interaction dictionary is symmetric under exchange of both pairs"); if (an != d.end()) close(an->second, T(-1.) * x, "interaction dictionary is antisymmetric under exchange of one pair"); }
  same_op(r, h, "interaction dictionary rebuilds the operator");
}
ENTRY(h_u4) { u4<double>(false); }
ENTRY(h_u4_complex) { u4<dcomplex>(false); } // irsym: thorough-only
ENTRY(h_u4_odd) { u4<double>(true); }
// dictionaries to matrices
ENTRY(h_matrix) {
  auto v = names(); fundamental_operator_set fs; int s = s_pick("shift", 0, 2); for (int i = 0; i < 3; ++i) fs.insert_from_indices_t(v[(i + s) % 3]);
  dict2_t<double> d; double x[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { x[i][j] = 0; if ((i + j) % 3) d[{v[i], v[j]}] = x[i][j] = s_real("x"); }
  auto m = dict_to_matrix<double>(d, fs); CHECK(m.shape(0) == 3 && m.shape(1) == 3, "matrix shape"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CLOSE(m(fs[v[i]], fs[v[j]]), x[i][j], "matrix elements follow the order of the set");
  dict4_t<double> e; double y = s_real("y"); e[{v[0], v[1], v[2], v[0]}] = y; auto t = dict_to_matrix<double>(e, fs); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) CLOSE(t(fs[v[i]], fs[v[j]], fs[v[k]], fs[v[l]]), (i == 0 && j == 1 && k == 2 && l == 0) ? y : 0., "tensor elements follow the order of the set");
  d[{v[0], v[3]}] = 1; CHECK(throws([&] { dict_to_matrix<double>(d, fs); }), "an index outside the set is rejected");
  dict2_t<real_or_complex> c; bool cx = s_flag("complex"); c[{v[0], v[1]}] = real_or_complex(x[0][1]); double im = s_real("im"); c[{v[1], v[0]}] = cx ? real_or_complex(dcomplex(x[1][0], im)) : real_or_complex(x[1][0]);
  auto va = dict_to_variant_matrix(c, fs); CHECK((va.index() == 1) == cx, "the matrix is complex exactly when an element is"); int a = fs[v[0]], b = fs[v[1]];
  if (cx) { auto &A = std::get<1>(va); CLOSEC(A(a, b), dcomplex(x[0][1]), "complex matrix elements"); CLOSEC(A(b, a), dcomplex(x[1][0], im), "complex matrix elements"); } else { auto &A = std::get<0>(va); CLOSE(A(a, b), x[0][1], "real matrix elements"); CLOSE(A(b, a), x[1][0], "real matrix elements"); }
}
ENTRY(h_filter) { auto v = names(); int k = s_pick("a", 0, ODD), l = s_pick("b", 0, ODD); ASSUME(k != l); op_t<double> h = odd_term<double>(k, v) + odd_term<double>(l, v); long m = s_pick("len", 0, 6); auto f = filter_op(h, m); op_t<double> rest = h - f; for (auto const &t : f) CHECK((long)t.monomial.size() == m, "filtered operator has monomials of the requested length only"); for (auto const &t : rest) CHECK((long)t.monomial.size() != m, "filtered operator has every monomial of the requested length"); same_op(quadratic_terms(h), filter_op(h, 2), "quadratic terms"); same_op(quartic_terms(h), filter_op(h, 4), "quartic terms"); }
// block matrices
template <typename T> void block() {
  triqs::hilbert_space::gf_struct_t gs{{"up", 2}, {"dn", 1}}; op_t<T> h; auto b = nda::array<nda::matrix<T>, 1>(2); for (int k = 0; k < 2; ++k) { int n = gs[k].second; b[k] = nda::zeros<T>(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { b[k](i, j) = val<T>("b"); h += b[k](i, j) * D<T>({gs[k].first, (long)i}) * C<T>({gs[k].first, (long)j}); } }
  auto r = op_from_block_matrix<T>(b, gs); same_op(r, h, "operator built from the block matrix"); auto m = block_matrix_from_op<T>(h, gs); CHECK(m.size() == 2, "number of blocks"); for (int k = 0; k < 2; ++k) { int n = gs[k].second; CHECK(m[k].shape(0) == n && m[k].shape(1) == n, "shape of a block"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) close(T(m[k](i, j)), T(b[k](i, j)), "block matrix of the operator"); }
}
ENTRY(h_block) { block<double>(); }
ENTRY(h_block_complex) { block<dcomplex>(); }
ENTRY(h_block_odd) {
  auto v = names(); triqs::hilbert_space::gf_struct_t gs{{"up", 2}, {"dn", 1}}; double x = coef("x"); op_t<double> h = x * D<double>(v[0]) * C<double>(v[1]), bad; int k = s_pick("odd", 0, 18);
  switch (k) { case 12: bad = D<double>(v[0]) * C<double>(v[2]); break; case 13: bad = D<double>(v[2]) * C<double>(v[1]); break; case 14: bad = D<double>({std::string("xx"), 0l}) * C<double>({std::string("xx"), 0l}); break; case 15: bad = D<double>({std::string("up"), 0l, 1l}) * C<double>({std::string("up"), 0l, 1l}); break;
    case 16: bad = D<double>({std::string("up")}) * C<double>({std::string("up")}); break; case 17: bad = D<double>({std::string("up")}) * C<double>(v[1]); break; case 18: bad = D<double>(v[0]) * C<double>({std::string("up")}); break; default: bad = odd_term<double>(k, v); }
  CHECK(throws([&] { block_matrix_from_op<double>(h + bad, gs); }), "a term outside the block form is rejected");
  if (k == 14) return; auto m = block_matrix_from_op<double>(h + bad, gs, true); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) CLOSE(m[0](i, j), (i == 0 && j == 1) ? x : 0., "terms outside the block form are ignored on request"); CLOSE(m[1](0, 0), 0., "terms outside the block form are ignored on request");
}
