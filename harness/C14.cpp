// C14: every sample of a histogram is in its nearest bin or counted as lost.
#include <triqs/stat/histograms.hpp>
#include <limits>
#include <sstream>
#include "sym.h"
#ifdef THOROUGH
static const int NB = 12, NS = 3;
#else
static const int NB = 6, NS = 2;
#endif
#include <bit>
using triqs::stat::histogram;
static double up(double x) { return x == 0 ? 5e-324 : std::bit_cast<double>(std::bit_cast<long>(x) + (x > 0 ? 1 : -1)); } static double down(double x) { return -up(-x); }
struct lim { double a, b; }; static const lim L[] = {{0, 1}, {-3, 5}, {-10, -9.5}, {0, 1e6}, {-1e-3, 1e-3}, {-2, 0.25}};
// n-th half-open interval around bin n; limits included
static bool in_bin(double x, double a, double b, long nb, long n) { if (!(x >= a) | !(x <= b)) return false; if (nb == 1) return n == 0; double h = (b - a) / (nb - 1); bool lo = (n == 0) | (x >= a + (n - 0.5) * h), hi = (n == nb - 1) | (x < a + (n + 0.5) * h); return lo & hi; }
static double total(histogram const &h) { double s = 0; for (size_t i = 0; i < h.size(); ++i) s += h.data()[i]; return s; }
static void fresh(histogram const &h, double a, double b, long nb) { CHECK((long)h.size() == nb && h.n_data_pts() == 0 && h.n_lost_pts() == 0 && h.limits() == std::make_pair(a, b), "a new histogram is empty"); for (long i = 0; i < nb; ++i) CHECK(h.data()[i] == 0, "a new histogram is empty"); for (long i = 0; i < nb && nb > 1; ++i) CLOSE(h.mesh_point(i), a + i * (b - a) / (nb - 1), "bin centres are equidistant from limit to limit"); }
// one arbitrary sample; ties between bins are excluded up to rounding of the library's step
ENTRY(h_sample) {
  lim l = L[s_pick("limits", 0, 5)]; long nb = s_pick("bins", 1, NB); histogram h(l.a, l.b, nb); fresh(h, l.a, l.b, nb); double w = l.b - l.a, x = s_real("x", l.a - 2 * w, l.b + 2 * w), hh = nb > 1 ? w / (nb - 1) : w;
  for (long i = 0; i < nb - 1; ++i) { double t = l.a + (i + 0.5) * hh; ASSUME((x < t - 1e-9 * w) | (x > t + 1e-9 * w)); }
  h << x; bool in = (x >= l.a) & (x <= l.b); CHECK((h.n_data_pts() == 1) == in && (h.n_lost_pts() == 1) == !in && h.n_data_pts() + h.n_lost_pts() == 1, "a sample is binned or lost according to the limits");
  for (long i = 0; i < nb; ++i) CHECK(h.data()[i] == (in_bin(x, l.a, l.b, nb, i) ? 1 : 0), "a sample is put in its nearest bin");
}
// exact ties and centres
ENTRY(h_centre) { long nb = s_pick("bins", 2, NB); int sc = s_pick("scale", 0, 3); double hh = 0.25 * (1 << sc), a = -1.5, b = a + hh * (nb - 1); histogram h(a, b, nb); long n = s_pick("n", 0, nb - 1); int half = s_pick("half", -1, 1); double x = a + (n + 0.5 * half) * hh; h << x; bool in = x >= a && x <= b; CHECK((long)h.n_lost_pts() == !in, "a sample is binned or lost according to the limits"); if (in) CHECK(h.data()[half == 1 ? n + 1 : n] == 1 || (half == -1 && h.data()[n] == 1), "a sample is put in its nearest bin"); CHECK(total(h) == in, "no sample is invented"); }
ENTRY(h_special) { lim l = L[s_pick("limits", 0, 5)]; long nb = s_pick("bins", 1, NB); histogram h(l.a, l.b, nb); double const S[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e308, -1e308, up(l.b), down(l.a), l.a, l.b, down(l.b), up(l.a)}; int k = s_pick("value", 0, 10); h << S[k]; bool in = k >= 7; CHECK((long)h.n_lost_pts() == !in && (long)h.n_data_pts() == in && total(h) == in, "special values and the limits are treated like all others"); if (in) CHECK(h.data()[(k == 7 || k == 10) ? 0 : nb - 1] == 1, "the limits belong to the first and last bin"); }
// every double
ENTRY(h_fp) { lim l = L[s_pick("limits", 0, 1)]; long nb = s_pick("bins", 2, l.a == 0 ? 3 : 2); histogram h(l.a, l.b, nb); double x = s_real("x"); h << x; bool in = (x >= l.a) & (x <= l.b); CHECK((h.n_data_pts() == 1) == in, "a sample is binned or lost according to the limits"); CHECK((h.n_lost_pts() == 1) == !in, "a sample is binned or lost according to the limits"); double s = total(h); CHECK(s == (in ? 1.0 : 0.0), "no sample is lost or invented"); } // irsym: --fp
static histogram filled(double a, double b, long nb, int ns, int &n, int &lost) { histogram h(a, b, nb); n = lost = 0; for (int i = 0; i < ns; ++i) { double x = s_real("x", a - 1, b + 1); h << x; if (s_flag("again")) { h << x; if (x < a || x > b) ++lost; else ++n; } if (x < a || x > b) ++lost; else ++n; } return h; }
ENTRY(h_history) {
  long nb = s_pick("bins", 2, 3); int n, lost; auto h = filled(-1, 2, nb, NS, n, lost); CHECK((int)h.n_data_pts() == n && (int)h.n_lost_pts() == lost, "every sample is counted once"); CHECK(total(h) == n, "bin counts add up to the number of binned samples");
  if (n) { auto p = pdf(h), c = cdf(h); CLOSE(total(p), 1, "the probability distribution is normalised"); CLOSE(c.data()[nb - 1], 1, "the cumulative distribution ends at one"); double s = 0; for (long i = 0; i < nb; ++i) { s += h.data()[i] / n; CLOSE(p.data()[i], h.data()[i] / n, "probability of a bin"); CLOSE(c.data()[i], s, "cumulated probability"); } CHECK(p.n_data_pts() == h.n_data_pts() && c.n_lost_pts() == h.n_lost_pts(), "counts are kept"); }
  auto g = h; CHECK(g == h && !(g != h), "copies are equal"); g << 0.1; CHECK(!(g == h) && (int)h.n_data_pts() == n, "copies are independent"); g.clear(); fresh(g, -1, 2, nb); g << 7; CHECK(g.n_lost_pts() == 1 && g.n_data_pts() == 0, "usable after clear");
}
ENTRY(h_add) { long nb = s_pick("bins", 2, 3); int n1, n2, l1, l2; auto a = filled(-1, 2, nb, 1, n1, l1), b = filled(-1, 2, nb, NS - 1, n2, l2); auto a0 = a, s = a + b; CHECK((int)s.n_data_pts() == n1 + n2 && (int)s.n_lost_pts() == l1 + l2, "adding histograms adds counts"); for (long i = 0; i < nb; ++i) CHECK(s.data()[i] == a.data()[i] + b.data()[i], "adding histograms adds bins"); CHECK(a == a0, "operands are unchanged"); }
ENTRY(h_add_mismatch) { lim l1 = L[s_pick("l1", 0, 2)], l2 = L[s_pick("l2", 0, 2)]; long n1 = s_pick("n1", 2, 3), n2 = s_pick("n2", 2, 3); histogram a(l1.a, l1.b, n1), b(l2.a, l2.b, n2); bool ok = l1.a == l2.a && l1.b == l2.b && n1 == n2; CHECK(throws([&] { a + b; }) == !ok, "incompatible histograms are not added"); CHECK((a == b) == ok, "histograms over different bins differ"); }
ENTRY(h_ctor) { int a = s_pick("a", -3, 3), b = s_pick("b", -3, 3); if (a == b + 1) __sym_stop(); if (b - a + 1 < 0) __sym_stop(); bool t = throws([&] { histogram h(a, b); fresh(h, a, b, b - a + 1); for (int k = a; k <= b; ++k) { h << k; CHECK(h.data()[k - a] == 1, "integer bins"); } }); CHECK(t == (a >= b), "limits have to be increasing"); bool t2 = throws([&] { histogram h(double(a), double(b), 3); }); CHECK(t2 == (a >= b), "limits have to be increasing"); }
ENTRY(h_h5) { long nb = s_pick("bins", 2, 3); int n, l; auto h = filled(-1, 2, nb, 2, n, l); histogram g(5, 9); g << 6; { h5::file f("t.h5", 'w'); h5::group r(f); h5_write(r, "h", h); h5_read(r, "h", g); } CHECK(g == h, "histograms survive storage"); g << 0.25; h << 0.25; CHECK(g == h, "histograms go on after storage"); }
ENTRY(h_ranks) {
  int P = s_pick("ranks", 1, 2); std::vector<histogram> h, r(P), q(P); int N = 0, LO = 0; for (int k = 0; k < P; ++k) { int n, l; h.push_back(filled(-1, 2, 3, 1, n, l)); N += n; LO += l; } bool all = s_flag("all"); int root = s_pick("root", 0, P - 1);
  CHECK(mpi::stub::run(P, [&](int k) { r[k] = mpi_reduce(h[k], {}, root, all); q[k] = (k == root) ? h[k] : histogram(7., 8., 5); mpi_broadcast(q[k], {}, root); }), "all ranks take part in the same collective operations");
  for (int k = 0; k < P; ++k) { if (all || k == root) { CHECK((int)r[k].n_data_pts() == N && (int)r[k].n_lost_pts() == LO, "reduction adds all counts"); for (int i = 0; i < 3; ++i) { double s = 0; for (auto &x : h) s += x.data()[i]; CHECK(r[k].data()[i] == s, "reduction adds all bins"); } } CHECK(q[k] == h[root], "broadcast copies the root's histogram"); auto z = q[k]; z << 0.6; auto z2 = h[root]; z2 << 0.6; CHECK(z == z2, "a broadcast histogram bins like the root's"); }
}
