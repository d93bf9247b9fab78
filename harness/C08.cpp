// C08: a Monte-Carlo step attempts one move chosen by weight, applies the Metropolis test once, and keeps sign and statistics exactly.
#include "mc_env.h"
using namespace triqs::mc_tools; using dcomplex = std::complex<double>;
enum { ATT = 0, ACC = 1, REJ = 2 };
template <class S> struct ev { int what, move; size_t draws; double u; S r; S acc; };
template <class S> struct log_t { std::vector<ev<S>> t; int mode = 0; };
template <class S> S ratio(int mode); 
template <> double ratio<double>(int mode) {
  if (mode == 1) { double v[] = {0, 1, -1, 0.25, -0.25, 7.5, -7.5, INFINITY, -INFINITY}; return v[s_pick("ratio", 0, 8)]; }
  double r = s_real("r"); ASSUME((r == 0) | (r > 1e-6) | (r < -1e-6)); return r;
}
template <> dcomplex ratio<dcomplex>(int) { double m = s_real("m", 1e-6, 64); dcomplex d[] = {0, 1, -1, {0, 1}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}}; return m * d[s_pick("dir", 0, 6)]; }
template <class S> S unit(); 
template <> double unit<double>() { return s_flag("neg") ? -1 : 1; }
template <> dcomplex unit<dcomplex>() { dcomplex d[] = {1, -1, {0, 1}}; return d[s_pick("phase", 0, 2)]; }
template <class S> struct mv { log_t<S> *l; int id; random_generator *own = nullptr;
  S attempt() { l->t.push_back({ATT, id, env::draws.size(), env::draws.back(), 0, 0}); if (own) (*own)(); S r = ratio<S>(l->mode); l->t.back().r = r; l->t.back().draws = env::draws.size(); return r; }
  S accept() { S a = unit<S>(); l->t.push_back({ACC, id, env::draws.size(), env::draws.back(), 0, a}); return a; }
  void reject() { l->t.push_back({REJ, id, env::draws.size(), env::draws.back(), 0, 0}); }
};
template <class S> struct ms { S *s; void accumulate(S x) { *s = x; } void collect_results(mpi::communicator const &) {} };
template <class S> static double mod(S r, S e) { return std::abs(r); }
static double dir(double r) { return r < 0 ? -1 : 1; }
static dcomplex dir(dcomplex r) { dcomplex d[] = {1, -1, {0, 1}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}}; for (auto x : d) { double m = (r * std::conj(x)).real(); if (m > 1e-7) { dcomplex e = r - m * x; if (std::abs(e.real()) < 1e-9 && std::abs(e.imag()) < 1e-9) return x; } } return 1; }
static double size(double r) { return r < 0 ? -r : r; }
static double size(dcomplex r) { return (r * std::conj(dir(r))).real(); }
static void close(double a, double b, const char *id) { CLOSE(a, b, id); }
static void close(dcomplex a, dcomplex b, const char *id) { CLOSEC(a, b, id); }
// checks the trace: alternating attempt / decision, selection by weight w (may be empty), acceptance, sign
template <class S> static S follow(log_t<S> const &l, std::vector<double> const &w, long steps, std::vector<long> &prop, std::vector<long> &acc, bool selection = true) {
  CHECK((long)l.t.size() == 2 * steps, "one attempt and one decision per step"); S sign = 1; if ((long)l.t.size() != 2 * steps) return sign;
  double W = 0; for (auto x : w) W += x;
  for (long k = 0; k < steps; ++k) { auto const &a = l.t[2 * k], &d = l.t[2 * k + 1];
    CHECK(a.what == ATT, "a step starts with one attempt"); CHECK(d.what != ATT, "an attempt is followed by a decision"); CHECK(a.move == d.move, "the attempted move is the one accepted or rejected");
    CHECK(d.draws == a.draws + 1, "the Metropolis test uses one fresh random number");
    ++prop[a.move];
    if (selection) { double before = 0; for (int i = 0; i < a.move; ++i) before += w[i]; CHECK(w[a.move] > 0, "a move of weight 0 is never attempted"); CHECK((before <= a.u * W) & (a.u * W <= before + w[a.move]), "move chosen in proportion to its weight"); }
    double m = size(a.r);
    if (d.what == ACC) { CHECK(m > 0, "a step of ratio 0 is never accepted"); CHECK(d.u <= m + 1e-9, "accepted only if u < |ratio|"); ++acc[a.move]; sign *= dir(a.r) * d.acc; }
    else { CHECK(d.u >= m - 1e-9, "rejected only if u >= |ratio|"); CHECK(m < 1 + 1e-9, "a step of ratio at least 1 is never rejected"); }
  }
  return sign;
}
template <class S> static void run(int nmoves, long cyc, long len, int mode, bool symw, bool own) {
  log_t<S> l; l.mode = mode; mc_generic<S> mc("", 1, 0); S seen = 77; std::vector<double> w;
  for (int i = 0; i < nmoves; ++i) { double x = symw ? s_real("w", 0, 8) : (i == 1 ? 0.5 : 1.0 + i); w.push_back(x); }
  if (symw) { ASSUME(w[0] > 0.01); for (int i = 1; i < nmoves; ++i) ASSUME((w[i] == 0) | (w[i] > 0.01)); }
  const char *names[] = {"a", "b", "c"};
  for (int i = 0; i < nmoves; ++i) mc.add_move(mv<S>{&l, i, own ? &mc.get_rng() : nullptr}, names[i], w[i]);
  mc.add_measure(ms<S>{&seen}, "sign");
  std::vector<long> prop(nmoves), acc(nmoves);
  int st = mc.accumulate(cyc, len, [] { return false; }); CHECK(st == 0, "run completes");
  S sign = follow<S>(l, w, cyc * len, prop, acc); close(seen, sign, "sign is the product of the signs of the accepted moves"); CHECK(mc.get_config_id() == cyc * len, "one configuration per step");
  mc.collect_results(mpi::communicator{}); auto ar = mc.get_acceptance_rates(); CHECK((int)ar.size() == nmoves, "one rate per move");
  for (int i = 0; i < nmoves; ++i) if (prop[i]) CLOSE(ar.at(names[i]), double(acc[i]) / prop[i], "acceptance rate is accepted / proposed");
}
ENTRY(h_select2) { run<double>(2, 1, 1, 1, true, false); }
ENTRY(h_select3) { run<double>(3, 1, 1, 1, true, false); }
ENTRY(h_metropolis) { run<double>(1, 1, 2, 0, false, false); }
ENTRY(h_metropolis_own) { run<double>(2, 1, 2, 0, false, true); }
ENTRY(h_cycles) { run<double>(1, 2, 1, 0, false, false); }
#ifdef THOROUGH
ENTRY(h_steps3) { run<double>(2, 1, 3, 0, false, false); } // irsym: thorough-only
#endif
ENTRY(h_complex) { run<dcomplex>(2, 1, 1, 0, false, false); }
ENTRY(h_complex2) { run<dcomplex>(1, 1, 2, 0, false, false); }
// a set of moves nested in the set of moves
ENTRY(h_nested) {
  log_t<double> l; l.mode = 1; mc_generic<double> mc("", 1, 0); move_set<double> in(mc.get_rng()); double w0 = s_real("w", 0.1, 8), w1 = s_real("w", 0.1, 8);
  in.add(mv<double>{&l, 1}, "b", w0); in.add(mv<double>{&l, 2}, "c", w1); mc.add_move(mv<double>{&l, 0}, "a", 1.5); mc.add_move(std::move(in), "set", 0.75); double seen = 77; mc.add_measure(ms<double>{&seen}, "sign");
  size_t before = env::draws.size(); mc.accumulate(1, 2, [] { return false; }); std::vector<long> prop(3), acc(3); double sign = follow<double>(l, {}, 2, prop, acc, false); CLOSE(seen, sign, "sign with a nested set of moves");
  for (size_t k = 0; k < l.t.size(); k += 2) { auto &a = l.t[k]; if (a.move == 0) continue; double W = w0 + w1; CHECK(a.move == 1 ? a.u * W <= w0 : a.u * W >= w0, "nested move chosen in proportion to its weight"); }
  mc.collect_results(mpi::communicator{}); auto ar = mc.get_acceptance_rates(); const char *n[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i) if (prop[i]) CLOSE(ar.at(n[i]), double(acc[i]) / prop[i], "acceptance rates of nested moves"); if (prop[1] + prop[2]) CLOSE(ar.at("set"), double(acc[1] + acc[2]) / (prop[1] + prop[2]), "acceptance rate of the nested set");
}
// a second run starts its statistics afresh and continues the sign
ENTRY(h_second_run) {
  log_t<double> l; l.mode = 1; mc_generic<double> mc("", 1, 0); mc.add_move(mv<double>{&l, 0}, "a"); double seen = 77; mc.add_measure(ms<double>{&seen}, "sign");
  double s0 = s_flag("neg_start") ? -1 : 1; mc.warmup(1, 1, [] { return false; }, s0); std::vector<long> prop(1), acc(1), p2(1), a2(1); double s1 = follow<double>(l, {1}, 1, prop, acc); l.t.clear();
  mc.accumulate(1, 1, [] { return false; }); double s2 = follow<double>(l, {1}, 1, p2, a2); CLOSE(seen, s0 * s1 * s2, "sign carries over from warm-up and from its initial value");
  mc.collect_results(mpi::communicator{}); CLOSE(mc.get_acceptance_rates().at("a"), double(a2[0]) / p2[0], "statistics are those of the last run"); CHECK(mc.get_config_id() == 2, "configurations are counted over all runs");
}
struct bad { double v; double attempt() { return v; } double accept() { return 1; } void reject() {} };
struct badc { dcomplex v; dcomplex attempt() { return v; } dcomplex accept() { return 1; } void reject() {} };
ENTRY(h_nan) {
  random_generator rng("", 1); move_set<double> m(rng); CHECK(throws([&] { m.add(bad{NAN}, "nan", 1); m.attempt(); }), "a NaN ratio is an error");
  move_set<dcomplex> c(rng); dcomplex v[] = {{NAN, 0}, {0, NAN}, {INFINITY, 0}}; c.add(badc{v[s_pick("which", 0, 2)]}, "bad", 1); CHECK(throws([&] { c.attempt(); }), "a complex ratio that is not finite is an error");
  move_set<double> none(rng);
}
