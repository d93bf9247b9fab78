// C10: a run performs exactly the requested cycles, measures once per completed cycle and reports how it ended.
#include "mc_env.h"
#include <stdexcept>
using namespace triqs::mc_tools; using dcomplex = std::complex<double>;
enum { STEP, DECIDE, DUTY, AUX, MEAS0, MEAS1, STOP };
static std::vector<int> log_; static std::vector<double> signs; static double expected = 1; static int pattern = 0, nstep = 0; static long at = -1, fail_at = -1; static int sig = SIGTERM; static long secs = 0;
static void event(int e) { if ((long)log_.size() == at) env::deliver(sig); log_.push_back(e); }
struct mv { double r; double attempt() { event(STEP); env::clock_ns += secs * 1000000000; if (nstep == fail_at) throw std::runtime_error("move failed"); double v[] = {2, -2, 0}; r = pattern < 0 ? v[s_pick("ratio", 0, 2)] : v[(nstep * 7 + pattern) % 3]; ++nstep; return r; }
  double accept() { event(DECIDE); expected *= r < 0 ? -1 : 1; return 1; } void reject() { event(DECIDE); } };
struct ms { int id; void accumulate(double s) { event(MEAS0 + id); CLOSE(s, expected, "measures see the current sign"); } void collect_results(mpi::communicator const &) {} };
struct aux { void operator()() { event(AUX); } };
static void reset() { log_.clear(); }
static int count(int e) { int n = 0; for (int x : log_) n += x == e; return n; }
// structure of one run of n cycles of len steps; returns the number of completed cycles
static long follow(long n, long len, bool measured, bool duty, long signal_event, long stop_cycle, int status) {
  long cyc = 0, steps = 0; int d = 0, a = 0, m0 = 0, m1 = 0, s = 0; bool open = false; size_t i = 0, N = log_.size(); long begun = 0; bool ok = true;
  // split into segments ending at the stop callback (called once per cycle)
  while (i < N) {
    size_t j = i; while (j < N && log_[j] != STOP) ++j; int st = 0, dec = 0, du = 0, au = 0, me0 = 0, me1 = 0; bool order = true;
    for (size_t k = i; k < j; ++k) { int e = log_[k]; if (e == STEP) { ++st; order &= !(du | au | me0 | me1); } if (e == DECIDE) { ++dec; order &= dec == st; } if (e == DUTY) ++du; if (e == AUX) { ++au; order &= !(me0 | me1); } if (e == MEAS0) ++me0; if (e == MEAS1) ++me1; }
    CHECK(order, "steps come first, then the shared quantity, then the measures"); CHECK(st == dec && st <= len, "no more than length_cycle steps in a cycle"); CHECK(j < N, "the stop callback closes every cycle");
    bool interrupted = signal_event >= 0 && signal_event < (long)j; bool complete = st == len; CHECK(complete || interrupted, "only a signal shortens a cycle");
    if (signal_event >= 0) CHECK(signal_event >= (long)i, "no cycle is started after a signal");
    CHECK(stop_cycle < 0 || begun <= stop_cycle, "no cycle is started after the stop callback returned true");
    if (complete) { if (duty) CHECK(du == 1, "after-cycle duty once per cycle"); CHECK(me0 == measured && me1 == measured && au == measured, "each measure once per measured cycle, the shared quantity once"); ++cyc; }
    else CHECK(me0 + me1 + au + du == 0, "an interrupted cycle is not measured");
    ++begun; i = j + 1;
  }
  if (n >= 0) CHECK(cyc <= n, "not more cycles than requested");
  bool all = n >= 0 && cyc == n, sg = signal_event >= 0 && signal_event < (long)N, cb = stop_cycle >= 0 && begun > stop_cycle;
  CHECK(all || sg || cb, "fewer cycles only after an interruption");
  CHECK(status == (all ? 0 : sg ? 2 : 1), "status tells completed, stop callback and signal apart");
  return cyc;
}
static void setup(mc_generic<double> &mc) { mc.add_move(mv{}, "m"); mc.add_measure(ms{0}, "a"); mc.add_measure(ms{1}, "b", s_flag("timer")); mc.add_measure_aux(std::make_shared<aux>()); mc.set_after_cycle_duty([] { event(DUTY); }); }
static std::function<bool()> stopper(long k) { auto c = std::make_shared<long>(0); return [k, c] { event(STOP); return (*c)++ == k; }; }
ENTRY(h_run) {
  mc_generic<double> mc("", 1, 0); setup(mc); long n = s_int("n", 0, 3), len = s_int("len", 1, 2), stop = s_int("stop", -1, 3); bool meas = s_flag("measure"); pattern = s_pick("pattern", 0, 2); env::tick = s_flag("slow") ? 3000000000 : 0;
  int st = mc.run(n, len, stopper(stop), meas); long c = follow(n, len, meas, true, -1, stop, st); CHECK(mc.get_current_cycle_number() == c, "cycles are counted"); CHECK(mc.get_config_id() == c * len, "configurations are counted");
  if (st == 0 && n) CHECK(mc.get_percent() == 100, "a completed run is at 100%");
}
ENTRY(h_signs) { mc_generic<double> mc("", 1, 0); setup(mc); pattern = -1; int st = mc.run(2, 2, stopper(-1), true); follow(2, 2, true, true, -1, -1, st); }
ENTRY(h_infinite) { mc_generic<double> mc("", 1, 0); setup(mc); long stop = s_int("stop", 0, 4), len = s_int("len", 1, 2), n = s_int("n", -3, -1); int st = mc.accumulate(n, len, stopper(stop)); long c = follow(n, len, true, true, -1, stop, st); CHECK(c == stop + 1, "a negative number of cycles runs until stopped"); }
static void sigrun(long n, long len, bool meas, long stop) {
  mc_generic<double> mc("", 1, 0); setup(mc); long per = 2 * len + 2 + (meas ? 3 : 0); at = s_int("signal_at", 0, per * 3 - 1); int which[] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2}; sig = which[s_pick("signal", 0, 5)];
  int st = mc.run(n, len, stopper(stop), meas); long e = at < (long)log_.size() ? at : -1; follow(n, len, meas, true, e, stop, st);
  if (e >= 0) { CHECK(!triqs::signal_handler::received(), "signals of a run do not leak into the next one"); long before = log_.size(); at = -1; reset(); int s2 = mc.run(1, 1, stopper(-1), meas); follow(1, 1, meas, true, -1, -1, s2); }
}
ENTRY(h_signal) { sigrun(2, 2, true, -1); }
ENTRY(h_signal_warm) { sigrun(2, 1, false, -1); }
ENTRY(h_signal_inf) { sigrun(-1, 2, true, 3); }
ENTRY(h_signal_stop) { sigrun(3, 1, true, 1); }
ENTRY(h_warmup) {
  mc_generic<double> mc("", 1, 0); setup(mc); long w = s_int("w", 0, 2), n = s_int("n", 0, 2), len = s_int("len", 1, 2); secs = 1; bool neg = s_flag("neg"); bool init = s_flag("init"); if (init) expected = neg ? -1 : 1;
  int st = init ? mc.warmup(w, len, stopper(-1), neg ? -1.0 : 1.0) : mc.warmup(w, len, stopper(-1)); follow(w, len, false, true, -1, -1, st); CHECK(count(MEAS0) + count(MEAS1) + count(AUX) == 0, "no measurement during warm-up"); reset(); env::clock_ns += 7000000000;
  int s2 = mc.accumulate(n, len, stopper(-1)); follow(n, len, true, true, -1, -1, s2); env::clock_ns += 5000000000;
  CLOSE(mc.get_warmup_time(), w * len, "warm-up time is the time spent in warm-up"); CLOSE(mc.get_accumulation_time(), n * len, "accumulation time is the time spent accumulating"); CLOSE(mc.get_duration(), (w + n) * len, "total time");
  CHECK(mc.get_current_cycle_number() == w + n, "cycles of both phases are counted");
  h5::file f("x.h5", 'w'); h5::group g(f); h5_write(g, "mc", mc); long nm = -1, nc = -1; double s = 0; auto gr = g.open_group("mc"); h5_read(gr, "number_measure_done", nm); h5_read(gr, "number_cycle_done", nc); h5_read(gr, "sign", s); CHECK(nm == n && nc == w + n && s == expected, "saved counters and sign");
  mc_generic<double> r("", 1, 0); setup(r); h5_read(g, "mc", r); reset(); nstep = 1; r.accumulate(1, 1, stopper(-1)); CHECK(r.get_current_cycle_number() == w + n + 1, "a restored simulation continues the count");
}
ENTRY(h_both) {
  mc_generic<double> mc("", 1, 0); setup(mc); long w = s_int("w", 1, 2), n = s_int("n", 1, 2), stop = s_int("stop", -1, 3); bool init = s_flag("init"); if (init) expected = -1;
  int st = init ? mc.warmup_and_accumulate(w, n, 1, stopper(stop), -1.0) : mc.warmup_and_accumulate(w, n, 1, stopper(stop));
  bool in_w = stop >= 0 && stop < w - 1, in_last_w = stop == w - 1; long c = count(MEAS0);
  if (in_w) { CHECK(st == 1 && c == 0, "an interrupted warm-up is not followed by measurements"); } else { long e = (stop < 0 || in_last_w || stop - w >= n - 1) ? n : stop - w + 1; CHECK(c == e && st == (e == n ? 0 : 1), "accumulation follows a completed warm-up"); }
  CHECK(count(STEP) == count(STOP) && count(STEP) == mc.get_config_id(), "one step per cycle of length one");
}
ENTRY(h_measures) {
  mc_generic<double> mc("", 1, 0); mc.add_move(mv{}, "m"); auto a = mc.add_measure(ms{0}, "a"); auto b = mc.add_measure(ms{1}, "b"); CHECK(throws([&] { mc.add_measure(ms{1}, "a"); }), "two measures of the same name are an error");
  int what = s_pick("what", 0, 3); if (what == 1) mc.rm_measure(a); if (what == 2) mc.rm_measure(b); if (what == 3) mc.clear_measures();
  mc.accumulate(2, 1, stopper(-1)); CHECK(count(MEAS0) == (what == 1 || what == 3 ? 0 : 2) && count(MEAS1) == (what >= 2 ? 0 : 2), "only the registered measures are called"); CHECK(count(STEP) == 2, "run without shared quantity and duty");
}
ENTRY(h_exception) {
  mc_generic<double> mc("", 1, 0); setup(mc); fail_at = s_int("fail_at", 0, 5); bool thrown = throws([&] { mc.run(2, 2, stopper(-1), true); });
  CHECK(thrown == (fail_at < 4), "an exception of a move is reported to the caller"); if (thrown) { CHECK(count(STEP) == fail_at + 1, "nothing runs after the exception"); CHECK(count(MEAS0) == fail_at / 2, "the failing cycle is not measured"); }
}
ENTRY(h_emergency) { if (!mpi::has_env) return; mc_generic<double> mc("", 1, 0); setup(mc); mpi::stub::event_on_other_rank = true; CHECK(throws([&] { mc.run(3, 1, stopper(-1), true); }), "an emergency on another rank is reported"); CHECK(count(STEP) <= 1, "an emergency on another rank stops the run"); }
