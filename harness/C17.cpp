// C17: scope guards, report streams, timers.
#include <triqs/utility/scope_guard.hpp>
#include <triqs/utility/report_stream.hpp>
#include <triqs/utility/timer.hpp>
#include <string>
#include <ostream>
#include "sym.h"
using namespace triqs::utility;
// ---------------------------------------------------------------- scope guards
static int runs[6]; static int order[16], norder; static void ran(int i) { runs[i]++; if (norder < 16) order[norder++] = i; }
static void reset() { for (int &r : runs) r = 0; norder = 0; }
struct fn { int i; void operator()() const { ran(i); } };
struct boom {};
// a guard left normally, by return or by an exception, possibly dismissed at one of two points
static void body(int how, int dis, int which) {
  switch (which) {
    case 0: { scope_guard<fn> g{fn{0}}; if (dis == 1) g.dismiss(); CHECK(g.active() == (dis != 1), "active until dismissed"); ran(1); if (how == 1) return; if (how == 2) throw boom{}; if (dis == 2) g.dismiss(); CHECK(g.active() == (dis == 0), "active until dismissed"); break; }
    case 1: { auto g = exec_at_scope_exit(fn{0}); if (dis == 1) g.dismiss(); ran(1); if (how == 1) return; if (how == 2) throw boom{}; if (dis == 2) g.dismiss(); break; }
    case 2: { auto g = make_scope_guard([] { ran(0); }); if (dis == 1) g.dismiss(); ran(1); if (how == 1) return; if (how == 2) throw boom{}; if (dis == 2) g.dismiss(); break; }
    case 3: { int x = 0; SCOPE_EXIT { ran(0); if (x != 7) ran(5); }; ran(1); x = 7; if (how == 1) return; if (how == 2) throw boom{}; break; }
  }
  ran(2);
}
ENTRY(h_scope) { reset(); int how = s_pick("how", 0, 2), dis = s_pick("dismiss", 0, 2), which = s_pick("kind", 0, 3); bool t = throws([&] { body(how, dis, which); });
  bool off = which != 3 && (dis == 1 || (dis == 2 && how == 0)); CHECK(t == (how == 2), "exceptions propagate"); CHECK(runs[0] == (off ? 0 : 1), "run exactly once at scope exit unless dismissed"); CHECK(runs[1] == 1 && runs[2] == (how == 0) && runs[5] == 0, "captured state at the exit of the scope");
  if (!off) CHECK(order[0] == 1 && (how == 0 ? order[norder - 1] == 0 || order[norder - 1] == 2 : order[1] == 0), "runs at the end of the scope"); }
// every history of up to N moves/dismissals between guards
ENTRY(h_move) { reset(); int owner[2] = {0, 1}, want[6] = {}; bool act[2] = {true, true}; auto same = [&] { bool b = true; for (int i = 0; i < 6; i++) b = b && runs[i] == want[i]; return b; }; {
    scope_guard<fn> a{fn{0}}, b{fn{1}}; scope_guard<fn> *g[2] = {&a, &b}; int fresh = 2;
#ifdef THOROUGH
    const int N = 4;
#else
    const int N = 3;
#endif
    for (int i = 0; i < N; i++) { switch (s_pick("op", 0, 4)) {
        case 0: break;
        case 1: { int k = s_pick("which", 0, 1); g[k]->dismiss(); act[k] = false; break; }
        case 2: { int k = s_pick("from", 0, 1); { scope_guard<fn> c(std::move(*g[k])); CHECK(c.active() == act[k] && !g[k]->active(), "a move transfers the activity"); CHECK(same(), "a move runs nothing"); } want[owner[k]] += act[k]; act[k] = false; break; }
        case 3: a = std::move(b); std::swap(owner[0], owner[1]); std::swap(act[0], act[1]); break;
        case 4: { b = scope_guard<fn>{fn{fresh}}; want[owner[1]] += act[1]; owner[1] = fresh++; act[1] = true; break; }
      }
      CHECK(same(), "functions run when their guard is destroyed and only then"); for (int k = 0; k < 2; k++) CHECK(g[k]->active() == act[k], "activity"); }
    for (int k = 0; k < 2; k++) if (act[k]) want[owner[k]]++; }
  CHECK(same(), "every active guard runs its own function once"); for (int i = 0; i < 6; i++) CHECK(runs[i] <= 1, "no function runs twice"); }
ENTRY(h_nested) { reset(); int how = s_pick("how", 0, 2), d = s_pick("which", 0, 3); bool t = throws([&] { auto a = make_scope_guard(fn{0}); SCOPE_EXIT { ran(1); }; { SCOPE_EXIT { ran(2); }; if (d == 1) a.dismiss(); if (how == 1) throw boom{}; } auto c = make_scope_guard(fn{3}); if (d == 2) c.dismiss(); if (d == 3) { auto e = std::move(a); CHECK(e.active(), "a move transfers the activity"); } if (how == 2) throw boom{}; });
  int w[4], n = 0; w[n++] = 2; if (how == 1) { w[n++] = 1; if (d != 1) w[n++] = 0; } else { if (d == 3) w[n++] = 0; if (d != 2) w[n++] = 3; w[n++] = 1; if (d != 1 && d != 3) w[n++] = 0; }
  CHECK(t == (how != 0), "exceptions propagate"); CHECK(norder == n, "each function once"); for (int i = 0; i < n && i < norder; i++) CHECK(order[i] == w[i], "guards run in reverse order of their construction"); }
// ---------------------------------------------------------------- report streams
struct probe { long v; }; static long seen[16]; static int nseen; static std::ostream *where; static int nmanip;
struct out { std::ostream *o; out(std::ostream &s) : o(&s) {} }; // any operator<< that takes a std::ostream& has an empty body in the engine
static std::ostream &operator<<(out s, probe const &p) { where = s.o; if (nseen < 16) seen[nseen] = p.v; nseen++; return *s.o; }
static std::ostream &manip(std::ostream &o) { where = &o; nmanip++; return o; }
struct sbuf : std::streambuf {};
ENTRY(h_report) { static sbuf b1, b2; static std::ostream o1(&b1), o2(&b2); long v = s_int("verbosity", -1000000, 1000000), n = s_int("n", -1000000, 1000000), m = s_int("m", -1000000, 1000000), x = s_int("x", -5, 5);
  report_stream r(&o1, (int)v), q(&o2, (int)v); nseen = nmanip = 0; where = nullptr;
  r << probe{x}; CHECK(nseen == (v > 0 ? 1 : 0), "printed iff the verbosity is positive"); CHECK(where == (v > 0 ? &o1 : nullptr), "printed to its own stream"); if (nseen) CHECK(seen[0] == x, "prints its argument");
  nseen = 0; where = nullptr; r((int)n) << probe{x}; CHECK(nseen == (v >= n ? 1 : 0), "a message of level n is printed iff the verbosity reaches n"); CHECK(where == (v >= n ? &o1 : nullptr), "printed to its own stream");
  nseen = 0; q((int)n) << probe{x} << probe{x + 1} << probe{x + 2}; CHECK(nseen == (v >= n ? 3 : 0), "chained output"); if (v >= n) CHECK(seen[0] == x && seen[1] == x + 1 && seen[2] == x + 2 && where == &o2, "chained output in order");
  nmanip = 0; where = nullptr; r((int)n) << manip; CHECK(nmanip == (v >= n ? 1 : 0) && where == (v >= n ? &o1 : nullptr), "manipulators follow the same rule");
  nmanip = nseen = 0; r((int)n) << manip << probe{x} << manip; CHECK(nmanip == (v >= n ? 2 : 0) && nseen == (v >= n ? 1 : 0), "manipulators can be chained");
  nseen = 0; r((int)n)((int)m) << probe{x}; CHECK(nseen == (v - n + 1 >= m ? 1 : 0), "levels are relative to the stream"); nseen = 0; r << probe{x}; CHECK(nseen == (v > 0 ? 1 : 0), "a derived stream leaves the verbosity unchanged");
  report_stream d(&o1); nseen = 0; d << probe{x}; CHECK(nseen == 1, "the default verbosity is 1"); nseen = 0; d(2) << probe{x}; CHECK(nseen == 0, "the default verbosity is 1"); }
// ---------------------------------------------------------------- timer
static long clk; static int nreads;
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { nreads++; return system_clock::time_point(system_clock::duration(clk)); } } }
#ifdef THOROUGH
static const int NT = 6;
#else
static const int NT = 4;
#endif
ENTRY(h_timer) { // irsym: --bv2real
  clk = 1000; timer t; CHECK(!t.is_running(), "a new timer does not run"); CLOSE(double(t), 0, "a new timer shows zero"); long total = 0, since = 0; bool run = false; int which = s_pick("which", 0, 2 * NT - 1); static const long w[12] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41};
  for (int i = 0; i < 4; i++) { clk = clk + (which == 2 * i ? s_int("dt", 0, 1l << 40) : w[2 * i] * 10000019);
    switch (s_pick("op", 0, 2)) { case 0: if (run) __sym_stop(); t.start(); run = true; since = clk; break; case 1: if (!run) __sym_stop(); t.stop(); total += clk - since; run = false; break; case 2: { timer u = t; CHECK(u.is_running() == run, "copies"); break; } }
    CHECK(t.is_running() == run, "running between start and stop"); clk = clk + (which == 2 * i + 1 ? s_int("dt", 0, 1l << 40) : w[2 * i + 1] * 10000019);
    double sec = t; CLOSETOL(sec, (total + (run ? clk - since : 0)) * 1e-9, 1e-9, "the time is the sum of the intervals between start and stop, up to now while running"); } }
ENTRY(h_timer_all) { // irsym: thorough-only --bv2real
  clk = 1000; timer t; CHECK(!t.is_running(), "a new timer does not run"); CLOSE(double(t), 0, "a new timer shows zero"); long total = 0, since = 0; bool run = false;
  for (int i = 0; i < 4; i++) { clk = clk + s_int("dt", 0, 1l << 40);
    switch (s_pick("op", 0, 2)) { case 0: if (run) __sym_stop(); t.start(); run = true; since = clk; break; case 1: if (!run) __sym_stop(); t.stop(); total += clk - since; run = false; break; case 2: { timer u = t; CHECK(u.is_running() == run, "copies"); break; } }
    CHECK(t.is_running() == run, "running between start and stop"); clk = clk + s_int("dt", 0, 1l << 40);
    double sec = t; CLOSETOL(sec, (total + (run ? clk - since : 0)) * 1e-9, 1e-9, "the time is the sum of the intervals between start and stop, up to now while running"); } }
