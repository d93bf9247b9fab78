// C11: the signal handler records every delivered signal until it is popped; the clock callback fires when its time is over.
#include <triqs/utility/signal_handler.hpp>
#include <triqs/utility/callbacks.hpp>
#include <chrono>
#include <vector>
#include <signal.h>
#include "sym.h"
namespace env { static void (*handler[65])(int) = {}; static int dead = 0; static void deliver(int s) { if (handler[s]) handler[s](s); else ++dead; } static long ns = 0; }
extern "C" int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept { if (s < 1 || s > 64 || s == SIGSTOP || s == SIGKILL) return -1; if (o) o->sa_handler = env::handler[s]; if (a) env::handler[s] = a->sa_handler; return 0; }
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(env::ns)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(env::ns)); } } }
namespace sh = triqs::signal_handler;
static const int S[] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};
static void agree(std::vector<int> const &m) { CHECK(sh::received() == !m.empty(), "a signal is reported as received until it is popped"); if (!m.empty()) CHECK(sh::last() == m.back(), "last() is the most recent signal"); }
// any history of n operations after start; the signals themselves are symbolic
static void history(int n) {
  sh::start(); std::vector<int> m; agree(m); bool on = true;
  for (int k = 0; k < n; ++k) {
    switch (s_pick("op", 0, 4)) {
      case 0: if (!on) __sym_stop(); { int s = S[s_pick("sig", 0, 5)]; env::deliver(s); m.push_back(s); } break;
      case 1: if (m.empty()) __sym_stop(); sh::pop(); m.pop_back(); break;
      case 2: { bool r = sh::received(true); CHECK(r == !m.empty(), "received(pop) reports before popping"); if (!m.empty()) m.pop_back(); } break;
      case 3: sh::stop(); m.clear(); on = false; break;
      case 4: sh::start(); on = true; break;
    }
    agree(m);
  }
  CHECK(env::dead == 0, "every signal of the documented set is caught after start");
}
ENTRY(h_history3) { history(3); }
ENTRY(h_history4) { history(4); } // irsym: thorough-only
ENTRY(h_all) { sh::start(); for (int s : S) env::deliver(s); CHECK(env::dead == 0, "every signal of the documented set is caught after start"); for (int k = 5; k >= 0; --k) { CHECK(sh::received() && sh::last() == S[k], "signals are popped most recent first"); sh::pop(); } CHECK(!sh::received(), "every signal is recorded once"); }
// any handler argument is recorded verbatim
ENTRY(h_value) { sh::start(); int s = s_int("s", 1, 64); env::handler[SIGINT](s); CHECK(sh::received() && sh::last() == s, "the signal number is recorded"); sh::pop(); CHECK(!sh::received(), "every signal is recorded once"); }
static const int N[] = {1, 2, 3, 7, 60, 3600, 86400, 604800, 100000000, 2147483647};
ENTRY(h_clock) {
  long t0 = s_int("t0", 0, 2000000000000000000), t1 = s_int("t1", 0, 9000000000000000000); ASSUME(t1 >= t0); bool pos = s_flag("positive"); int n = pos ? N[s_pick("n", 0, 9)] : (int)s_int("n", -2147483648l, 0);
  env::ns = t0; auto cb = triqs::utility::clock_callback(n); env::ns = t1; bool r = cb();
  if (pos) { long e = t1 - t0, lim = long(n) * 1000000000; CHECK((e > lim) <= r, "true once more than n seconds have elapsed"); CHECK((e < lim) <= !r, "false before n seconds have elapsed"); bool r2 = cb(); CHECK(r2 == r, "asking does not change the answer"); auto c2 = cb; CHECK(c2() == r, "copies agree"); }
  else { CHECK(!r, "no limit for n <= 0"); }
}
ENTRY(h_clock_monotone) { long t0 = s_int("t0", 0, 2000000000000000000), a = s_int("a", 0, 3000000000000000000), b = s_int("b", 0, 3000000000000000000); int n = N[s_pick("n", 0, 9)]; env::ns = t0; auto cb = triqs::utility::clock_callback(n); env::ns = t0 + a; bool r1 = cb(); env::ns = t0 + a + b; bool r2 = cb(); CHECK(!r1 | r2, "once over, the time stays over"); }
ENTRY(h_clock_signal) { auto cb = triqs::utility::clock_callback(s_pick("n", -1, 2)); env::deliver(SIGTERM); CHECK(env::dead == 0 && sh::received(), "the clock callback starts the signal handler"); }
