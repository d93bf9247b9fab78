// Environment of the Monte-Carlo harnesses: a random generator whose draws are symbolic, and a clock.
#pragma once
#include <triqs/mc_tools/mc_generic.hpp>
#include <chrono>
#include "sym.h"
namespace env {
  inline std::vector<double> draws; inline double lo = 0, hi = 1; inline long clock_ns = 1000000000; inline long tick = 0;
  struct source { double operator()() { double u = s_real("u"); ASSUME(u >= 0); ASSUME(u < 1); draws.push_back(u); return u; } };
}
namespace triqs::mc_tools { random_generator::random_generator(std::string const &n, uint32_t) : gen(env::source{}, 1), _name(n) {} }
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { env::clock_ns += env::tick; return time_point(duration(env::clock_ns)); } } }
#include <signal.h>
namespace env { inline void (*handler[65])(int) = {}; inline void deliver(int s) { if (handler[s]) handler[s](s); } }
extern "C" int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept { if (s < 1 || s > 64 || s == SIGSTOP || s == SIGKILL) return -1; if (o) { o->sa_handler = env::handler[s]; } if (a) env::handler[s] = a->sa_handler; return 0; }
