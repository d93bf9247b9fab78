// C09 (random_generator): bounded draws for every value the underlying stream can deliver.
#include <triqs/mc_tools/random_generator.hpp>
#include <vector>
#include "sym.h"
namespace env { struct source { double operator()() { double u = s_real("u"); ASSUME(u >= 0); ASSUME(u < 1); return u; } }; }
namespace triqs::mc_tools { random_generator::random_generator(std::string const &n, uint32_t) : gen(env::source{}, 1), _name(n) {} }
using triqs::mc_tools::random_generator;
ENTRY(h_double) { random_generator g("x", 1); double p = g.preview(), u = g(); CHECK(p == u, "preview shows the next draw"); CHECK((u >= 0) & (u < 1), "double in [0,1)"); CHECK(g.name() == "x", "name"); }
ENTRY(h_scaled) { random_generator g("x", 1); double x = s_real("x", 1e-3, 1e6); double r = g(x); CHECK((r >= 0) & (r < x), "double in [0,x)"); }
ENTRY(h_interval) { random_generator g("x", 1); double a = s_real("a", -1e6, 1e6), b = s_real("b", -1e6, 1e6); ASSUME(b > a); double r = g(a, b); CHECK((r >= a) & (r < b), "double in [a,b)"); }
// bounds up to 24: every u; large bounds: u within one step of the ends, the middle and the start
template <class T> static void integer(std::vector<T> tab) {
  random_generator g("x", 1); T i = tab[s_pick("bound", 0, tab.size() - 1)]; double u = g.preview(); T r;
  if (i > 24) { T ks[] = {0, 1, T(i / 2), T(i - 1)}; double k = ks[s_pick("near", 0, 3)]; ASSUME((u * double(i) >= k - 1) & (u * double(i) < k + 1)); }
  r = g(i); CHECK(r >= 0 && r < i, "integer draw is a valid index");
}
ENTRY(h_int) { integer<int>({1, 2, 3, 10, 24, 1000, 65536, 2147483647}); }
ENTRY(h_long) { integer<long>({1, 2, 6, 100, 1000000007, 1l << 33, (1l << 40) + 1}); }
ENTRY(h_size) { integer<unsigned long>({1, 5, 4096, 1ul << 40}); }
ENTRY(h_short) { integer<short>({1, 2, 7, 32767}); }
// every index is reached, each from an interval of length 1/i
ENTRY(h_flat) { random_generator g("x", 1); int i = s_pick("i", 1, 6); double p = g.preview(); int r = g(i); CHECK((r <= p * i) & (p * i < r + 1), "flat distribution: index r for r/i <= u < (r+1)/i"); }
ENTRY(h_flat_copy) { random_generator g("x", 1); g(); double p = g.preview(); random_generator c(g); CHECK(c.preview() == p && c() == p && g() == p, "a copy continues the sequence"); random_generator m(std::move(c)); CHECK(m.name() == "x", "name"); }
