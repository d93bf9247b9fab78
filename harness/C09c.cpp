// C09 (named generators): every advertised generator is constructible, reproducible and in range.
#include <triqs/mc_tools/random_generator.hpp>
#include <triqs/mc_tools/MersenneRNG.hpp>
#include "sym.h"
using triqs::mc_tools::random_generator;
ENTRY(h_default) { uint32_t seeds[] = {0, 1, 198, 34788, 0xFFFFFFFFu}, sd = seeds[s_pick("seed", 0, 4)]; random_generator a("", sd), b("", sd); triqs::mc_tools::RandomGenerators::RandMT m(sd); for (int k = 0; k < 3; ++k) { double x = a(); CHECK(x == b(), "same name and seed, same sequence"); CHECK(x == m(), "the unnamed generator is the built-in Mersenne twister"); CHECK((x > 0) & (x < 1), "draw in (0,1)"); } }
ENTRY(h_named) {
  auto l = triqs::mc_tools::random_generator_names_list(); CHECK(l.size() >= 1, "list of generators"); auto n = l[s_pick("which", 0, 2)]; uint32_t sd = 17 + 1000 * s_pick("seed", 0, 1); random_generator a(n, sd), b(n, sd); bool same = true, in = true, differ = false; double prev = -1;
  for (int k = 0; k < 2010; ++k) { double p = a.preview(), x = a(); same &= x == b() && x == p; in &= x >= 0 && x < 1; differ |= k && x != prev; prev = x; if (k == 1500) { random_generator c(a); b = std::move(c); } }
  CHECK(same, "same name and seed, same sequence"); CHECK(in, "double in [0,1)"); CHECK(differ, "the sequence is not constant"); CHECK(a.name() == n, "name");
}
ENTRY(h_unknown) { CHECK(throws([] { random_generator g("not a generator", 1); }), "an unknown generator is an error"); }
