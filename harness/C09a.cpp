// C09 (Mersenne twister, buffering): sequences are the generator's own, in range, reproducible and copied with their state.
#include <triqs/mc_tools/MersenneRNG.hpp>
#include <triqs/utility/buffered_function.hpp>
#include "sym.h"
using namespace triqs::mc_tools::RandomGenerators; using triqs::utility::buffered_function;
// reference: MT19937 with the multiplicative seeding documented in the header
struct ref { uint64_t s[624]; int i = 624; ref(uint64_t seed) { uint64_t x = (seed | 1) & 0xFFFFFFFFu; for (int k = 0; k < 624; ++k) { s[k] = x & 0xFFFFFFFFu; x *= 69069u; } }
  uint64_t operator()() { if (i == 624) { for (int k = 0; k < 624; ++k) { uint64_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ ((s[(k + 1) % 624] & 1) ? 0x9908b0dfu : 0); } i = 0; }
    uint64_t y = s[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); } };
ENTRY(h_reference) { uint64_t seeds[] = {0, 1, 198, 34788, 0xFFFFFFFFull, 928374}; uint64_t sd = seeds[s_pick("seed", 0, 5)]; RandMT a(sd); ref r(sd); bool ok = true; for (int k = 0; k < 1300; ++k) { uint64_t x = a.randomMT() & 0xFFFFFFFFull; ok &= x == r(); } CHECK(ok, "the stream is MT19937 with the documented seeding"); }
// symbolic seed: two generators agree, a copy continues, outputs are 32 bits and stay in range
static void symseed(int skip, int n) {
  uint64_t sd = __sym_int("seed", 32); RandMT a(sd), b(sd); for (int k = 0; k < skip; ++k) { a.randomMT(); b.randomMT(); }
  RandMT c(a), d(77); d = a;
  for (int k = 0; k < n; ++k) { uint64_t x = a.randomMT(); CHECK(x == b.randomMT(), "same seed, same sequence"); CHECK(x == c.randomMT(), "a copy continues the sequence"); CHECK(x == d.randomMT(), "an assigned generator continues the sequence"); CHECK((x & 0xFFFFFFFFull) == x, "outputs have 32 bits"); }
}
ENTRY(h_seed_first) { symseed(0, 4); }
ENTRY(h_seed_mid) { symseed(300, 4); }
ENTRY(h_seed_reload) { symseed(622, 4); }
static void range(int skip) { uint64_t sd = __sym_int("seed", 32); RandMT a(sd); for (int k = 0; k < skip; ++k) a.randomMT(); RandMT b(a); double e = a.eval(); CHECK((e >= 0) & (e <= 1), "eval in [0,1]"); double x = b(); CHECK((x > 0) & (x < 1), "draw in (0,1)"); }
ENTRY(h_range_fp) { range(0); } // irsym: --fp
ENTRY(h_range_real) { range(0); } // irsym: --bv2real
ENTRY(h_range_ends) { double lo = DBL_EPSILON + 0.0 * (1 - 2 * DBL_EPSILON); RandMT a(1); bool ok = true; for (int k = 0; k < 2000; ++k) { double x = a(); ok &= x > 0 && x < 1; } CHECK(ok & (lo > 0), "draw in (0,1)"); }
// buffered streams: f yields f0, f0+1, ...; any interleaving of draws, previews, copies and moves
struct cnt { long n; long operator()() { return n++; } };
static void buffered(int ops) {
  long f0 = s_int("f0", -1000, 1000); size_t size = s_pick("size", 1, 3); buffered_function<long> a(cnt{f0}, size); std::vector<buffered_function<long>> v; v.push_back(a); std::vector<long> pos{f0};
  for (int k = 0; k < ops; ++k) {
    size_t w = v.size() == 1 ? 0 : s_pick("which", 0, v.size() - 1);
    switch (s_pick("op", 0, 3)) {
      case 0: CHECK(v[w]() == pos[w]++, "draws follow the underlying sequence"); break;
      case 1: CHECK(v[w].preview() == pos[w], "preview shows the next draw"); break;
      case 2: if (v.size() > 2) __sym_stop(); { auto c = v[w]; v.push_back(c); pos.push_back(pos[w]); } break;
      case 3: { auto m = std::move(v[w]); v[w] = buffered_function<long>(cnt{5000}, 2); v[w] = std::move(m); } break;
    }
  }
  for (size_t w = 0; w < v.size(); ++w) for (int k = 0; k < 4; ++k) CHECK(v[w]() == pos[w]++, "draws follow the underlying sequence");
}
ENTRY(h_buffer3) { buffered(3); }
ENTRY(h_buffer5) { buffered(5); } // irsym: thorough-only
ENTRY(h_buffer_default_size) { buffered_function<long> a(cnt{0}); bool ok = true; for (long k = 0; k < 2500; ++k) ok &= a.preview() == k && a() == k; CHECK(ok, "draws follow the underlying sequence"); }
ENTRY(h_buffer_empty) { buffered_function<long> a; CHECK(throws([&] { a(); }), "a default constructed buffer throws"); CHECK(throws([&] { a.preview(); }), "a default constructed buffer throws"); buffered_function<long> b(cnt{3}, 2); a = b; CHECK(a() == 3, "assignment to a default constructed buffer"); }
ENTRY(h_buffer_mt) { buffered_function<double> a(RandMT(1234), 4); int k = s_pick("k", 0, 9); for (int i = 0; i < k; ++i) a(); auto c = a; bool ok = true; for (int i = 0; i < 12; ++i) ok &= a() == c(); CHECK(ok, "a copied stream continues the sequence"); }
