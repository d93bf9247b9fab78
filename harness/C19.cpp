// C19: imaginary-time points on the exact grid of [0, beta].
#include <triqs/utility/time_pt.hpp>
#include "sym.h"
using triqs::utility::time_pt; using triqs::utility::time_segment; using u64 = uint64_t;
static const u64 M = ~0ull; // the grid has M intervals; n = M is beta, which is the point 0 of the circle
static u64 S(const char *n) { return __sym_int(n, 64); }
static time_pt P(u64 n, double beta) { return time_pt(n, beta); }
static u64 N(time_pt const &t) { return floor_div(t, time_segment(1).get_epsilon()); }
static u64 circ(u64 n) { return n == M ? 0 : n; } // representative of n on the circle
static u64 add(u64 a, u64 b) { a = circ(a); b = circ(b); return a >= M - b ? a - (M - b) : a + b; } // a + b mod M
static u64 neg(u64 a) { a = circ(a); return a ? M - a : 0; }
ENTRY(h_basic) { u64 n = S("n"); time_segment g(10); CHECK(N(P(n, 10)) == n, "position"); CHECK(N(g.get_lower_pt()) == 0 && N(g.get_upper_pt()) == M && N(g.get_epsilon()) == 1, "lowest, highest and smallest point"); CHECK(double(g.get_lower_pt()) == 0 && double(g.get_upper_pt()) == 10, "the segment is [0, beta]"); time_pt z; CHECK(N(z) == 0 && double(z) == 0, "the default point is 0"); z = P(n, 10); CHECK(N(z) == n && double(z) == double(P(n, 10)), "copies"); }
ENTRY(h_compare) { u64 a = S("a"), b = S("b"); auto x = P(a, 10), y = P(b, 10); CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "points are ordered as on the grid"); }
ENTRY(h_add) { u64 a = S("a"), b = S("b"); auto r = P(a, 10) + P(b, 10); CHECK(circ(N(r)) == add(a, b), "addition is cyclic on [0, beta]"); CHECK(N(r) < M, "the sum is in [0, beta["); CHECK(N(P(b, 10) + P(a, 10)) == N(r), "addition commutes"); CHECK(circ(N(P(a, 10) + time_segment(10).get_lower_pt())) == circ(a), "0 is neutral"); CHECK(circ(N(P(a, 10) + time_segment(10).get_upper_pt())) == circ(a), "a turn by beta is neutral"); }
ENTRY(h_sub) { u64 a = S("a"), b = S("b"); auto x = P(a, 10), y = P(b, 10); CHECK(circ(N(x - y)) == add(a, neg(b)), "subtraction is cyclic on [0, beta]"); CHECK(N(x - y) < M, "the difference is in [0, beta["); CHECK(circ(N(-x)) == neg(a), "the opposite is cyclic on [0, beta]"); CHECK(circ(N(x - x)) == 0, "x - x is 0"); CHECK(circ(N((x - y) + y)) == circ(a), "x - y + y is x"); CHECK(circ(N((x + y) - y)) == circ(a), "x + y - y is x"); CHECK(circ(N(-(-x))) == circ(a), "the opposite of the opposite"); CHECK(circ(N((-x) + x)) == 0, "-x + x is 0"); if (a >= b) CHECK(N(x - y) == (a - b == M ? 0 : a - b), "a difference that does not wrap is exact"); }
ENTRY(h_div) { static const u64 base[] = {0, 1ull << 40, (1ull << 63) - 99, M - 65535}; u64 a = base[s_pick("base", 0, 3)] + (S("n") & 0xffff); static const u64 ds[] = {1, 2, 3, 5, 7, 10, 64, 1000, 65537, 1ull << 40, M}; u64 d = ds[s_pick("d", 0, 10)]; auto x = P(a, 10); u64 q = N(div_by_int(x, d)); CHECK(q <= M / d, "a fraction of beta"); CHECK(q * d <= a, "not above the exact fraction"); CHECK(a - q * d < d, "the grid point below the exact fraction"); CHECK(N(mult_by_int(P(q, 10), d)) == q * d, "multiples inside the segment are exact"); CHECK(floor_div(x, P(d, 10)) == q, "floor_div counts the steps"); }
ENTRY(h_floor_div) { u64 a = S("a") & 0xffff, b = S("b") & 0xffff; ASSUME(b > 0); u64 s = s_pick("shift", 0, 3) * 16; u64 k = floor_div(P(a << s, 10), P(b << s, 10)); CHECK(k == a / b, "floor_div is the number of whole steps"); CHECK(N(mult_by_int(P(a, 10), b)) == a * b, "multiples inside the segment are exact"); CHECK(N(mult_by_int(P(a << 32, 10), b)) == (a * b) << 32, "multiples inside the segment are exact"); }
// values as real numbers: beta * n / M
static const double betas[] = {10, 0.1, 1, 40, 1000.7, 1.0 / 3};
ENTRY(h_value) { // irsym: --bv2real
  u64 n = S("n"); double beta = betas[s_pick("beta", 0, 5)]; double v = double(P(n, beta)); CLOSETOL(v, beta * (double(n) / 18446744073709551616.0), 1e-9, "the value is beta n / Nmax"); CHECK((v >= 0) & (v <= beta), "the value lies in [0, beta]"); }
ENTRY(h_keep_beta) { double beta = s_real("beta", 0.01, 10000); static const u64 ns[] = {1ull << 61, 3ull << 60, 0xfedcba9876543210ull, M}; u64 n = ns[s_pick("n", 0, 3)], m = ns[s_pick("m", 0, 2)]; auto x = P(n, beta), y = P(m, beta); auto is = [&](time_pt const &t) { CLOSE(double(t), beta * (double(N(t)) / 18446744073709551616.0), "results keep beta"); }; is(x + y); is(x - y); is(y - x); is(-x); is(div_by_int(x, 3)); is(mult_by_int(div_by_int(x, 7), 5)); time_segment g(beta); is(g.get_epsilon()); is(g.get_lower_pt()); is(g.get_upper_pt()); CLOSE(double(g.get_upper_pt()), beta, "the segment is [0, beta]"); }
#ifdef THOROUGH
#define NB 2
#else
#define NB 0
#endif
ENTRY(h_value_fp) { // irsym: --fp
  u64 n = S("n"); double beta = betas[s_pick("beta", 0, NB)]; double v = double(P(n, beta)); CHECK((v >= 0) & (v <= beta), "the value lies in [0, beta]"); CHECK(n != M || v == beta, "the highest point is beta"); CHECK(n != 0 || v == 0, "the lowest point is 0"); CHECK(n == 0 || v > 0, "only the lowest point is 0"); }
// decay to double in mixed arithmetic
ENTRY(h_mixed) { // irsym: --bv2real
  u64 n = S("n"); double y = s_real("y", 0.1, 50), b = s_real("beta", 0.1, 50); auto t = P(n >> 1 | 1ull << 62, b), w = P(3ull << 61, 8); double x = double(t), z = double(w); CLOSE(t + y, x + y, "mixed arithmetic uses the value"); CLOSE(y + t, x + y, "mixed arithmetic uses the value"); CLOSE(t - y, x - y, "mixed arithmetic uses the value"); CLOSE(y - t, y - x, "mixed arithmetic uses the value"); CLOSE(t * y, x * y, "mixed arithmetic uses the value"); CLOSE(y * t, x * y, "mixed arithmetic uses the value"); CLOSE((t / y) * y, x, "mixed arithmetic uses the value"); CLOSE((w / y) * y, z, "mixed arithmetic uses the value"); CLOSE((y / w) * z, y, "mixed arithmetic uses the value"); CLOSE(t * w, x * z, "products of points are products of their values"); CLOSE((t / w) * z, x, "quotients of points are quotients of their values"); }
// ---------------------------------------------------------------- random points
struct rng_t { u64 asked[2]; int n = 0; u64 r; u64 operator()(u64 N) { asked[n++ & 1] = N; r = S("draw"); ASSUME(r < N); return r; } };
ENTRY(h_random) { // irsym: --bv2real
  u64 a = S("a"), b = S("b"); time_segment g(10); rng_t r;
  switch (s_pick("kind", 0, 2)) {
    case 0: { auto p = g.get_random_pt(r); CHECK(r.n == 1 && r.asked[0] == M, "one draw over the whole segment"); CHECK(N(p) < M, "in [0, beta["); CHECK(N(p) == r.r, "every point of the segment once"); break; }
    case 1: { ASSUME(a > 0); auto p = g.get_random_pt(r, P(a, 10)); CHECK(r.n == 1 && r.asked[0] == a, "one draw over the interval"); CHECK(N(p) < a, "in [0, tp["); CHECK(N(p) == r.r, "every point of the interval once"); break; }
    case 2: { ASSUME(a < b); auto p = g.get_random_pt(r, P(a, 10), P(b, 10)); CHECK(r.n == 1 && r.asked[0] == b - a, "one draw over the interval"); CHECK(N(p) >= a && N(p) < b, "in [tp1, tp2["); CHECK(N(p) - a == r.r, "every point of the interval once"); break; } }
  time_segment q(2); auto s = q.get_random_pt(r); CHECK(double(s) <= 2, "points belong to the segment"); }
// ---------------------------------------------------------------- from a double
ENTRY(h_make_fp) { // irsym: --fp
  double beta = betas[s_pick("beta", 0, NB)]; double x = s_real("x", 0, beta); auto p = time_segment(beta).make_time_pt(x); CHECK(x < beta || N(p) == M, "beta is the highest point"); CHECK(x != beta || N(p) == M, "beta is the highest point"); CHECK(x != 0 || N(p) == 0, "0 is the lowest point"); }
ENTRY(h_make_edge) { double beta = betas[s_pick("beta", 0, 5)]; int k = s_pick("x", 0, 6); static const double fr[] = {0, 0.25, 0.5, 0.75, 1 - 1.0 / (1ull << 53), 1, 1.0 / (1ull << 60)}; double x = beta * fr[k]; auto p = time_segment(beta).make_time_pt(x); CLOSETOL(double(p), x, 1e-9, "the grid point nearest below"); if (k == 5) CHECK(N(p) == M, "beta is the highest point"); if (k == 0) CHECK(N(p) == 0, "0 is the lowest point"); auto q = time_segment(beta).make_time_pt(beta * 0.3); CHECK((q < p) == (fr[k] > 0.3), "order is kept"); }
ENTRY(h_h5) { // irsym: --bv2real
  u64 n = S("n"); h5::file f("x.h5", 'w'); h5::group gr(f); auto p = P(n, 10); h5_write(gr, "p", p); time_pt q; h5_read(gr, "p", q); CHECK(N(q) == n && q == p, "the position is stored exactly"); CHECK(double(q) == double(p), "the value is stored"); CHECK(double(q + P(0, 10)) == double(p + P(0, 10)), "beta is stored"); }
