// C18: tuple serialisation and tuple algorithms.
#include <triqs/utility/tuple_serialize.hpp>
#include <triqs/utility/tuple_tools.hpp>
#include <memory>
#include "sym.h"
namespace tt = triqs::tuple;
static long L(const char *n) { return (long)__sym_int(n, 64); }
// elements of different types that carry a symbolic value and count copies/moves
struct tag { long v; explicit tag(long v = 0) : v(v) {} bool operator==(tag const &o) const { return v == o.v; } };
static long val(long x) { return x; } static long val(int x) { return x; } static long val(tag const &x) { return x.v; } static long val(bool x) { return x; } static long val(std::unique_ptr<long> const &p) { return *p; }
struct log_ { long v[24]; int n = 0; template <typename T> void add(T const &x) { if (n < 24) v[n] = val(x); n++; } };
// ---------------------------------------------------------------- serialisation
struct writer { log_ l; template <typename T> writer &operator&(T const &x) { l.add(x); return *this; } template <typename T> writer &operator<<(T const &x) { return *this & x; } };
struct reader { long const *p; int n = 0; template <typename T> reader &operator&(T &x) { x = T(p[n++]); return *this; } template <typename T> reader &operator>>(T &x) { return *this & x; } };
template <typename Tu, size_t... I> void store(Tu t, std::index_sequence<I...>) { constexpr int N = sizeof...(I); writer w; boost::serialization::serialize(w, t, 0); CHECK(w.l.n == N, "every element is stored once"); long ref[N] = {val(std::get<I>(t))...}; for (int i = 0; i < N; i++) CHECK(w.l.v[i] == ref[i], "the elements are stored in order");
  Tu u; reader r{w.l.v}; boost::serialization::serialize(r, u, 0); CHECK(r.n == N, "every element is read once"); CHECK(((val(std::get<I>(u)) == ref[I]) & ...), "storing and reading reproduces the tuple"); }
template <typename... T> void store(T... x) { store(std::tuple<T...>(x...), std::index_sequence_for<T...>()); }
ENTRY(h_serialize) { long a = L("x"), b = L("x"), c = L("x"), d = L("x"), e = L("x"), f = L("x"); store(a); store(a, b); store(tag(a), (int)b); store(a, tag(b), c); store((int)a, b, tag(c), d); store(a, b, c, d, e); store(tag(a), tag(b), (int)c, d, e, tag(f)); }
// ---------------------------------------------------------------- algorithms
#define T3 long a0 = L("a"), a1 = L("a"), a2 = L("a"); auto t = std::make_tuple(a0, tag(a1), a2); auto const &ct = t
#define T4 long a0 = L("a"), a1 = L("a"), a2 = L("a"), a3 = L("a"); auto t = std::make_tuple(a0, tag(a1), a2, tag(a3)); auto const &ct = t
#define U4 long b0 = L("b"), b1 = L("b"), b2 = L("b"), b3 = L("b"); auto u = std::make_tuple(tag(b0), b1, b2, b3)
static bool is(log_ const &l, std::initializer_list<long> w) { if (l.n != (int)w.size()) return false; bool r = true; int i = 0; for (long x : w) r = r & (l.v[i++] == x); return r; }
template <typename Tu> log_ content(Tu const &t) { log_ l; std::apply([&](auto const &...x) { (l.add(x), ...); }, t); return l; }
#define CONTENT(t, id, ...) CHECK(is(content(t), {__VA_ARGS__}), id)
ENTRY(h_for_each) { T4; log_ l; tt::for_each(t, [&](auto &x) { l.add(x); }); CHECK(is(l, {a0, a1, a2, a3}), "for_each visits every element once in order"); log_ m; tt::for_each(ct, [&](auto const &x) { m.add(x); }); CHECK(is(m, {a0, a1, a2, a3}), "for_each visits every element once in order"); tt::for_each(t, [](auto &x) { x = std::decay_t<decltype(x)>(val(x) + 1); }); CONTENT(t, "for_each can modify the elements", a0 + 1, a1 + 1, a2 + 1, a3 + 1); log_ e; tt::for_each(std::tuple<>(), [&](auto &x) { e.n++; }); CHECK(e.n == 0, "nothing to visit in an empty tuple");
  // a stateful callable keeps its state
  struct count { log_ *l; long n = 0; void operator()(long x) { l->add(x + n++); } void operator()(tag const &x) { (*this)(x.v); } }; log_ s; tt::for_each(t, count{&s}); CHECK(is(s, {a0 + 1, a1 + 2, a2 + 3, a3 + 4}), "one callable serves all elements"); }
ENTRY(h_enumerate) { T4; log_ l; tt::for_each_enumerate(t, [&](int i, auto &x) { l.add(i); l.add(x); x = std::decay_t<decltype(x)>(val(x) * 2); }); CHECK(is(l, {0, a0, 1, a1, 2, a2, 3, a3}), "elements are numbered from 0 in order"); CONTENT(t, "for_each_enumerate can modify the elements", 2 * a0, 2 * a1, 2 * a2, 2 * a3); log_ m; tt::for_each_enumerate(ct, [&](int i, auto const &x) { m.add(i); m.add(x); }); CHECK(is(m, {0, 2 * a0, 1, 2 * a1, 2, 2 * a2, 3, 2 * a3}), "elements are numbered from 0 in order"); }
ENTRY(h_zip) { T4; U4; log_ l; tt::for_each_zip([&](auto &x, auto &y) { l.add(x); l.add(y); }, t, u); CHECK(is(l, {a0, b0, a1, b1, a2, b2, a3, b3}), "zip pairs elements of equal position, in order"); log_ m; tt::for_each_zip([&](auto const &x, auto const &y, auto const &z) { m.add(x); m.add(z); m.add(y); }, t, u, ct); CHECK(is(m, {a0, a0, b0, a1, a1, b1, a2, a2, b2, a3, a3, b3}), "zip pairs elements of equal position, in order");
  auto r = tt::map_on_zip([](auto const &x, auto const &y) { return 3 * val(x) - val(y); }, t, u); CONTENT(r, "map_on_zip maps elements of equal position", 3 * a0 - b0, 3 * a1 - b1, 3 * a2 - b2, 3 * a3 - b3);
  tt::for_each_zip([](auto &x, auto const &y) { x = std::decay_t<decltype(x)>(val(y)); }, t, u); CONTENT(t, "zip gives access to the elements", b0, b1, b2, b3); }
ENTRY(h_map) { T4; int calls = 0; auto r = tt::map([&](auto const &x) { calls++; return tag(5 * val(x)); }, t); CONTENT(r, "map applies the function to each element", 5 * a0, 5 * a1, 5 * a2, 5 * a3); CHECK(calls == 4, "once per element"); CONTENT(t, "the argument is unchanged", a0, a1, a2, a3); auto q = tt::map([](auto const &x) { return val(x) + 1; }, std::make_tuple(a3, a1)); CONTENT(q, "map applies the function to each element", a3 + 1, a1 + 1); }
ENTRY(h_fold) { T4; U4; long r0 = L("r"); auto f = [](auto const &x, long r) { return 3 * r + val(x); }; long w = 3 * (3 * (3 * (3 * r0 + a0) + a1) + a2) + a3; CHECK(tt::fold(f, t, r0) == w, "fold applies the function from the first element on"); CHECK(tt::fold(f, ct, long(r0)) == w, "fold applies the function from the first element on"); CHECK(tt::fold(f, std::make_tuple(a1), r0) == 3 * r0 + a1, "fold of one element"); CHECK(tt::fold(f, std::tuple<>(), r0) == r0, "fold of nothing returns the initial value"); CHECK(tt::fold(f, reverse(t), r0) == 3 * (3 * (3 * (3 * r0 + a3) + a2) + a1) + a0, "fold of the reversed tuple");
  auto g = [](auto const &x, auto const &y, long r) { return 5 * r + 3 * val(x) + val(y); }; CHECK(tt::fold(g, t, u, r0) == 5 * (5 * (5 * (5 * r0 + 3 * a0 + b0) + 3 * a1 + b1) + 3 * a2 + b2) + 3 * a3 + b3, "fold over two tuples"); log_ l; (void)tt::fold([&](auto const &x, long r) { l.add(x); l.add(r); return r + 1; }, t, 0l); CHECK(is(l, {a0, 0, a1, 1, a2, 2, a3, 3}), "one call per element, in order"); }
ENTRY(h_select) { T4; CONTENT((tt::filter<0, 2, 3>(t)), "filter keeps the named elements", a0, a2, a3); CONTENT((tt::filter<1>(t)), "filter keeps the named elements", a1); CONTENT((tt::filter<2, 0>(t)), "filter keeps the named elements", a2, a0); CONTENT((tt::filter(t, std::index_sequence<1, 3>())), "filter keeps the named elements", a1, a3); CONTENT((tt::filter_out<0, 2>(t)), "filter_out drops the named elements", a1, a3); CONTENT((tt::filter_out<3>(t)), "filter_out drops the named elements", a0, a1, a2); CONTENT((tt::filter_out<1, 2>(ct)), "filter_out drops the named elements", a0, a3); CONTENT((tt::filter_out<2, 1>(t)), "filter_out drops the named elements", a0, a3); CONTENT((tt::filter_out<0, 1, 2, 3>(t)), "filter_out drops the named elements"); CONTENT(tt::pop_front(t), "pop_front drops the first element", a1, a2, a3); CONTENT(tt::pop_front(std::make_tuple(a0, a1)), "pop_front drops the first element", a1);
  static_assert(std::is_same_v<tt::filter_out_t<decltype(t), 0, 2>, std::tuple<tag, tag>>); }
ENTRY(h_replace) { T4; long r = L("r"); CONTENT((tt::replace<0, 2>(t, r)), "replace puts the value at the named positions", r, a1, r, a3); CONTENT((tt::replace<3>(t, r)), "replace puts the value at the named positions", a0, a1, a2, r); CONTENT((tt::replace<1, 2, 0, 3>(t, tag(r))), "replace puts the value at the named positions", r, r, r, r); CONTENT(t, "the argument is unchanged", a0, a1, a2, a3); }
ENTRY(h_push) { T3; long x = L("x"); CONTENT(tt::push_back(t, x), "push_back appends", a0, a1, a2, x); CONTENT(tt::push_front(t, tag(x)), "push_front prepends", x, a0, a1, a2); CONTENT(tt::push_back(std::tuple<>(), x), "push_back appends", x); CONTENT(tt::push_front(ct, x), "push_front prepends", x, a0, a1, a2); CONTENT(tt::pop_front(tt::push_front(t, x)), "pop_front undoes push_front", a0, a1, a2);
  auto m = tt::push_back(std::make_tuple(std::make_unique<long>(a0)), std::make_unique<long>(x)); CONTENT(m, "elements are moved", a0, x); CONTENT(tt::make_tuple_repeat<4>(x), "make_tuple_repeat repeats", x, x, x, x); CONTENT(tt::make_tuple_repeat<1>(tag(x)), "make_tuple_repeat repeats", x); CHECK(std::tuple_size_v<decltype(tt::make_tuple_repeat<0>(x))> == 0, "make_tuple_repeat repeats"); }
struct agg { long a; tag b; long c; }; struct cls { long v; cls(long a, tag b, long c) : v(a + 10 * b.v + 100 * c) {} };
ENTRY(h_apply) { T3; auto f = [](long a, tag b, long c) { return a + 10 * b.v + 100 * c; }; CHECK(tt::apply(f, t) == a0 + 10 * a1 + 100 * a2, "apply passes the elements in order"); CHECK(tt::apply(f, std::make_tuple(a2, tag(a1), a0)) == a2 + 10 * a1 + 100 * a0, "apply passes the elements in order"); CHECK(tt::apply([&](long a, tag b, long c) { return f(a, b, c); }, reverse(t)) == a2 + 10 * a1 + 100 * a0, "reverse passes the elements backwards"); tt::apply([](long &a, tag &, long &c) { std::swap(a, c); }, t); CONTENT(t, "apply gives access to the elements", a2, a1, a0);
  auto A = tt::apply_construct<agg>(t); CHECK((A.a == a2) & (A.b.v == a1) & (A.c == a0), "apply_construct builds from the elements"); CHECK(tt::apply_construct_parenthesis<cls>(t).v == a2 + 10 * a1 + 100 * a0, "apply_construct_parenthesis builds from the elements"); auto g = tt::called_on_tuple(f); CHECK(g(t) == a2 + 10 * a1 + 100 * a0, "called_on_tuple unpacks its argument"); CHECK(g(std::make_tuple(a0, tag(a2), a1)) == a0 + 10 * a2 + 100 * a1, "called_on_tuple unpacks its argument"); CHECK(tt::apply([] { return 7; }, std::tuple<>()) == 7, "apply of an empty tuple");
  long s = tt::apply([](std::unique_ptr<long> p, long b) { return *p + b; }, std::make_tuple(std::make_unique<long>(a0), a1)); CHECK(s == a0 + a1, "elements of a temporary are moved"); }
ENTRY(h_reverse) { T4; auto r = reverse(t); log_ l; tt::for_each(r, [&](auto const &x) { l.add(x); }); CHECK(is(l, {a3, a2, a1, a0}), "reverse visits the elements backwards"); CHECK(std::tuple_size<decltype(r)>::value == 4, "same size"); CHECK((std::get<0>(r).v == a3) & (std::get<3>(r) == a0) & (std::get<1>(r) == a2), "element by element"); auto q = reverse(std::make_tuple(a1, a2)); CHECK((std::get<0>(q) == a2) & (std::get<1>(q) == a1), "reverse of a temporary keeps the values"); auto const &cr = reverse(ct); CHECK((std::get<0>(cr).v == a3) & (std::get<2>(cr).v == a1), "element by element"); std::get<1>(r) = a0 + 1; CHECK(std::get<2>(t) == a0 + 1, "reverse of a variable refers to it"); }
