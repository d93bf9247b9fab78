// Minimal model of the itertools dependency (absent from this sandbox): same names and semantics, plain code.
#pragma once
#include <tuple>
#include <optional>
#include <concepts>
#include <vector>
#include <array>
#include <utility>
#include <iterator>
#include <type_traits>
#include <cstddef>
#include <string>
#include <variant>
namespace itertools {
  class range { long a_, b_, s_; public:
    using value_type = long; using const_iterator_t = long;
    constexpr range() : a_(0), b_(0), s_(1) {}
    template <typename I, typename = std::enable_if_t<std::is_integral_v<I> || std::is_enum_v<I>>> explicit(false) constexpr range(I n) : a_(0), b_((long)n), s_(1) {}
    constexpr range(long a, long b, long s = 1) : a_(a), b_(b), s_(s) {}
    constexpr long first() const { return a_; } constexpr long last() const { return b_; } constexpr long step() const { return s_; }
    constexpr long size() const { long n = (b_ - a_ + s_ - (s_ > 0 ? 1 : -1)) / s_; return n < 0 ? 0 : n; }
    range operator+(long sh) const { return {a_ + sh, b_ + sh, s_}; }
    bool operator==(range const &) const = default;
    struct iterator { using value_type = long; using difference_type = std::ptrdiff_t; using pointer = const long *; using reference = long; using iterator_category = std::random_access_iterator_tag; long p = 0, b = 0, s = 1; bool atEnd() const { return s > 0 ? p >= b : p <= b; } long operator*() const { return p; } iterator &operator++() { p += s; return *this; } iterator operator++(int) { auto c = *this; p += s; return c; } iterator &operator--() { p -= s; return *this; } iterator &operator+=(long n) { p += n * s; return *this; } iterator operator+(long n) const { auto c = *this; c.p += n * s; return c; } std::ptrdiff_t operator-(iterator const &o) const { return (p - o.p) / s; } bool operator==(iterator const &o) const { if (atEnd() && o.atEnd()) return true; return p == o.p; } bool operator!=(iterator const &o) const { return !(*this == o); } long operator[](long n) const { return p + n * s; } };
    using const_iterator = iterator;
    iterator begin() const { return {a_, b_, s_}; } iterator end() const { return {a_ + size() * s_, b_, s_}; } iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
  };
  template <typename It> struct sentinel_t { It it; };
  template <typename It> sentinel_t<It> make_sentinel(It it) { return {it}; }
  template <typename Iter, typename Value, typename Tag = std::forward_iterator_tag, typename Ref = Value const &, typename Diff = std::ptrdiff_t> struct iterator_facade;
  template <typename Iter, typename Value, typename Ref, typename Diff> struct iterator_facade<Iter, Value, std::forward_iterator_tag, Ref, Diff> {
    using value_type = Value; using reference = Ref; using pointer = Value *; using difference_type = Diff; using iterator_category = std::forward_iterator_tag;
    Iter &self() { return static_cast<Iter &>(*this); } Iter const &self() const { return static_cast<Iter const &>(*this); }
    Iter &operator++() { self().increment(); return self(); } Iter operator++(int) { Iter c = self(); self().increment(); return c; }
    template <typename U> bool operator==(U const &o) const { return self().equal(o); } template <typename U> bool operator!=(U const &o) const { return !self().equal(o); }
    decltype(auto) operator*() const { return self().dereference(); } decltype(auto) operator->() const { return self().dereference(); } };
  namespace detail {
    template <typename R> using it_t = decltype(std::begin(std::declval<R &>()));
    template <typename R> using sn_t = decltype(std::end(std::declval<R &>()));
    template <typename It, typename S> struct enum_it { using S_ = It; It it; long i = 0; using value_type = std::tuple<long, decltype(*std::declval<It>())>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
      value_type operator*() const { return {i, *it}; } enum_it &operator++() { ++it; ++i; return *this; } enum_it operator++(int) { auto c = *this; ++*this; return c; } enum_it &operator--() { --it; --i; return *this; }
      bool operator==(enum_it const &o) const { return it == o.it; } bool operator!=(enum_it const &o) const { return !(it == o.it); }
      bool operator==(S_ const &o) const { return it == o; } template <typename X> requires(!std::is_same_v<X, enum_it>) bool operator==(sentinel_t<X> const &o) const { return it == o.it; } template <typename X> requires(!std::is_same_v<X, enum_it>) bool operator!=(sentinel_t<X> const &o) const { return !(it == o.it); } };
    template <typename F> struct fbox { std::optional<F> f; fbox() = default; fbox(F const &x) : f(x) {} fbox(fbox const &) = default; fbox &operator=(fbox const &o) { if (this != &o) { f.reset(); if (o.f) f.emplace(*o.f); } return *this; } };
    template <typename It, typename F> struct tr_it { It it; fbox<F> f; using value_type = std::decay_t<decltype(std::declval<F const &>()(*std::declval<It>()))>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
      decltype(auto) operator*() const { return (*f.f)(*it); } tr_it &operator++() { ++it; return *this; } tr_it operator++(int) { auto c = *this; ++it; return c; } bool operator==(tr_it const &o) const { return it == o.it; } bool operator!=(tr_it const &o) const { return !(it == o.it); } std::ptrdiff_t operator-(tr_it const &o) const { return it - o.it; }
      template <typename S> bool operator==(sentinel_t<S> const &o) const { return it == o.it; } template <typename S> bool operator!=(sentinel_t<S> const &o) const { return !(it == o.it); }
      template <typename S> requires(requires(It i, S s) { requires !std::is_same_v<It, S>; { i != s } -> std::convertible_to<bool>; }) bool operator!=(S const &o) const { return it != o; }
      template <typename S> requires(requires(It i, S s) { requires !std::is_same_v<It, S>; { i == s } -> std::convertible_to<bool>; } && !std::is_same_v<S, sentinel_t<It>>) bool operator==(S const &o) const { return it == o; } };
  }
  template <typename R> struct enumerated { R r; using iterator = detail::enum_it<detail::it_t<std::remove_reference_t<R>>, int>; using const_iterator = detail::enum_it<detail::it_t<std::remove_reference_t<R> const>, int>;
    auto begin() { return iterator{std::begin(r), 0}; } auto end() { return sentinel_t<detail::sn_t<std::remove_reference_t<R>>>{std::end(r)}; }
    auto begin() const { return const_iterator{std::begin(std::as_const(r)), 0}; } auto end() const { return sentinel_t<detail::sn_t<std::remove_reference_t<R> const>>{std::end(std::as_const(r))}; } auto cbegin() const { return begin(); } auto cend() const { return end(); } };
  template <typename R> enumerated<R> enumerate(R &&r) { return {std::forward<R>(r)}; }
  template <typename R, typename F> struct transformed { R r; F f; using const_iterator = detail::tr_it<detail::it_t<std::remove_reference_t<R> const>, F>;
    auto begin() const { return const_iterator{std::begin(std::as_const(r)), f}; } auto end() const { using S = detail::sn_t<std::remove_reference_t<R> const>; if constexpr (std::is_same_v<S, detail::it_t<std::remove_reference_t<R> const>>) return const_iterator{std::end(std::as_const(r)), f}; else return std::end(std::as_const(r)); } auto cbegin() const { return begin(); } auto cend() const { return end(); } long size() const { return std::size(r); } };
  template <typename R, typename F> transformed<R, F> transform(R &&r, F f) { return {std::forward<R>(r), std::move(f)}; }
  template <typename... R> struct zipped { std::tuple<R...> r; struct sent {};
    template <typename T> struct iter { T its; std::tuple<std::remove_reference_t<R> *...> rs; using difference_type = std::ptrdiff_t;
      auto operator*() const { return std::apply([](auto &...i) { return std::tuple<decltype(*i)...>(*i...); }, its); } iter &operator++() { std::apply([](auto &...i) { (++i, ...); }, its); return *this; }
      template <size_t... I> bool done(std::index_sequence<I...>) const { return ((std::get<I>(its) == std::end(*std::get<I>(rs))) || ...); } bool operator!=(sent) const { return !done(std::index_sequence_for<R...>{}); } bool operator==(sent) const { return done(std::index_sequence_for<R...>{}); } };
    auto begin() { return std::apply([](auto &...x) { using T = std::tuple<decltype(std::begin(x))...>; return iter<T>{T{std::begin(x)...}, {&x...}}; }, r); } sent end() { return {}; } };
  template <typename... R> zipped<R...> zip(R &&...r) { return {std::tuple<R...>{std::forward<R>(r)...}}; }
  // cartesian products: last index runs fastest
  template <typename... R> struct producted { std::tuple<R...> r; struct sent {}; static constexpr size_t N = sizeof...(R);
    template <typename T, typename P> struct iter { T its; P rs; bool end_ = false; using difference_type = std::ptrdiff_t;
      auto operator*() const { return std::apply([](auto &...i) { return std::tuple<std::decay_t<decltype(*i)>...>(*i...); }, its); }
      template <size_t K> void inc() { auto &i = std::get<K>(its); ++i; if (!(i != std::end(*std::get<K>(rs)))) { if constexpr (K == 0) end_ = true; else { i = std::begin(*std::get<K>(rs)); inc<K - 1>(); } } }
      iter &operator++() { inc<N - 1>(); return *this; } bool operator!=(sent) const { return !end_; } bool operator==(sent) const { return end_; } };
    template <typename Self> static auto mk(Self &self) { return std::apply([](auto &...x) { using T = std::tuple<decltype(std::begin(x))...>; using P = std::tuple<decltype(&x)...>; iter<T, P> i{T{std::begin(x)...}, P{&x...}}; i.end_ = (!(std::begin(x) != std::end(x)) || ...); return i; }, self.r); }
    auto begin() { return mk(*this); } auto begin() const { return mk(*this); } sent end() const { return {}; } };
  template <typename... R> producted<R...> product(R &&...r) { return {std::tuple<R...>{std::forward<R>(r)...}}; }
  template <typename... I> requires(std::is_integral_v<std::decay_t<I>> && ...) auto product_range(I... n) { return producted<std::conditional_t<true, range, I>...>{std::tuple<std::conditional_t<true, range, I>...>{range((long)n)...}}; }
  template <typename... I> requires(std::is_same_v<std::decay_t<I>, range> && ...) auto product_range(I... n) { return producted<std::conditional_t<true, range, I>...>{std::tuple<std::conditional_t<true, range, I>...>{n...}}; }
  template <typename T, size_t N, size_t... Is> auto product_range_a(std::array<T, N> const &a, std::index_sequence<Is...>) { return product_range(a[Is]...); }
  template <typename T, size_t N> auto product_range(std::array<T, N> const &a) { return product_range_a(a, std::make_index_sequence<N>{}); }
  template <typename R> struct sliced { R r; long a, b, s; auto begin() { auto i = std::begin(r); std::advance(i, a); return i; } auto end() { auto i = std::begin(r); std::advance(i, b); return i; } };
  template <typename R> auto slice(R &&r, long a, long b, long s = 1) { long n = std::distance(std::begin(r), std::end(r)); return sliced<R>{std::forward<R>(r), std::min(a, n), std::min(b, n), s}; }
  template <typename R> auto make_vector_from_range(R &&r) { using T = std::decay_t<decltype(*std::begin(r))>; std::vector<T> v; for (auto &&x : r) v.push_back(x); return v; }
  // mpi-free helper of itertools
  inline std::pair<std::ptrdiff_t, std::ptrdiff_t> chunk_range(std::ptrdiff_t start, std::ptrdiff_t end, long n_chunks, long rank) { auto total = end - start; auto cs = total / n_chunks; auto rest = total - n_chunks * cs; auto s = start + rank * cs + (rank < rest ? rank : rest); auto e = s + cs + (rank < rest ? 1 : 0); return {s, e}; }
}
template <typename It, typename S> bool operator==(It const &i, itertools::sentinel_t<S> const &s) requires(std::is_same_v<It, S>) { return i == s.it; }
