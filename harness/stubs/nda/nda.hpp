// Minimal model of the nda dependency (absent from this sandbox): row-major strided arrays, eager arithmetic,
// exact small linear algebra (determinant and inverse by cofactor expansion / adjugate).
#pragma once
#include <array>
#include <optional>
#include <vector>
#include <complex>
#include <initializer_list>
#include <type_traits>
#include <concepts>
#include <cmath>
#include <algorithm>
#include <iostream>
#include <cstdlib>
#include <cassert>
#include <numeric>
#include <tuple>
#include <ranges>
#include <variant>
#include <functional>
#include <memory>
#include <itertools/itertools.hpp>
#include "macros.hpp"
#include "stdutil/complex.hpp"
namespace nda {
  using dcomplex = std::complex<double>;
  struct ellipsis {};
  struct range : itertools::range { using itertools::range::range; struct all_t {}; static inline constexpr all_t all{}; range(itertools::range const &r) : itertools::range(r) {} range operator+(long sh) const { return range(first() + sh, last() + sh, step()); } };
  struct mem_layout_C {}; struct C_layout { using with_lowest_guarantee_t = C_layout; using contiguous_t = C_layout; }; struct F_layout {}; using C_stride_layout = C_layout; struct basic_layout {}; template <typename X = void> struct heap {}; 
  template <typename T> struct is_complex : std::false_type {}; template <typename T> struct is_complex<std::complex<T>> : std::true_type {};
  template <typename T> inline constexpr bool is_complex_v = is_complex<std::remove_cvref_t<T>>::value;
  template <typename T> inline constexpr bool is_scalar_v = std::is_arithmetic_v<std::remove_cvref_t<T>> || is_complex_v<T>;
  template <typename T> inline constexpr bool is_scalar_or_convertible_v = is_scalar_v<T> || std::is_constructible_v<std::complex<double>, T>;
  template <typename T> concept Scalar = is_scalar_v<T>;
  template <typename A> concept ArrayC = requires { std::remove_cvref_t<A>::nda_rank; typename std::remove_cvref_t<A>::value_type; };
  template <typename A> concept Array = ArrayC<A>; template <typename A> concept MemoryArray = ArrayC<A>;
  template <typename A, int R> concept ArrayOfRank = ArrayC<A> && (std::remove_cvref_t<A>::nda_rank == R);
  template <typename A, int R> concept MemoryArrayOfRank = ArrayOfRank<A, R>;
  template <typename A> inline constexpr int get_rank = std::remove_cvref_t<A>::nda_rank;
  template <typename A> inline constexpr char get_algebra = std::remove_cvref_t<A>::nda_alg;
  template <typename A> struct value_of { using type = std::remove_cvref_t<A>; }; template <ArrayC A> struct value_of<A> { using type = std::remove_const_t<typename std::remove_cvref_t<A>::value_type>; };
  template <typename A> using get_value_t = typename value_of<A>::type;
  template <typename T, int R, typename L = C_layout, char A = 'A', typename C = heap<>> class basic_array; template <typename T, int R, typename L = C_layout, char A = 'A'> class basic_array_view;
  template <typename T, int R, char A> using ba_ = basic_array<T, R, C_layout, A, heap<>>; template <typename T, int R, char A> using bav_ = basic_array_view<T, R, C_layout, A>;
  template <typename T, int R> using array = ba_<T, R, 'A'>; template <typename T> using matrix = ba_<T, 2, 'M'>; template <typename T> using vector = ba_<T, 1, 'V'>;
  template <typename T, int R, typename... X> using array_view = bav_<T, R, 'A'>; template <typename T, typename... X> using matrix_view = bav_<T, 2, 'M'>; template <typename T, typename... X> using vector_view = bav_<T, 1, 'V'>;
  template <typename T, int R, typename... X> using array_const_view = bav_<T const, R, 'A'>; template <typename T, typename... X> using matrix_const_view = bav_<T const, 2, 'M'>; template <typename T, typename... X> using vector_const_view = bav_<T const, 1, 'V'>;
  template <typename T, typename U> struct common { using type = std::decay_t<decltype(std::declval<T>() * std::declval<U>())>; };
  template <typename T> struct common<T, T> { using type = T; };
  template <> struct common<double, std::complex<double>> { using type = std::complex<double>; }; template <> struct common<std::complex<double>, double> { using type = std::complex<double>; };
  template <typename I> requires std::is_integral_v<I> struct common<I, std::complex<double>> { using type = std::complex<double>; }; template <typename I> requires std::is_integral_v<I> struct common<std::complex<double>, I> { using type = std::complex<double>; };
  template <typename T, typename U> using common_t = typename common<std::remove_cvref_t<T>, std::remove_cvref_t<U>>::type;
  template <typename T> T cast_(auto const &x) { if constexpr (is_complex_v<T> && std::is_arithmetic_v<std::remove_cvref_t<decltype(x)>>) return T(double(x)); else if constexpr (is_scalar_v<T>) return static_cast<T>(x); else return T(x); }
  namespace d_ {
    template <typename A> constexpr bool isint = std::is_convertible_v<A, long> && !std::is_same_v<std::remove_cvref_t<A>, range>;
    template <typename A> constexpr bool isell = std::is_same_v<std::remove_cvref_t<A>, ellipsis>;
    template <int R> void unflat(long n, std::array<long, R> const &sh, std::array<long, R> &i) { for (int k = R - 1; k >= 0; --k) { i[k] = n % sh[k]; n /= sh[k]; } }
    template <int R> std::array<long, R> cstr(std::array<long, R> const &sh) { std::array<long, R> s; long p = 1; for (int k = R - 1; k >= 0; --k) { s[k] = p; p *= sh[k]; } return s; }
    template <typename... A> constexpr int nsub = ((isint<A> ? 0 : isell<A> ? 0 : 1) + ... + 0);
  }
  template <typename T, typename D, int R, char AL> struct base_ {
    static constexpr int nda_rank = R; static constexpr int rank = R; static constexpr char nda_alg = AL;
    D &self() { return static_cast<D &>(*this); } D const &self() const { return static_cast<D const &>(*this); }
    std::array<long, R> const &shape() const { return self().sh_; } long shape(int i) const { return self().sh_[i]; } long extent(int i) const { return self().sh_[i]; } long size() const { long p = 1; for (auto x : self().sh_) p *= x; return p; } bool empty() const { return size() == 0; } bool is_empty() const { return size() == 0; }
    std::array<long, R> const &strides() const { return self().st_; } struct im_ { base_ const *b; auto const &lengths() const { return b->shape(); } auto const &strides() const { return b->self().st_; } long size() const { return b->size(); } }; im_ indexmap() const { return {this}; }
    long off_flat(long n) const { std::array<long, R> i; d_::unflat<R>(n, self().sh_, i); long o = 0; for (int k = 0; k < R; ++k) o += i[k] * self().st_[k]; return o; }
    auto &flat(long n) { return self().ptr()[off_flat(n)]; } auto const &flat(long n) const { return self().ptr()[off_flat(n)]; }
    template <typename P> struct it_ { using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t; using pointer = P *; using reference = P &; using iterator_category = std::random_access_iterator_tag; P *p = nullptr; std::array<long, R> sh{}, st{}; long n = 0;
      P &operator*() const { std::array<long, R> i; d_::unflat<R>(n, sh, i); long o = 0; for (int k = 0; k < R; ++k) o += i[k] * st[k]; return p[o]; } P *operator->() const { return &**this; } it_ &operator++() { ++n; return *this; } it_ operator++(int) { auto c = *this; ++n; return c; } it_ &operator--() { --n; return *this; } it_ &operator+=(long k) { n += k; return *this; } it_ &operator-=(long k) { n -= k; return *this; } it_ operator+(long k) const { auto c = *this; c.n += k; return c; } it_ operator-(long k) const { auto c = *this; c.n -= k; return c; } std::ptrdiff_t operator-(it_ const &o) const { return n - o.n; } bool operator==(it_ const &o) const { return n == o.n; } bool operator!=(it_ const &o) const { return n != o.n; } bool operator<(it_ const &o) const { return n < o.n; } P &operator[](long k) const { return *(*this + k); } };
    using iterator = it_<T>; using const_iterator = it_<T const>;
    auto begin() { return it_<std::remove_reference_t<decltype(*self().ptr())>>{self().ptr(), self().sh_, self().st_, 0}; } auto end() { return it_<std::remove_reference_t<decltype(*self().ptr())>>{self().ptr(), self().sh_, self().st_, size()}; }
    auto begin() const { return it_<std::remove_reference_t<decltype(*self().ptr())>>{self().ptr(), self().sh_, self().st_, 0}; } auto end() const { return it_<std::remove_reference_t<decltype(*self().ptr())>>{self().ptr(), self().sh_, self().st_, size()}; } auto cbegin() const { return begin(); } auto cend() const { return end(); }
    auto *data() { return self().ptr(); } auto *data() const { return self().ptr(); }
    auto as_array_view() { return bav_<std::remove_pointer_t<decltype(self().ptr())>, R, 'A'>(self().ptr(), self().sh_, self().st_); } auto as_array_view() const { return bav_<std::remove_pointer_t<decltype(self().ptr())> const, R, 'A'>(self().ptr(), self().sh_, self().st_); }
    template <typename S, typename... A> static decltype(auto) call_(S &s, A const &...a) { return callx_<'0'>(s, a...); }
    template <char RA, bool NB, typename S, typename... A> static decltype(auto) call(S &&s, A const &...a) { using P = std::remove_reference_t<decltype(*s.ptr())>; using Q = std::conditional_t<std::is_const_v<std::remove_reference_t<S>>, P const, P>; if constexpr (std::is_same_v<decltype(callx_<RA>(s, a...)), P &>) { if constexpr (requires { s.cap_; } && !std::is_lvalue_reference_v<S>) return std::remove_const_t<P>(callx_<RA>(s, a...)); else return static_cast<Q &>(callx_<RA>(s, a...)); } else { auto r = callx_<RA>(s, a...); return bav_<Q, get_rank<decltype(r)>, get_algebra<decltype(r)>>(r.ptr(), r.sh_, r.st_); } }
    template <char RA, typename S, typename... A> static decltype(auto) callx_(S &s, A const &...a) {
      constexpr int nell = ((d_::isell<A> ? 1 : 0) + ... + 0); constexpr int nex = sizeof...(A) - nell;
      if constexpr (sizeof...(A) == 0) { using P = std::remove_reference_t<decltype(*s.ptr())>; return bav_<P, R, AL>(s.ptr(), s.sh_, s.st_); }
      else if constexpr (nell == 0 && (d_::isint<A> && ...)) { static_assert(sizeof...(A) == R); long i[R] = {static_cast<long>(a)...}; long o = 0; for (int k = 0; k < R; ++k) { if (!(i[k] >= 0 && i[k] < s.sh_[k])) { std::cerr << "nda index out of bounds\n"; std::abort(); } o += i[k] * s.st_[k]; } return (s.ptr()[o]); }
      else { constexpr int extra = nell ? R - nex : 0; constexpr int NR = d_::nsub<A...> + extra; static_assert(nell == 1 || sizeof...(A) == R); using P = std::remove_reference_t<decltype(*s.ptr())>; std::array<long, NR> sh{}, st{}; long o = 0; int k = 0, m = 0;
        auto one = [&](auto const &x) { using X = std::remove_cvref_t<decltype(x)>; if constexpr (d_::isell<X>) { for (int q = 0; q < extra; ++q, ++k, ++m) { sh[m] = s.sh_[k]; st[m] = s.st_[k]; } } else if constexpr (std::is_same_v<X, range::all_t>) { sh[m] = s.sh_[k]; st[m] = s.st_[k]; ++m; ++k; } else if constexpr (std::is_same_v<X, range> || std::is_same_v<X, itertools::range>) { if (x.size() > 0 && !(x.first() >= 0 && x.first() + (x.size() - 1) * x.step() < s.sh_[k])) { std::cerr << "nda range out of bounds\n"; std::abort(); } sh[m] = x.size(); st[m] = s.st_[k] * x.step(); o += x.first() * s.st_[k]; ++m; ++k; } else { long i = static_cast<long>(x); if (!(i >= 0 && i < s.sh_[k])) { std::cerr << "nda index out of bounds\n"; std::abort(); } o += i * s.st_[k]; ++k; } };
        (one(a), ...); if constexpr (NR == 0) return (s.ptr()[o]); else return bav_<P, NR, (RA != '0' ? (RA == 'M' && NR == 1 ? 'V' : RA) : NR == R ? AL : (NR == 1 && AL == 'M') ? 'V' : (AL=='M' || AL == 'V') ? 'V' : 'A')>(s.ptr() + o, sh, st); } }
    template <typename... A> decltype(auto) operator()(A const &...a) { return call_(self(), a...); } template <typename... A> decltype(auto) operator()(A const &...a) const { return call_(self(), a...); }
    template <typename A> decltype(auto) operator[](A const &a) { return call_(self(), a); } template <typename A> decltype(auto) operator[](A const &a) const { return call_(self(), a); }
    template <typename S> void assign_(S const &x) {
      if constexpr (ArrayC<S>) { static_assert(S::nda_rank == R); if (x.shape() != shape()) { std::cerr << "nda shape mismatch\n"; std::abort(); } long n = size(); std::vector<std::remove_const_t<T>> tmp; tmp.reserve(n); for (long i = 0; i < n; ++i) tmp.push_back(cast_<std::remove_const_t<T>>(x.flat(i))); for (long i = 0; i < n; ++i) flat(i) = std::move(tmp[i]); }
      else if constexpr (AL == 'M') { for (long i = 0; i < size(); ++i) flat(i) = cast_<T>(0); for (long i = 0; i < std::min(extent(0), extent(1)); ++i) self().ptr()[i * self().st_[0] + i * self().st_[R - 1]] = cast_<T>(x); }
      else for (long i = 0; i < size(); ++i) flat(i) = cast_<T>(x); }
#define NDA_CMP_(OP) template <typename S> D &operator OP(S const &x) { if constexpr (ArrayC<S>) { if (x.shape() != shape()) { std::cerr << "nda shape mismatch\n"; std::abort(); } std::vector<get_value_t<S>> t; for (long i = 0; i < size(); ++i) t.push_back(x.flat(i)); for (long i = 0; i < size(); ++i) flat(i) OP cast2_(t[i]); } else { for (long i = 0; i < size(); ++i) flat(i) OP cast2_(x); } return self(); }
    static auto cast2_(auto const &x) { using X = std::remove_cvref_t<decltype(x)>; if constexpr (is_complex_v<T> && std::is_integral_v<X>) return double(x); else return x; }
    template <typename S> D &operator+=(S const &x) { return acc_(x, [](auto &a, auto const &b) { a += b; }, AL == 'M'); }
    template <typename S> D &operator-=(S const &x) { return acc_(x, [](auto &a, auto const &b) { a -= b; }, AL == 'M'); }
    template <typename S> D &operator*=(S const &x) { return acc_(x, [](auto &a, auto const &b) { a *= b; }, false); }
    template <typename S> D &operator/=(S const &x) { return acc_(x, [](auto &a, auto const &b) { a /= b; }, false); }
    template <typename S, typename F> D &acc_(S const &x, F f, bool diag) { if constexpr (ArrayC<S>) { if (x.shape() != shape()) { std::cerr << "nda shape mismatch\n"; std::abort(); } std::vector<get_value_t<S>> t; for (long i = 0; i < size(); ++i) t.push_back(x.flat(i)); for (long i = 0; i < size(); ++i) f(flat(i), cast2_(t[i])); } else if (diag) { if constexpr (R == 2) for (long i = 0; i < std::min(extent(0), extent(1)); ++i) f(self().ptr()[i * self().st_[0] + i * self().st_[1]], cast2_(x)); } else for (long i = 0; i < size(); ++i) f(flat(i), cast2_(x)); return self(); }
    friend std::ostream &operator<<(std::ostream &o, base_ const &) { return o; }
  };
  template <typename T, int R, typename LAY, char AL, typename CON> class basic_array : public base_<T, ba_<T, R, AL>, R, AL> { public:
    using B = base_<T, basic_array, R, AL>; using value_type = T; using regular_type = basic_array; using view_type = bav_<T, R, AL>; using const_view_type = bav_<T const, R, AL>; using storage_t = std::vector<T>; using layout_policy_t = C_layout; struct layout_t { std::array<long, R> l; layout_t(std::array<long, R> const &x) : l(x) {} }; T *storage() { return ptr(); }
    std::array<long, R> sh_{}, st_{}; std::unique_ptr<T[]> d_; long cap_ = 0; T *ptr() { return d_.get(); } T const *ptr() const { return d_.get(); }
    basic_array() { st_ = d_::cstr<R>(sh_); }
    void alloc_() { st_ = d_::cstr<R>(sh_); long n = this->size(); cap_ = n; if constexpr (is_scalar_v<T>) d_.reset(new T[n]); else d_ = std::make_unique<T[]>(n); }
    explicit basic_array(std::array<long, R> const &s) : sh_(s) { alloc_(); }
    template <typename I> requires(std::is_integral_v<I> && !std::is_same_v<I, long>) explicit basic_array(std::array<I, R> const &s) { for (int i = 0; i < R; ++i) sh_[i] = s[i]; alloc_(); }
    template <typename... I> requires((sizeof...(I) == R) && (std::is_integral_v<I> && ...)) explicit basic_array(I... i) : sh_{(long)i...} { alloc_(); }
    basic_array(basic_array const &o) : sh_(o.sh_) { alloc_(); for (long i = 0; i < this->size(); ++i) d_[i] = o.d_[i]; }
    basic_array(basic_array &&o) noexcept : sh_(o.sh_), st_(o.st_), d_(std::move(o.d_)), cap_(o.cap_) { o.sh_.fill(0); o.cap_ = 0; }
    template <ArrayC S> requires(get_rank<S> == R && !std::is_same_v<std::remove_cvref_t<S>, basic_array>) basic_array(S const &o) : sh_(o.shape()) { alloc_(); this->assign_(o); }
    template <typename U> requires(R == 1 && (std::is_convertible_v<U, T> || is_scalar_v<U>)) basic_array(std::initializer_list<U> l) : sh_{(long)l.size()} { alloc_(); long i = 0; for (auto const &x : l) d_[i++] = cast_<T>(x); }
    basic_array(std::initializer_list<T> const &l) requires(R == 1) : sh_{(long)l.size()} { alloc_(); long i = 0; for (auto const &x : l) d_[i++] = x; }
    basic_array(std::initializer_list<std::initializer_list<T>> const &l) requires(R == 2) : sh_{(long)l.size(), l.size() ? (long)l.begin()->size() : 0} { alloc_(); long i = 0; for (auto const &r : l) for (auto const &x : r) d_[i++] = x; }
    template <typename U> requires(R == 1) basic_array(std::vector<U> const &v) : sh_{(long)v.size()} { alloc_(); for (long i = 0; i < (long)v.size(); ++i) d_[i] = cast_<T>(v[i]); }
    template <typename U, size_t N> requires(R == 1) basic_array(std::array<U, N> const &v) requires(!(std::is_same_v<U, long> && N == R)) : sh_{(long)N} { alloc_(); for (size_t i = 0; i < N; ++i) d_[i] = cast_<T>(v[i]); }
    basic_array &operator=(basic_array const &o) { if (this != &o) { sh_ = o.sh_; alloc_(); for (long i = 0; i < this->size(); ++i) d_[i] = o.d_[i]; } return *this; }
    basic_array &operator=(basic_array &&o) noexcept { if (this != &o) { sh_ = o.sh_; st_ = o.st_; d_ = std::move(o.d_); cap_ = o.cap_; o.sh_.fill(0); o.cap_ = 0; } return *this; }
    template <ArrayC S> requires(!std::is_same_v<std::remove_cvref_t<S>, basic_array>) basic_array &operator=(S const &o) { basic_array t(o); return *this = std::move(t); }
    template <typename S> requires(is_scalar_v<S> || (!ArrayC<S> && std::is_convertible_v<S, T>)) basic_array &operator=(S const &x) { this->assign_(x); return *this; }
    void resize(std::array<long, R> const &s) { if (s == sh_ && d_) return; sh_ = s; alloc_(); } template <typename... I> requires((sizeof...(I) == R) && (std::is_integral_v<I> && ...)) void resize(I... i) { resize(std::array<long, R>{(long)i...}); }
    static basic_array zeros(std::array<long, R> const &s) { basic_array r(s); for (long i = 0; i < r.size(); ++i) r.d_[i] = cast_<T>(0); return r; } static basic_array ones(std::array<long, R> const &s) { basic_array r(s); for (long i = 0; i < r.size(); ++i) r.d_[i] = cast_<T>(1); return r; }
    template <typename... I> requires((sizeof...(I) == R) && (std::is_integral_v<I> && ...)) static basic_array zeros(I... i) { return zeros(std::array<long, R>{(long)i...}); }
    view_type as_view() { return {ptr(), sh_, st_}; } static std::string hdf5_format() { return "array"; }
    friend void swap(basic_array &a, basic_array &b) noexcept { std::swap(a.sh_, b.sh_); std::swap(a.st_, b.st_); std::swap(a.d_, b.d_); std::swap(a.cap_, b.cap_); } };
  template <typename T, int R, typename LAY, char AL> class basic_array_view : public base_<T, bav_<T, R, AL>, R, AL> { public:
    using value_type = T; using regular_type = ba_<std::remove_const_t<T>, R, AL>; using view_type = basic_array_view; using const_view_type = bav_<T const, R, AL>;
    std::array<long, R> sh_{}, st_{}; T *p_ = nullptr; T *ptr() const { return p_; }
    basic_array_view() = default; basic_array_view(basic_array_view const &) = default;
    basic_array_view(T *p, std::array<long, R> const &s, std::array<long, R> const &st) : sh_(s), st_(st), p_(p) {}
    basic_array_view(std::array<long, R> const &s, T *p) : sh_(s), st_(d_::cstr<R>(s)), p_(p) {}
    basic_array_view(typename basic_array<std::remove_const_t<T>, R>::layout_t const &s, T *p) : sh_(s.l), st_(d_::cstr<R>(s.l)), p_(p) {}
    template <typename U, char A2> basic_array_view(ba_<U, R, A2> &a) : sh_(a.sh_), st_(a.st_), p_(a.ptr()) {} template <typename U, char A2> basic_array_view(ba_<U, R, A2> const &a) : sh_(a.sh_), st_(a.st_), p_(a.ptr()) {}
    template <typename U, char A2> basic_array_view(bav_<U, R, A2> const &a) : sh_(a.sh_), st_(a.st_), p_(a.ptr()) {}
    template <typename U, size_t N> requires(R == 1) basic_array_view(std::array<U, N> &a) : sh_{(long)N}, st_{1}, p_(a.data()) {} template <typename U, size_t N> requires(R == 1) basic_array_view(std::array<U, N> const &a) : sh_{(long)N}, st_{1}, p_(a.data()) {}
    template <typename U> requires(R == 1) basic_array_view(std::vector<U> &a) : sh_{(long)a.size()}, st_{1}, p_(a.data()) {} template <typename U> requires(R == 1) basic_array_view(std::vector<U> const &a) : sh_{(long)a.size()}, st_{1}, p_(a.data()) {}
    basic_array_view &operator=(basic_array_view const &o) { this->assign_(o); return *this; } template <typename S> basic_array_view &operator=(S const &o) { this->assign_(o); return *this; }
    void rebind(basic_array_view const &o) { sh_ = o.sh_; st_ = o.st_; p_ = o.p_; } 
    friend void swap(basic_array_view &a, basic_array_view &b) { std::swap(a.sh_, b.sh_); std::swap(a.st_, b.st_); std::swap(a.p_, b.p_); } };
  template <typename U, size_t N> basic_array_view(std::array<U, N> &) -> basic_array_view<U, 1, C_layout, 'V'>; template <typename U, size_t N> basic_array_view(std::array<U, N> const &) -> basic_array_view<U const, 1, C_layout, 'V'>; template <typename U> basic_array_view(std::vector<U> &) -> basic_array_view<U, 1, C_layout, 'V'>; template <typename U> basic_array_view(std::vector<U> const &) -> basic_array_view<U const, 1, C_layout, 'V'>;
  template <typename U, int R, char A> basic_array_view(ba_<U, R, A> &) -> basic_array_view<U, R, C_layout, A>; template <typename U, int R, char A> basic_array_view(ba_<U, R, A> const &) -> basic_array_view<U const, R, C_layout, A>; template <typename U, int R, char A> basic_array_view(bav_<U, R, A> const &) -> basic_array_view<U, R, C_layout, A>;
  template <typename T, int N> class stack_vector : public ba_<T, 1, 'V'> { public: using B = ba_<T, 1, 'V'>; stack_vector() : B(std::array<long, 1>{N}) {} template <typename... X> requires(sizeof...(X) == N) stack_vector(X... x) : B(std::array<long, 1>{N}) { long i = 0; ((this->d_[i++] = cast_<T>(x)), ...); } template <ArrayC S> stack_vector(S const &s) : B(s) {} using B::operator=; };
  template <typename T, int... N> using stack_matrix = matrix<T>; template <typename T, int... N> using stack_array = array<T, sizeof...(N)>;
  template <typename A> using reg_t = ba_<get_value_t<A>, get_rank<A>, get_algebra<A>>;
  template <typename A> auto make_regular(A &&a) { if constexpr (ArrayC<A>) return reg_t<A>(a); else if constexpr (requires { typename std::remove_cvref_t<A>::regular_type; }) return typename std::remove_cvref_t<A>::regular_type{std::forward<A>(a)}; else return std::decay_t<A>(std::forward<A>(a)); }
  template <typename A> using get_regular_t = decltype(make_regular(std::declval<A>())); template <typename A> using regular_t = get_regular_t<A>; template <typename A> inline constexpr bool is_regular_v = ArrayC<A> && requires { std::remove_cvref_t<A>().cap_; }; template <typename A> inline constexpr bool is_view_v = ArrayC<A> && !is_regular_v<A>; template <typename A> inline constexpr bool is_regular_or_view_v = ArrayC<A>;
  template <typename A> auto make_const_view(A const &a) { return bav_<get_value_t<A> const, get_rank<A>, get_algebra<A>>(a.ptr(), a.sh_, a.st_); }
  template <typename A> auto make_matrix_view(A &&a) { using P = std::remove_reference_t<decltype(*a.ptr())>; return bav_<P, 2, 'M'>(a.ptr(), a.sh_, a.st_); } template <typename A> auto make_array_view(A &&a) { using P = std::remove_reference_t<decltype(*a.ptr())>; return bav_<P, get_rank<A>, 'A'>(a.ptr(), a.sh_, a.st_); } template <typename A> auto make_vector_view(A &&a) { using P = std::remove_reference_t<decltype(*a.ptr())>; return bav_<P, 1, 'V'>(a.ptr(), a.sh_, a.st_); }
  template <typename F, typename A> auto map_(F f, A const &a) { using T = std::decay_t<decltype(f(a.flat(0)))>; ba_<T, get_rank<A>, get_algebra<A>> r(a.shape()); for (long i = 0; i < a.size(); ++i) r.flat(i) = f(a.flat(i)); return r; }
  template <typename F> auto map(F f) { return [f](auto const &...a) { return map_n_(f, a...); }; }
  template <typename F, typename A> auto map_n_(F f, A const &a) { return map_(f, a); } template <typename F, typename A, typename B> auto map_n_(F f, A const &a, B const &b) { using T = std::decay_t<decltype(f(a.flat(0), b.flat(0)))>; ba_<T, get_rank<A>, get_algebra<A>> r(a.shape()); for (long i = 0; i < a.size(); ++i) r.flat(i) = f(a.flat(i), b.flat(i)); return r; }
  template <ArrayC A, ArrayC B, typename F> auto zip_(A const &a, B const &b, F f) { if (a.shape() != b.shape()) { std::cerr << "nda shape mismatch\n"; std::abort(); } using T = std::decay_t<decltype(f(a.flat(0), b.flat(0)))>; ba_<T, get_rank<A>, get_algebra<A>> r(a.shape()); for (long i = 0; i < a.size(); ++i) r.flat(i) = f(a.flat(i), b.flat(i)); return r; }
  template <typename X, typename Y> auto mulx(X const &x, Y const &y) { if constexpr (!is_scalar_v<X> || !is_scalar_v<Y>) return x * y; else { using T = common_t<X, Y>; if constexpr (is_complex_v<X> != is_complex_v<Y>) { if constexpr (is_complex_v<X>) return T(x.real() * double(y), x.imag() * double(y)); else return T(double(x) * y.real(), double(x) * y.imag()); } else return T(T(x) * T(y)); } }
  template <typename X, typename Y> auto addx(X const &x, Y const &y) { if constexpr (!is_scalar_v<X> || !is_scalar_v<Y>) return x + y; else { using T = common_t<X, Y>; return T(cast_<T>(x) + cast_<T>(y)); } }
  template <typename X, typename Y> auto subx(X const &x, Y const &y) { if constexpr (!is_scalar_v<X> || !is_scalar_v<Y>) return x - y; else { using T = common_t<X, Y>; return T(cast_<T>(x) - cast_<T>(y)); } }
  template <typename X, typename Y> auto divx(X const &x, Y const &y) { if constexpr (!is_scalar_v<X> || !is_scalar_v<Y>) return x / y; else { using T = common_t<X, Y>; if constexpr (is_complex_v<X> && !is_complex_v<Y>) return T(x.real() / double(y), x.imag() / double(y)); else return T(cast_<T>(x) / cast_<T>(y)); } }
  template <ArrayC A, ArrayC B> requires(get_rank<A> == get_rank<B>) auto operator+(A const &a, B const &b) { return zip_(a, b, [](auto const &x, auto const &y) { return addx(x, y); }); }
  template <ArrayC A, ArrayC B> requires(get_rank<A> == get_rank<B>) auto operator-(A const &a, B const &b) { return zip_(a, b, [](auto const &x, auto const &y) { return subx(x, y); }); }
  template <typename T, int RA, char AA, typename A> ba_<T, RA, AA> diagadd_(A const &a, auto const &s, int sg) { ba_<T, RA, AA> r(a); for (long i = 0; i < std::min(r.extent(0), r.extent(1)); ++i) r(i, i) += cast_<T>(s) * double(sg); return r; }
  template <ArrayC A, typename S> requires(!ArrayC<S> && (is_scalar_v<S> || std::is_same_v<S, get_value_t<A>>)) auto operator+(A const &a, S const &s) { if constexpr (get_algebra<A> == 'M') return diagadd_<common_t<get_value_t<A>, S>, 2, 'M'>(a, s, 1); else return map_([&](auto const &x) { return addx(x, s); }, a); }
  template <ArrayC A, typename S> requires(!ArrayC<S> && (is_scalar_v<S> || std::is_same_v<S, get_value_t<A>>)) auto operator-(A const &a, S const &s) { if constexpr (get_algebra<A> == 'M') return diagadd_<common_t<get_value_t<A>, S>, 2, 'M'>(a, s, -1); else return map_([&](auto const &x) { return subx(x, s); }, a); }
  template <ArrayC A, typename S> requires(!ArrayC<S> && (is_scalar_v<S> || std::is_same_v<S, get_value_t<A>>)) auto operator+(S const &s, A const &a) { return a + s; }
  template <ArrayC A> auto operator-(A const &a) { return map_([](auto const &x) { return std::decay_t<decltype(x)>(-x); }, a); }
  template <ArrayC A, typename S> requires(!ArrayC<S> && (is_scalar_v<S> || std::is_same_v<S, get_value_t<A>>)) auto operator-(S const &s, A const &a) { return (-a) + s; }
  template <ArrayC A, typename S> requires(!ArrayC<S> && (is_scalar_v<S> || std::is_same_v<S, get_value_t<A>>)) auto operator*(A const &a, S const &s) { return map_([&](auto const &x) { return mulx(x, s); }, a); }
  template <ArrayC A, typename S> requires(!ArrayC<S> && (is_scalar_v<S> || std::is_same_v<S, get_value_t<A>>)) auto operator*(S const &s, A const &a) { return map_([&](auto const &x) { return mulx(s, x); }, a); }
  template <ArrayC A, typename S> requires(!ArrayC<S> && is_scalar_v<S>) auto operator/(A const &a, S const &s) { return map_([&](auto const &x) { return divx(x, s); }, a); }
  template <typename A, typename B> auto matmul(A const &a, B const &b) { using T = common_t<get_value_t<A>, get_value_t<B>>; if (a.extent(1) != b.extent(0)) { std::cerr << "nda matmul shape mismatch\n"; std::abort(); } long n = a.extent(0), m = b.extent(1), k = a.extent(1); auto r = matrix<T>::zeros({n, m}); for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) for (long l = 0; l < k; ++l) r(i, j) += mulx(a(i, l), b(l, j)); return r; }
  template <typename A, typename B> auto matvec(A const &a, B const &b) { using T = common_t<get_value_t<A>, get_value_t<B>>; if (a.extent(1) != b.extent(0)) { std::cerr << "nda matvecmul shape mismatch\n"; std::abort(); } long n = a.extent(0), k = a.extent(1); auto r = vector<T>::zeros({n}); for (long i = 0; i < n; ++i) for (long l = 0; l < k; ++l) r(i) += mulx(a(i, l), b(l)); return r; }
  template <ArrayC A, ArrayC B> auto operator*(A const &a, B const &b) { if constexpr (get_algebra<A> == 'M' && get_rank<B> == 2) return matmul(a, b); else if constexpr (get_algebra<A> == 'M') return matvec(a, b); else return zip_(a, b, [](auto const &x, auto const &y) { return mulx(x, y); }); }
  template <ArrayC A, ArrayC B> auto operator/(A const &a, B const &b) { if constexpr (get_algebra<A> == 'M') return matmul(a, inverse(b)); else return zip_(a, b, [](auto const &x, auto const &y) { return divx(x, y); }); }
  template <ArrayC A, ArrayC B> bool operator==(A const &a, B const &b) { if (a.shape() != b.shape()) return false; for (long i = 0; i < a.size(); ++i) if (!(a.flat(i) == b.flat(i))) return false; return true; }
  template <ArrayC A, ArrayC B> bool operator!=(A const &a, B const &b) { return !(a == b); }
  // scalar versions come first so that they are found for element types
  using std::conj; using std::real; using std::imag; using std::abs; using std::sqrt; using std::exp; using std::floor; using std::pow; using std::cos; using std::sin;
  inline double conj(double x) { return x; } inline long conj(long x) { return x; } inline int conj(int x) { return x; } inline double real(double x) { return x; } inline double abs2(double x) { return x * x; } inline double abs2(dcomplex x) { return x.real() * x.real() + x.imag() * x.imag(); } inline bool isnan(dcomplex z) { return std::isnan(z.real()) || std::isnan(z.imag()); } using std::isnan;
#define NDA_MAP_(F) template <ArrayC A> auto F(A const &a) { return map_([](auto const &x) { using nda::F; return F(x); }, a); }
  NDA_MAP_(conj) NDA_MAP_(real) NDA_MAP_(imag) NDA_MAP_(abs) NDA_MAP_(abs2) NDA_MAP_(sqrt) NDA_MAP_(exp) NDA_MAP_(floor) NDA_MAP_(cos) NDA_MAP_(sin)
  template <ArrayC A> auto isnan(A const &a) { return map_([](auto const &x) { return nda::isnan(x); }, a); } template <ArrayC A> bool any(A const &a) { for (long i = 0; i < a.size(); ++i) if (a.flat(i)) return true; return false; } template <ArrayC A> bool all(A const &a) { for (long i = 0; i < a.size(); ++i) if (!a.flat(i)) return false; return true; }
  template <ArrayC A, typename S> requires(is_scalar_v<S>) auto pow(A const &a, S s) { return map_([&](auto const &x) { return std::pow(x, s); }, a); }
  template <ArrayC A> auto sum(A const &a) { auto r = get_value_t<A>{}; for (long i = 0; i < a.size(); ++i) r += a.flat(i); return r; } template <ArrayC A> auto max_element(A const &a) { auto r = a.flat(0); for (long i = 1; i < a.size(); ++i) { auto x = a.flat(i); r = x > r ? x : r; } return r; } template <ArrayC A> auto min_element(A const &a) { auto r = a.flat(0); for (long i = 1; i < a.size(); ++i) { auto x = a.flat(i); r = x < r ? x : r; } return r; }
  template <typename A, typename T> auto fold(auto f, A const &a, T x) { for (long i = 0; i < a.size(); ++i) x = f(x, a.flat(i)); return x; }
  template <ArrayC A> double frobenius_norm(A const &a) { double r = 0; for (long i = 0; i < a.size(); ++i) r += abs2(a.flat(i)); return std::sqrt(r); } template <ArrayC A> double norm(A const &a, double = 2.0) { return frobenius_norm(a); }
  template <ArrayC A> auto transpose(A const &a) { using P = std::remove_reference_t<decltype(*a.ptr())>; return bav_<P, 2, get_algebra<A>>(a.ptr(), {a.sh_[1], a.sh_[0]}, {a.st_[1], a.st_[0]}); }
  template <typename T, int R, char AL> requires(R == 2) auto transpose(ba_<T, R, AL> &&a) { ba_<T, R, AL> r(a.extent(1), a.extent(0)); for (long i = 0; i < r.extent(0); ++i) for (long j = 0; j < r.extent(1); ++j) r(i, j) = a(j, i); return r; }
  template <ArrayC A> auto dagger(A const &a) { return conj(reg_t<A>(transpose(a))); }
  
  template <typename T, typename... I> requires(std::is_integral_v<I> && ...) auto zeros(I... i) { return array<T, sizeof...(I)>::zeros(std::array<long, sizeof...(I)>{(long)i...}); } template <typename T, std::integral I, size_t N> auto zeros(std::array<I, N> const &s) { std::array<long, N> q; for (size_t i = 0; i < N; ++i) q[i] = s[i]; if constexpr (N == 0) return T{}; else return array<T, N>::zeros(q); }
  template <typename T, typename... I> requires(std::is_integral_v<I> && ...) auto ones(I... i) { return array<T, sizeof...(I)>::ones(std::array<long, sizeof...(I)>{(long)i...}); } template <typename T, size_t N> auto ones(std::array<long, N> const &s) { return array<T, N>::ones(s); }
  template <typename T = long> auto arange(long a, long b, long s = 1) { range r(a, b, s); vector<T> v(r.size()); long i = 0; for (long x : r) v(i++) = x; return array<T, 1>(v); } template <typename T = long> auto arange(long n) { return arange<T>(0, n); }
  template <typename T> auto eye(long n) { auto m = matrix<T>::zeros({n, n}); for (long i = 0; i < n; ++i) m(i, i) = cast_<T>(1); return m; }
  template <typename V> auto diag(V const &v) { if constexpr (ArrayC<V>) { auto m = matrix<get_value_t<V>>::zeros({v.size(), v.size()}); for (long i = 0; i < v.size(); ++i) m(i, i) = v(i); return m; } else { using T = std::decay_t<decltype(v[0])>; long n = v.size(); auto m = matrix<T>::zeros({n, n}); for (long i = 0; i < n; ++i) m(i, i) = v[i]; return m; } }
  template <typename A> requires ArrayC<std::decay_t<A>> auto diagonal(A &&a) { using P = std::remove_reference_t<decltype(*a.ptr())>; return bav_<P, 1, 'V'>(a.ptr(), {std::min(a.sh_[0], a.sh_[1])}, {a.st_[0] + a.st_[1]}); }
  template <ArrayC A> auto trace(A const &a) { auto r = cast_<get_value_t<A>>(0); for (long i = 0; i < std::min(a.extent(0), a.extent(1)); ++i) r += a(i, i); return r; } template <ArrayC A> bool is_matrix_square(A const &a, bool = false) { return a.extent(0) == a.extent(1); } template <ArrayC A> bool is_matrix_diagonal(A const &a, bool = false) { return is_diagonal(a); }
  template <ArrayC A> bool is_diagonal(A const &a) { for (long i = 0; i < a.extent(0); ++i) for (long j = 0; j < a.extent(1); ++j) if (i != j && !(a(i, j) == get_value_t<A>(0))) return false; return true; }
  template <ArrayC A> long first_dim(A const &a) { return a.extent(0); } template <ArrayC A> long second_dim(A const &a) { return a.extent(1); } 
  template <ArrayC A> void clean(A &&a) { for (long i = 0; i < a.size(); ++i) a.flat(i) = get_value_t<A>{}; }
  template <typename A, typename B> void deep_swap(A &&a, B &&b) { if (a.shape() != b.shape()) { std::cerr << "nda shape mismatch\n"; std::abort(); } for (long i = 0; i < a.size(); ++i) { auto t = a.flat(i); a.flat(i) = b.flat(i); b.flat(i) = t; } }
  template <typename I, size_t R, typename F, size_t... Is> void for_each_(std::array<I, R> const &s, F &f, std::index_sequence<Is...>) { long n = 1; for (auto x : s) n *= x; std::array<long, R> sh; for (size_t k = 0; k < R; ++k) sh[k] = s[k]; for (long k = 0; k < n; ++k) { std::array<long, R> i; d_::unflat<R>(k, sh, i); f(i[Is]...); } }
  template <typename I, size_t R, typename F> void for_each(std::array<I, R> const &s, F &&f) { for_each_(s, f, std::make_index_sequence<R>{}); }
  // ---- linear algebra
  template <typename A> auto cofac_(A const &a, std::vector<long> const &r, std::vector<long> const &c) -> get_value_t<A> { using T = get_value_t<A>; if (r.empty()) return cast_<T>(1); if (r.size() == 1) return a(r[0], c[0]); T s = cast_<T>(0); std::vector<long> r2(r.begin() + 1, r.end()); for (size_t k = 0; k < c.size(); ++k) { std::vector<long> c2; for (size_t l = 0; l < c.size(); ++l) if (l != k) c2.push_back(c[l]); T t = a(r[0], c[k]) * cofac_(a, r2, c2); if (k % 2) s -= t; else s += t; } return s; }
  template <typename A> auto determinant(A const &a) { std::vector<long> r(a.extent(0)), c(a.extent(1)); for (size_t i = 0; i < r.size(); ++i) r[i] = c[i] = i; if (a.extent(0) != a.extent(1)) { std::cerr << "determinant of a non square matrix\n"; std::abort(); } return cofac_(a, r, c); }
  template <typename A> auto determinant_in_place(A &a) { return determinant(a); }
  template <typename A> auto inverse(A const &a) { using T = get_value_t<A>; long n = a.extent(0); if (a.extent(0) != a.extent(1)) { std::cerr << "inverse of a non square matrix\n"; std::abort(); } T d = determinant(a); matrix<T> r(n, n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { std::vector<long> rr, cc; for (long k = 0; k < n; ++k) { if (k != j) rr.push_back(k); if (k != i) cc.push_back(k); } T m = cofac_(a, rr, cc); r(i, j) = ((i + j) % 2 ? -m : m) / d; } return r; }
  template <typename A> void inverse_in_place(A &&a) { auto r = inverse(a); a.assign_(r); }
  template <typename T, size_t N> inline long product_(std::array<T, N> const &a) { long p = 1; for (auto x : a) p *= x; return p; }
  namespace stdutil { template <typename T, size_t N> T product(std::array<T, N> const &a) { T p = 1; for (auto x : a) p *= x; return p; } template <typename T, size_t N> T sum(std::array<T, N> const &a) { T p = 0; for (auto x : a) p += x; return p; } 
    template <typename T, size_t N, size_t M> std::array<T, N + M> join(std::array<T, N> const &a, std::array<T, M> const &b) { std::array<T, N + M> r; for (size_t i = 0; i < N; ++i) r[i] = a[i]; for (size_t i = 0; i < M; ++i) r[N + i] = b[i]; return r; } template <typename T, typename U, size_t N> std::array<T, N + 1> append(std::array<T, N> const &a, U const &x) { std::array<T, N + 1> r; for (size_t i = 0; i < N; ++i) r[i] = a[i]; r[N] = x; return r; } template <typename T, typename U, size_t N> std::array<T, N + 1> front_append(std::array<T, N> const &a, U const &x) { std::array<T, N + 1> r; for (size_t i = 0; i < N; ++i) r[i + 1] = a[i]; r[0] = x; return r; }
    template <size_t Nf, typename T, size_t N> std::array<T, N - Nf> front_mpop(std::array<T, N> const &a) { std::array<T, N - Nf> r; for (size_t i = 0; i < N - Nf; ++i) r[i] = a[i + Nf]; return r; } template <size_t Nf, typename T, size_t N> std::array<T, N - Nf> mpop(std::array<T, N> const &a) { std::array<T, N - Nf> r; for (size_t i = 0; i < N - Nf; ++i) r[i] = a[i]; return r; } template <typename T> auto make_std_array(T const &a) { return a; } template <typename T, typename U, size_t N> std::array<T, N> make_std_array(std::array<U, N> const &a) { std::array<T, N> r; for (size_t i = 0; i < N; ++i) r[i] = T(a[i]); return r; } }
  namespace blas {
    template <typename A, typename B> auto dot(A const &a, B const &b) { using T = common_t<get_value_t<A>, get_value_t<B>>; if (a.size() != b.size()) { std::cerr << "nda dot shape mismatch\n"; std::abort(); } T r = cast_<T>(0); for (long i = 0; i < a.size(); ++i) r += mulx(a.flat(i), b.flat(i)); return r; }
    template <typename A, typename B> auto dotc(A const &a, B const &b) { return dot(conj(a), b); } template <typename A, typename B> auto dot_generic(A const &a, B const &b) { return dot(a, b); } template <typename A, typename B> auto dotc_generic(A const &a, B const &b) { return dotc(a, b); }
    template <typename S, typename A, typename B, typename C> void gemm(S al, A const &a, B const &b, S be, C &&c) { auto m = matmul(a, b); if (m.shape() != c.shape()) { std::cerr << "gemm shape mismatch\n"; std::abort(); } for (long i = 0; i < c.extent(0); ++i) for (long j = 0; j < c.extent(1); ++j) { if (be == S(0)) c(i, j) = mulx(al, m(i, j)); else c(i, j) = mulx(al, m(i, j)) + mulx(be, c(i, j)); } }
    template <typename S, typename A, typename B, typename C> void gemv(S al, A const &a, B const &b, S be, C &&c) { auto m = matvec(a, b); if (m.shape() != c.shape()) { std::cerr << "gemv shape mismatch\n"; std::abort(); } for (long i = 0; i < c.extent(0); ++i) { if (be == S(0)) c(i) = mulx(al, m(i)); else c(i) = mulx(al, m(i)) + mulx(be, c(i)); } }
    template <typename S, typename A, typename B, typename C> void ger(S al, A const &a, B const &b, C &&c) { if (a.size() != c.extent(0) || b.size() != c.extent(1)) { std::cerr << "ger shape mismatch\n"; std::abort(); } for (long i = 0; i < c.extent(0); ++i) for (long j = 0; j < c.extent(1); ++j) c(i, j) += mulx(mulx(al, a(i)), b(j)); }
    template <typename A, typename B> auto outer_product(A const &a, B const &b) { using T = common_t<get_value_t<A>, get_value_t<B>>; std::array<long, get_rank<A> + get_rank<B>> s; for (int i = 0; i < get_rank<A>; ++i) s[i] = a.extent(i); for (int i = 0; i < get_rank<B>; ++i) s[get_rank<A> + i] = b.extent(i); array<T, get_rank<A> + get_rank<B>> r(s); for (long i = 0; i < a.size(); ++i) for (long j = 0; j < b.size(); ++j) r.flat(i * b.size() + j) = mulx(a.flat(i), b.flat(j)); return r; }
    template <typename S, typename A> void scal(S s, A &&a) { for (long i = 0; i < a.size(); ++i) a.flat(i) *= s; } }
  namespace linalg { template <typename A, typename B> auto cross_product(A const &a, B const &b) { using T = common_t<get_value_t<A>, get_value_t<B>>; vector<T> r(3); r(0) = a(1) * b(2) - a(2) * b(1); r(1) = a(2) * b(0) - a(0) * b(2); r(2) = a(0) * b(1) - a(1) * b(0); return r; } }
  namespace clef { template <int N> struct placeholder { static constexpr int index = N; }; template <typename... T> constexpr bool is_any_lazy = false; template <typename T> constexpr bool is_lazy = false; template <typename T> constexpr bool is_function = false; template <typename T> constexpr bool force_copy_in_expr = false; template <typename T> auto make_function(T x) { return x; } struct _ph {}; template <typename... T> constexpr bool is_clef_expression = false; template <typename... T> auto make_expr_call(T &&...x); template <typename... T> auto make_expr_subscript(T &&...x); template <typename E, int... I> struct make_fun_impl {}; }
  namespace permutations { template <int R> constexpr std::array<int, R> cycle(int p, int pos = R) { std::array<int, R> r{}; for (int i = 0; i < R; ++i) r[i] = i < pos ? (pos + i - p) % pos : i; return r; } }
  template <size_t R> constexpr unsigned long encode(std::array<int, R> const &a) { unsigned long c = 0; for (size_t i = 0; i < R; ++i) c += (unsigned long)a[i] << (4 * i); return c; }
  template <auto P, typename A> auto permuted_indices_view(A &&a) { using Q = std::remove_reference_t<decltype(*a.ptr())>; auto sh = a.sh_; auto st = a.st_; for (int i = 0; i < get_rank<A>; ++i) { int j = (P >> (4 * i)) & 15; sh[j] = a.sh_[i]; st[j] = a.st_[i]; } return bav_<Q, get_rank<A>, get_algebra<A>>(a.ptr(), sh, st); }
  template <typename A, size_t N> auto reshape(A &&a, std::array<long, N> const &sh) { using P = std::remove_reference_t<decltype(*a.ptr())>; long n = 1; for (auto x : sh) n *= x; if (n != a.size() || a.st_ != d_::cstr<get_rank<A>>(a.sh_)) { std::cerr << "reshape: wrong size or array not contiguous\n"; std::abort(); } if constexpr (requires { a.cap_; } && !std::is_lvalue_reference_v<A>) { ba_<P, (int)N, 'A'> r(sh); for (long i = 0; i < n; ++i) r.flat(i) = a.flat(i); return r; } else return bav_<P, (int)N, 'A'>(sh, a.ptr()); }
  template <typename A, typename... I> requires(std::is_integral_v<I> && ...) auto reshape(A &&a, I... i) { return reshape(std::forward<A>(a), std::array<long, sizeof...(I)>{(long)i...}); }
  template <typename A> auto make_array_const_view(A const &a) { return bav_<std::remove_const_t<get_value_t<A>> const, get_rank<A>, 'A'>(a.ptr(), a.sh_, a.st_); }
  template <int I, int J, typename A> auto transposed_view(A &&a) { using P = std::remove_reference_t<decltype(*a.ptr())>; auto sh = a.sh_; auto st = a.st_; std::swap(sh[I], sh[J]); std::swap(st[I], st[J]); return bav_<P, get_rank<A>, get_algebra<A>>(a.ptr(), sh, st); }
  template <int N, typename A> auto reinterpret_add_fast_dims_of_size_one(A &&a) { using P = std::remove_reference_t<decltype(*a.ptr())>; constexpr int R = get_rank<A>; std::array<long, R + N> sh, st; for (int i = 0; i < R; ++i) { sh[i] = a.sh_[i]; st[i] = a.st_[i]; } for (int i = R; i < R + N; ++i) { sh[i] = 1; st[i] = 1; } return bav_<P, R + N, 'A'>(a.ptr(), sh, st); }
  template <int R, typename F> struct array_adapter { array_adapter(std::array<long, R>, F) {} };
  namespace stdutil { template <typename T, size_t N> std::array<T, N - 1> front_pop(std::array<T, N> const &a) { return front_mpop<1>(a); } template <typename T, size_t N> std::array<T, N - 1> pop(std::array<T, N> const &a) { return mpop<1>(a); } }
  namespace lapack { // least squares by normal equations; the error estimate and the singular values are set by the harness
    inline double gelss_error = 0.0; inline double (*gelss_smin)(long) = nullptr;
    inline matrix<std::complex<double>> d_pinv(matrix<std::complex<double>> const &A) { using T = std::complex<double>; long m = A.sh_[0], n = A.sh_[1]; matrix<T> N(n, n), P(n, m);
      for (long i = 0; i < n; ++i) { for (long j = 0; j < n; ++j) { T x = 0; for (long k = 0; k < m; ++k) x += std::conj(A(k, i)) * A(k, j); N(i, j) = x; } for (long k = 0; k < m; ++k) P(i, k) = std::conj(A(k, i)); }
      for (long c = 0; c < n; ++c) { long p = c; for (long r = c; r < n; ++r) if (std::norm(N(r, c)) > std::norm(N(p, c))) p = r; for (long j = 0; j < n; ++j) std::swap(N(c, j), N(p, j)); for (long j = 0; j < m; ++j) std::swap(P(c, j), P(p, j)); T d = 1.0 / N(c, c); for (long j = 0; j < n; ++j) N(c, j) *= d; for (long j = 0; j < m; ++j) P(c, j) *= d;
        for (long r = 0; r < n; ++r) if (r != c) { T f = N(r, c); for (long j = 0; j < n; ++j) N(r, j) -= f * N(c, j); for (long j = 0; j < m; ++j) P(r, j) -= f * P(c, j); } } return P; }
    template <typename B> matrix<std::complex<double>> d_apply(matrix<std::complex<double>> const &P, B const &b) { using T = std::complex<double>; matrix<T> r(P.sh_[0], b.sh_[1]); for (long i = 0; i < P.sh_[0]; ++i) for (long j = 0; j < b.sh_[1]; ++j) { T x = 0; for (long k = 0; k < P.sh_[1]; ++k) x += P(i, k) * b(k, j); r(i, j) = x; } return r; }
    template <typename T> struct gelss_worker { long n; matrix<std::complex<double>> P; template <typename A> gelss_worker(A const &a) : n(a.sh_[1]) { matrix<std::complex<double>> M(a.sh_[0], a.sh_[1]); for (long i = 0; i < M.sh_[0]; ++i) for (long j = 0; j < n; ++j) M(i, j) = a(i, j); if (n) P = d_pinv(M); } long n_var() const { return n; } template <typename B> std::pair<matrix<T>, double> operator()(B const &b, std::optional<long> = {}) const { if (b.sh_[0] != P.sh_[1]) { std::cerr << "gelss: sizes\n"; std::abort(); } return {d_apply(P, b), gelss_error}; } array<double, 1> S_vec() const { array<double, 1> s(1); s(0) = gelss_smin ? gelss_smin(n) : 1.0; return s; } };
    struct gelss_worker_hermitian { long n; matrix<std::complex<double>> P; template <typename A> gelss_worker_hermitian(A const &a) : n(a.sh_[1]) { long m = a.sh_[0]; matrix<std::complex<double>> M(2 * m, n); for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) { M(i, j) = a(i, j); M(m + i, j) = std::conj(a(i, j)); } if (n) P = d_pinv(M); } long n_var() const { return n; }
      template <typename B> std::pair<matrix<std::complex<double>>, double> operator()(B const &b, std::optional<long> d = {}) const { long m = P.sh_[1] / 2, q = *d, c = b.sh_[1]; if (b.sh_[0] != m || c % (q * q)) { std::cerr << "gelss: sizes\n"; std::abort(); } matrix<std::complex<double>> M(2 * m, c); for (long i = 0; i < m; ++i) for (long k = 0; k < c; ++k) { long o = k / (q * q), x = k % (q * q) / q, y = k % q; M(i, k) = b(i, k); M(m + i, k) = std::conj(b(i, o * q * q + y * q + x)); } return {d_apply(P, M), gelss_error}; } array<double, 1> S_vec() const { array<double, 1> s(1); s(0) = gelss_smin ? gelss_smin(n) : 1.0; return s; } }; }
  template <char E> struct enc_ {}; template <typename A> struct _linear_index_t { long value; };
}
#define CLEF_MAKE_FNT_LAZY(name)
#define CLEF_IMPLEMENT_LAZY_CALL(...)
#define CLEF_IMPLEMENT_LAZY_METHOD(...)
namespace std {
  template <typename T, size_t R> std::ostream &operator<<(std::ostream &o, std::array<T, R> const &a) { o << "("; for (auto const &x : a) o << x << " "; return o << ")"; }
  template <typename T, size_t R> constexpr std::array<T, R> operator+(std::array<T, R> const &a, std::array<T, R> const &b) { std::array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i] + b[i]; return r; }
  template <typename T, size_t R> constexpr std::array<T, R> operator-(std::array<T, R> const &a, std::array<T, R> const &b) { std::array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i] - b[i]; return r; }
  template <typename T, size_t R> constexpr std::array<T, R> operator-(std::array<T, R> const &a) { std::array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = -a[i]; return r; }
  template <typename T, size_t R> constexpr std::array<T, R> operator*(T s, std::array<T, R> const &a) { std::array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = s * a[i]; return r; }
  template <typename T, size_t R> constexpr T operator*(std::array<T, R> const &a, std::array<T, R> const &b) { T r{}; for (size_t i = 0; i < R; ++i) r += a[i] * b[i]; return r; }
}
namespace triqs { using nda::MemoryArray; } // gfs/gf/gf.hpp uses the concept unqualified
