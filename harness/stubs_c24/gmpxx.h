// Model of GMP's floating-point class: exact real numbers (a double in the symbolic executor's real arithmetic).
#pragma once
namespace stub { inline unsigned long gmp_prec = 64; }
inline unsigned long mpf_get_default_prec() { return stub::gmp_prec; }
inline void mpf_set_default_prec(unsigned long p) { stub::gmp_prec = p; }
struct mpf_class { double v = 0; mpf_class() = default; mpf_class(double x) : v(x) {} double get_d() const { return v; } };
inline mpf_class operator+(mpf_class a, mpf_class b) { return a.v + b.v; } inline mpf_class operator-(mpf_class a, mpf_class b) { return a.v - b.v; } inline mpf_class operator*(mpf_class a, mpf_class b) { return a.v * b.v; } inline mpf_class operator/(mpf_class a, mpf_class b) { return a.v / b.v; } inline mpf_class operator-(mpf_class a) { return -a.v; }
inline bool operator==(mpf_class a, double b) { return a.v == b; } inline bool operator<(mpf_class a, double b) { return a.v < b; } inline bool operator>(mpf_class a, double b) { return a.v > b; } inline bool operator<=(mpf_class a, double b) { return a.v <= b; } inline bool operator>=(mpf_class a, double b) { return a.v >= b; } inline bool operator!=(mpf_class a, double b) { return a.v != b; }
template <typename O> O &operator<<(O &o, mpf_class const &) { return o; }
