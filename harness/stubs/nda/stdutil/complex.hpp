#pragma once
#include <complex>
#include <type_traits>
// mixed int / complex arithmetic as provided by nda
namespace std {
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator*(I a, std::complex<double> const &b) { return double(a) * b; }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator*(std::complex<double> const &b, I a) { return double(a) * b; }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator+(I a, std::complex<double> const &b) { return double(a) + b; }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator+(std::complex<double> const &b, I a) { return b + double(a); }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator-(I a, std::complex<double> const &b) { return double(a) - b; }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator-(std::complex<double> const &b, I a) { return b - double(a); }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator/(I a, std::complex<double> const &b) { return double(a) / b; }
  template <typename I> requires(std::is_integral_v<I>) std::complex<double> operator/(std::complex<double> const &b, I a) { return b / double(a); }
}
