#pragma once
#include <h5/h5.hpp>
#include <nda/nda.hpp>
namespace nda {
  template <typename T, int R, char A> void h5_write(h5::group g, std::string const &k, ba_<T, R, A> const &x) { auto s = g.create_group(k); h5::h5_write(s, "shape", std::vector<long>(x.shape().begin(), x.shape().end())); std::vector<T> v; for (long i = 0; i < x.size(); ++i) v.push_back(x.flat(i)); h5::write(s, "data", v); }
  template <typename T, int R, char A> void h5_write(h5::group g, std::string const &k, bav_<T, R, A> const &x) { h5_write(g, k, ba_<std::remove_const_t<T>, R, A>(x)); }
  template <typename T, int R, char A> void h5_read(h5::group g, std::string const &k, ba_<T, R, A> &x) { auto s = g.open_group(k); std::vector<long> sh; h5::h5_read(s, "shape", sh); std::vector<T> v; h5::read(s, "data", v); std::array<long, R> q; for (int i = 0; i < R; ++i) q[i] = sh.at(i); x = ba_<T, R, A>(q); for (long i = 0; i < x.size(); ++i) x.flat(i) = v[i]; }
}
