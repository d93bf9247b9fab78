// Minimal model of the h5 dependency: an in-memory tree of named values with attributes.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <complex>
#include <variant>
#include <optional>
#include <tuple>
#include <array>
#include <algorithm>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <concepts>
#include <sstream>
#include <iostream>
namespace h5 {
  using hsize_t = unsigned long long; using hid_t = long; using v_t = std::vector<hsize_t>;
  namespace stub {
    template <typename T> struct tag { static inline char c = 0; }; template <typename T> void const *id() { return &tag<T>::c; }
    struct any { virtual ~any() {} virtual void const *type() const = 0; virtual std::shared_ptr<any> clone() const = 0; virtual bool isnum() const { return false; } virtual bool isint() const { return false; } virtual double asd() const { return 0; } virtual long asl() const { return 0; } };
    template <typename T> struct holder : any { T v; holder(T const &x) : v(x) {} void const *type() const override { return id<T>(); } std::shared_ptr<any> clone() const override { return std::make_shared<holder<T>>(v); }
      bool isnum() const override { return std::is_arithmetic_v<T>; } bool isint() const override { return std::is_integral_v<T>; } double asd() const override { if constexpr (std::is_arithmetic_v<T>) return (double)v; else return 0; } long asl() const override { if constexpr (std::is_integral_v<T>) return (long)v; else return 0; } };
    struct node { std::map<std::string, std::shared_ptr<node>> sub; std::map<std::string, std::shared_ptr<any>> attr; std::shared_ptr<any> val; bool isarr() const { return val || sub.count("shape"); } bool israw = false; long esz = 0, cnt = 0; std::vector<char> raw; };
    template <typename T> constexpr bool leaf = std::is_arithmetic_v<T> || std::is_same_v<T, std::string>;
    template <typename T> constexpr bool leaf<std::complex<T>> = true;
    template <typename T> constexpr bool leaf<std::vector<T>> = leaf<T>;
    template <typename T, size_t N> constexpr bool leaf<std::array<T, N>> = leaf<T>;
    template <typename T> void get(any const *a, T &x) { if (!a) throw std::runtime_error("h5 stub: no value"); if (a->type() == id<T>()) { x = static_cast<holder<T> const *>(a)->v; return; } if constexpr (std::is_integral_v<T>) { if (a->isint()) { x = (T)a->asl(); return; } } if constexpr (std::is_arithmetic_v<T>) { if (a->isnum()) { x = (T)a->asd(); return; } } throw std::runtime_error("h5 stub: type mismatch"); }
  }
  class object { public: std::shared_ptr<stub::node> n; std::shared_ptr<stub::node> const &nd() const { return n; } object() : n(std::make_shared<stub::node>()) {} object(std::shared_ptr<stub::node> x) : n(x) {} };
  class dataset : public object { public: using object::object; dataset(object const &o) : object(o) {} }; class dataspace : public object { public: using object::object; dataspace(object const &o) : object(o) {} }; using datatype = object; class attribute {};
  class file { public: std::shared_ptr<stub::node> n = std::make_shared<stub::node>(); file() = default; file(std::string const &, char) {} void flush() {} void close() {} };
  class group : public object { public: using object::object; group() = default; group(file const &f) : object(f.n) {} explicit group(object const &o) : object(o.n) {}
    std::string name() const { return ""; }
    group create_group(std::string const &k, bool = true) const { if (k.empty()) return *this; auto p = std::make_shared<stub::node>(); n->sub[k] = p; return group(p); }
    group open_group(std::string const &k) const { if (k.empty()) return *this; auto it = n->sub.find(k); if (it == n->sub.end() ) throw std::runtime_error("h5 stub: no group"); return group(it->second); }
    bool has_key(std::string const &k) const { return n->sub.count(k); } bool has_subgroup(std::string const &k) const { auto it = n->sub.find(k); return it != n->sub.end() && !it->second->isarr(); } bool has_dataset(std::string const &k) const { auto it = n->sub.find(k); return it != n->sub.end() && it->second->isarr(); }
    void unlink(std::string const &k, bool = false) const { n->sub.erase(k); } std::vector<std::string> get_all_subgroup_names() const { std::vector<std::string> r; for (auto &p : n->sub) if (!p.second->isarr()) r.push_back(p.first); return r; } std::vector<std::string> get_all_dataset_names() const { std::vector<std::string> r; for (auto &p : n->sub) if (p.second->isarr()) r.push_back(p.first); return r; } dataset create_dataset(std::string const &k, object const &dt, object const &sp) const { auto p = std::make_shared<stub::node>(); p->israw = true; p->esz = dt.n->esz; p->cnt = sp.n->cnt; p->raw.resize(p->esz * p->cnt); n->sub[k] = p; return dataset(p); } dataset open_dataset(std::string const &k) const { return dataset(n->sub.at(k)); } };
  // attributes
  template <typename T> requires(stub::leaf<T>) void h5_write_attribute(object o, std::string const &k, T const &x) { o.n->attr[k] = std::make_shared<stub::holder<T>>(x); }
  template <typename T> requires(stub::leaf<T>) void h5_read_attribute(object o, std::string const &k, T &x) { auto it = o.n->attr.find(k); stub::get(it == o.n->attr.end() ? nullptr : it->second.get(), x); }
  inline void h5_write_attribute(object o, std::string const &k, char const *x) { h5_write_attribute(o, k, std::string(x)); }
  template <typename T> void write_attribute(object o, std::string const &k, T const &x) { h5_write_attribute(o, k, x); }
  template <typename T> T read_attribute(object o, std::string const &k) { T x; h5_read_attribute(o, k, x); return x; }
  template <typename T> void read_attribute(object o, std::string const &k, T &x) { h5_read_attribute(o, k, x); }
  template <typename T> int try_read_attribute(object o, std::string const &k, T &x) { if (!o.n->attr.count(k)) return 0; h5_read_attribute(o, k, x); return 1; }
  inline bool has_attribute(object o, std::string const &k) { return o.n->attr.count(k); }
  // hdf5_format
  template <typename T> void write_hdf5_format(object g, T const &) { h5_write_attribute(g, "Format", T::hdf5_format()); }
  inline void write_hdf5_format_as_string(object g, std::string const &s) { h5_write_attribute(g, "Format", s); }
  inline void read_hdf5_format(object g, std::string &s) { s = ""; if (g.n->attr.count("Format")) h5_read_attribute(g, "Format", s); }
  inline std::string read_hdf5_format(object g) { std::string s; read_hdf5_format(g, s); return s; }
  inline std::string read_hdf5_format_from_key(group g, std::string const &k) { return read_hdf5_format(g.open_group(k)); }
  inline void assert_hdf5_format_as_string(group g, const char *tag, bool ignore = false) { auto s = read_hdf5_format(g); if (ignore && s == "") return; if (s != tag) throw std::runtime_error("h5 format mismatch"); }
  template <typename T> void assert_hdf5_format(group g, T const &, bool ignore = false) { auto s = read_hdf5_format(g); if (ignore && s == "") return; if (s != T::hdf5_format()) throw std::runtime_error("h5 format mismatch"); }
  template <typename T> concept Storable = true;
  template <typename T> std::string get_hdf5_format(T const &) { if constexpr (requires { T::hdf5_format(); }) return T::hdf5_format(); else return ""; }
  template <typename T> std::string get_hdf5_format() { if constexpr (requires { T::hdf5_format(); }) return T::hdf5_format(); else return ""; }
  template <typename T> struct hdf5_format_impl { static std::string invoke() { return T::hdf5_format(); } };
  template <typename T> std::string hdf5_format_from_typename() { return ""; }
  // values
  template <typename T> requires(stub::leaf<T>) void h5_write(group g, std::string const &k, T const &x) { auto p = std::make_shared<stub::node>(); p->val = std::make_shared<stub::holder<T>>(x); g.n->sub[k] = p; }
  template <typename T> requires(stub::leaf<T>) void h5_read(group g, std::string const &k, T &x) { auto it = g.n->sub.find(k); stub::get(it == g.n->sub.end() ? nullptr : it->second->val.get(), x); }
  inline void h5_write(group g, std::string const &k, char const *x) { h5_write(g, k, std::string(x)); }
  template <typename T> requires(!stub::leaf<T>) void h5_write(group g, std::string const &k, std::vector<T> const &v);
  template <typename T> requires(!stub::leaf<T>) void h5_read(group g, std::string const &k, std::vector<T> &v);
  template <typename A, typename B> void h5_write(group g, std::string const &k, std::pair<A, B> const &p);
  template <typename A, typename B> void h5_read(group g, std::string const &k, std::pair<A, B> &p);
  template <typename A, typename B> void h5_write(group g, std::string const &k, std::map<A, B> const &p);
  template <typename A, typename B> void h5_read(group g, std::string const &k, std::map<A, B> &p);
  template <typename... A> void h5_write(group g, std::string const &k, std::variant<A...> const &p);
  template <typename... A> void h5_read(group g, std::string const &k, std::variant<A...> &p);
  template <typename A> void h5_write(group g, std::string const &k, std::optional<A> const &p);
  template <typename A> void h5_read(group g, std::string const &k, std::optional<A> &p);
  template <typename... A> void h5_write(group g, std::string const &k, std::tuple<A...> const &p);
  template <typename... A> void h5_read(group g, std::string const &k, std::tuple<A...> &p);
  template <typename T> void write(group g, std::string const &k, T const &x) { h5_write(g, k, x); }
  template <typename T> void read(group g, std::string const &k, T &x) { h5_read(g, k, x); }
  template <typename T> T read(group g, std::string const &k) { if constexpr (requires { T::h5_read_construct(g, k); }) return T::h5_read_construct(g, k); else { T x; h5_read(g, k, x); return x; } }
  template <typename T> T h5_read(group g, std::string const &k) { return read<T>(g, k); }
  template <typename T> int try_read(group g, std::string const &k, T &x) { if (!g.has_key(k)) return 0; h5_read(g, k, x); return 1; }
  template <typename T> requires(!stub::leaf<T>) void h5_write(group g, std::string const &k, std::vector<T> const &v) { auto s = g.create_group(k); h5_write(s, "#", (long)v.size()); for (size_t i = 0; i < v.size(); ++i) write(s, std::to_string(i), v[i]); }
  template <typename T> requires(!stub::leaf<T>) void h5_read(group g, std::string const &k, std::vector<T> &v) { auto s = g.open_group(k); long n; h5_read(s, "#", n); v.clear(); for (long i = 0; i < n; ++i) v.push_back(read<T>(s, std::to_string(i))); }
  template <typename A, typename B> void h5_write(group g, std::string const &k, std::pair<A, B> const &p) { auto s = g.create_group(k); write(s, "0", p.first); write(s, "1", p.second); }
  template <typename A, typename B> void h5_read(group g, std::string const &k, std::pair<A, B> &p) { auto s = g.open_group(k); read(s, "0", p.first); read(s, "1", p.second); }
  template <typename A, typename B> void h5_write(group g, std::string const &k, std::map<A, B> const &m) { auto s = g.create_group(k); std::vector<std::pair<A, B>> v(m.begin(), m.end()); write(s, "m", v); }
  template <typename A, typename B> void h5_read(group g, std::string const &k, std::map<A, B> &m) { auto s = g.open_group(k); std::vector<std::pair<A, B>> v; read(s, "m", v); m = std::map<A, B>(v.begin(), v.end()); }
  template <typename... A> void h5_write(group g, std::string const &k, std::variant<A...> const &p) { auto s = g.create_group(k); h5_write(s, "i", (long)p.index()); std::visit([&](auto const &x) { write(s, "v", x); }, p); }
  template <typename... A> void h5_read(group g, std::string const &k, std::variant<A...> &p) { auto s = g.open_group(k); long i; h5_read(s, "i", i); long j = 0; (void)((j++ == i ? (p = read<A>(s, "v"), true) : false) || ...); }
  template <typename A> void h5_write(group g, std::string const &k, std::optional<A> const &p) { if (p) write(g, k, *p); }
  template <typename A> void h5_read(group g, std::string const &k, std::optional<A> &p) { if (g.has_key(k)) p = read<A>(g, k); else p.reset(); }
  template <typename... A> void h5_write(group g, std::string const &k, std::tuple<A...> const &p) { auto s = g.create_group(k); long i = 0; std::apply([&](auto const &...x) { (write(s, std::to_string(i++), x), ...); }, p); }
  template <typename... A> void h5_read(group g, std::string const &k, std::tuple<A...> &p) { auto s = g.open_group(k); long i = 0; std::apply([&](auto &...x) { (read(s, std::to_string(i++), x), ...); }, p); }
  template <typename T> T attempt_conversion(T x) { return x; }
  template <typename T> std::vector<std::byte> serialize(T const &x); 
}
