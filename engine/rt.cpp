// Library functions that live in libstdc++.so / compiler-rt, given as IR so that the executor can run them.
#include <string>
#include <list>
#include <map>
#include <unordered_map>
#include <stdexcept>
#include <functional>
#include <new>
#include <variant>
#include <optional>
#include <any>
#include <vector>
extern "C" bool __sym_hash_real(const void *, unsigned long seed, unsigned long *out); // hash of a symbolic real: an arbitrary function of its value
template class std::basic_string<char>;
template std::basic_string<char> std::operator+(const char *, const std::basic_string<char> &);
namespace std {
typedef _Rb_tree_node_base NB;
NB *_Rb_tree_increment(NB *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const NB *_Rb_tree_increment(const NB *x) noexcept { return _Rb_tree_increment(const_cast<NB *>(x)); }
NB *_Rb_tree_decrement(NB *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const NB *_Rb_tree_decrement(const NB *x) noexcept { return _Rb_tree_decrement(const_cast<NB *>(x)); }
// plain (unbalanced) search tree: same ordering semantics
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) noexcept {
  auto repl = [&](NB *u, NB *v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  // leftmost / rightmost
  if (h._M_left == z) { if (z->_M_right) { NB *y = z->_M_right; while (y->_M_left) y = y->_M_left; h._M_left = y; } else h._M_left = z->_M_parent; }
  if (h._M_right == z) { if (z->_M_left) { NB *y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { NB *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next; auto *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const std::size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271, 256279, 520241, 1056323}; for (auto p : pr) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > _M_next_resize) { if (ne + ni >= nb) return {true, _M_next_bkt(std::max<std::size_t>(ne + ni + 1, nb * 2))}; _M_next_resize = nb; return {false, 0}; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { if (n == 8) { unsigned long r; if (__sym_hash_real(p, seed, &r)) return r; } size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw runtime_error("typeid"); }
}
extern "C" {
struct cd { double r, i; };
cd __muldc3(double a, double b, double c, double d) { return {a * c - b * d, a * d + b * c}; }
cd __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
}
extern "C" { double exp(double); double cos(double); double sin(double); double log(double); double atan2(double, double); double hypot(double, double); double sqrt(double); double fabs(double);
double _Complex cexp(double _Complex z) { double a = __real__ z, b = __imag__ z, e = a == 0 ? 1.0 : exp(a); double _Complex r; __real__ r = e * cos(b); __imag__ r = e * sin(b); return r; }
double _Complex clog(double _Complex z) { double _Complex r; __real__ r = log(hypot(__real__ z, __imag__ z)); __imag__ r = atan2(__imag__ z, __real__ z); return r; }
// principal square root
double _Complex csqrt(double _Complex z) { double a = __real__ z, b = __imag__ z, m = hypot(a, b), u = sqrt((m + a) / 2), v = sqrt((m - a) / 2); double _Complex r; __real__ r = u; __imag__ r = (b < 0 || (b == 0 && __builtin_signbit(b))) ? -v : v; return r; }
}
// C library pieces reached through std::stoi and friends
static int errno_cell = 0;
extern "C" int *__errno_location() noexcept { return &errno_cell; }
extern "C" long __my_strtol(char const *p, char **end, int base) noexcept { char const *q = p; while (*q == ' ') ++q; bool neg = false; if (*q == '-' || *q == '+') neg = *q++ == '-'; long v = 0; char const *st = q; while (*q >= '0' && *q <= '9') v = v * 10 + (*q++ - '0'); if (end) *end = (char *)(q == st ? p : q); return neg ? -v : v; }
extern "C" long __isoc23_strtol_(char const *, char **, int) noexcept __asm__("__isoc23_strtol");
extern "C" long __isoc23_strtol_(char const *p, char **e, int b) noexcept { return __my_strtol(p, e, b); }
extern "C" long strtol_(char const *, char **, int) noexcept __asm__("strtol");
extern "C" long strtol_(char const *p, char **e, int b) noexcept { return __my_strtol(p, e, b); }
#include <ctime>
// calendar functions are only used to print a time stamp
static tm tm_cell; extern "C" tm *localtime(const time_t *) noexcept { return &tm_cell; } extern "C" tm *gmtime(const time_t *) noexcept { return &tm_cell; }
