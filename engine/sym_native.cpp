// Native implementation of sym.h: replays one assignment against the natively compiled code.
// usage: prog ENTRY INPUTFILE ; lines of INPUTFILE: "name value".  exit 0 = held, 1 = violated, 3 = assumption failed
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <dlfcn.h>
#include <exception>
#include <unistd.h>
static std::map<std::string, std::string> in; static std::map<std::string, int> cnt; static int bad = 0;
static const char *get(const char *n) { std::string k = std::string(n) + "#" + std::to_string(cnt[n]++); auto it = in.find(k); return it == in.end() ? "0" : it->second.c_str(); }
extern "C" {
uint64_t __sym_int(const char *n, unsigned bits) { uint64_t v = strtoull(get(n), nullptr, 10); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
bool __sym_bool(const char *n) { return atoi(get(n)); }
double __sym_real(const char *n) { return strtod(get(n), nullptr); }
void __sym_assume(bool c) { if (!c) { fprintf(stderr, "ASSUME failed in replay\n"); fflush(0); _exit(bad ? 1 : 3); } }
void __sym_assert(bool c, const char *id) { if (!c) { bad = 1; fprintf(stderr, "VIOL assert %s\n", id); } }
void __sym_assert_close(double a, double b, double tol, const char *id) { if ((std::isnan(a) && std::isnan(b)) || a == b) return; if (!(std::fabs(a - b) <= tol / 2 + 1e-9 * (std::fabs(a) + std::fabs(b)))) { bad = 1; fprintf(stderr, "VIOL close %s: %.17g vs %.17g\n", id, a, b); } }
void __sym_reach(const char *id) { fprintf(stderr, "reach %s\n", id); }
uint64_t __sym_conc(uint64_t v) { return v; }
bool __sym_fork_bool(bool c) { return c; }
void __sym_stop() { fflush(0); _exit(bad); }
bool __sym_native() { return true; }
void __sym_print(const char *n, double v) { fprintf(stderr, "[print] %s %g\n", n, v); }
}
int main(int argc, char **argv) {
  std::ifstream f(argv[2]); std::string n, v; while (f >> n >> v) in[n] = v;
  auto e = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(stderr, "no entry\n"); return 2; }
  std::set_terminate([] { fprintf(stderr, "VIOL exception terminate\n"); fflush(0); _exit(1); });
  try { e(); } catch (std::exception const &x) { fprintf(stderr, "VIOL exception %s\n", x.what()); bad = 1; } catch (...) { fprintf(stderr, "VIOL exception\n"); bad = 1; }
  fflush(0); _exit(bad);
}
