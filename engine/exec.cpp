// irsym: symbolic executor for the compact IR.  See DESIGN.md for the model.
#include "ir.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <set>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <chrono>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
using namespace ir;
typedef Z3_ast A;
static Z3_context Z;
static ir::Module *M;
// ------------------------------------------------------------------ options / statistics
static struct Opt { bool fpmode = false, round = false; u64 maxPaths = 200000; u64 maxInstr = 400000000ull; double maxTime = 600; unsigned qTimeout = 20000; bool verbose = false; u64 maxConc = 4096; double margin = 1e-6; u64 pathInstr = 20000000; bool undefFork = true; bool firstViolation = true; std::string out; bool bv2real = false; bool isum=true; bool lazyfeas = false; std::string dump; unsigned seed=1; } opt;
static struct Stat { u64 paths = 0, killed = 0, instr = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, forks = 0, modelHits = 0, conc = 0, simpDec = 0; double solver = 0; u64 obligations = 0, discharged = 0, trivially = 0, infeasible = 0, undefBr = 0; } st;
static auto T0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct PathEnd { std::string why; bool error; };  // error => inconclusive
struct Retry {};                                   // instruction must be executed again (state was constrained)
[[noreturn]] static void fail(const std::string &s) { throw PathEnd{s, true}; }

// ------------------------------------------------------------------ values
struct Val {
  enum K : u8 { UNDEF, INT, DBL, REAL, FP, AGG } k = UNDEF; u16 w = 0; u64 c = 0; A e = nullptr; A d = nullptr; // REAL: e/d (d may be null = 1)
  std::shared_ptr<std::vector<Val>> a;
  bool conc() const { return k == DBL || (k == INT && !e); }
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val I(u64 v, unsigned w) { Val r; r.k = Val::INT; r.w = w; r.c = v & maskw(w); return r; }
static Val Pv(u64 v) { return I(v, 64); }
static Val D(double x, unsigned w = 64) { Val r; r.k = Val::DBL; r.w = w; memcpy(&r.c, &x, 8); return r; }
static double dval(const Val &v) { double x; memcpy(&x, &v.c, 8); return x; }
static Val AG(std::vector<Val> v) { Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

// z3 helpers
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto &s = m[w]; if (!s) s = Z3_mk_bv_sort(Z, w); return s; }
static Z3_sort boolS, realS, fpS64, fpS32; static A rne;
static A num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, bvs(w)); }
static A tt, ff;
static bool isTrue(A a) { return Z3_get_bool_value(Z, a) == Z3_L_TRUE; }
static bool isFalse(A a) { return Z3_get_bool_value(Z, a) == Z3_L_FALSE; }
static A mkNot(A a) { if (isTrue(a)) return ff; if (isFalse(a)) return tt; if (Z3_get_ast_kind(Z, a) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a))) == Z3_OP_NOT) return Z3_get_app_arg(Z, Z3_to_app(Z, a), 0); return Z3_mk_not(Z, a); }
static A mkAnd(A a, A b) { if (isTrue(a)) return b; if (isTrue(b)) return a; if (isFalse(a) || isFalse(b)) return ff; A x[2] = {a, b}; return Z3_mk_and(Z, 2, x); }
static A mkOr(A a, A b) { if (isFalse(a)) return b; if (isFalse(b)) return a; if (isTrue(a) || isTrue(b)) return tt; A x[2] = {a, b}; return Z3_mk_or(Z, 2, x); }
static A mkIte(A c, A a, A b) { if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a; return Z3_mk_ite(Z, c, a, b); }
static bool isBoolSort(A a) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_BOOL_SORT; }
static Z3_params spar, spoly;
static A simp(A a) { return Z3_simplify_ex(Z, a, spar); }
static A simpPoly(A a) { return Z3_simplify_ex(Z, a, spoly); }
static bool bvNum(A a, u64 &v) { if (!Z3_is_numeral_ast(Z, a)) return false; uint64_t u; if (Z3_get_numeral_uint64(Z, a, &u)) { v = u; return true; } return false; }
// expression of an INT value: Bool for w==1, BV otherwise
static A E(const Val &v) {
  if (v.k == Val::UNDEF) fail("symbolic use of undef");
  if (v.k != Val::INT) fail("integer expression expected");
  if (v.e) return v.e;
  return v.w == 1 ? (v.c ? tt : ff) : num(v.c, v.w);
}
static Val IE(A e, unsigned w) { // make INT from expression, folding constants
  Val r; r.k = Val::INT; r.w = w;
  if (w == 1) { if (isTrue(e)) { r.c = 1; return r; } if (isFalse(e)) { r.c = 0; return r; } r.e = e; return r; }
  u64 v; if (w <= 64 && bvNum(e, v)) { r.c = v; return r; }
  r.e = e; return r;
}
static A asBV(const Val &v) { A e = E(v); return v.w == 1 ? mkIte(e, num(1, 1), num(0, 1)) : e; }

// exact rational numeral for a finite double
static A ratOf(double x) {
  if (x == (double)(i64)x && std::fabs(x) < 9e15) { return Z3_mk_int64(Z, (i64)x, realS); }
  int e; double m = std::frexp(x, &e); i64 mi = (i64)std::ldexp(m, 53); e -= 53; while (e < 0 && !(mi & 1)) { mi >>= 1; e++; }
  A n = Z3_mk_int64(Z, mi, realS); if (e == 0) return n;
  // 2^|e|
  std::string p = "1"; { // decimal string of 2^k
    std::vector<int> dg{1}; for (int i = 0; i < std::abs(e); ++i) { int c = 0; for (auto &q : dg) { q = q * 2 + c; c = q / 10; q %= 10; } if (c) dg.push_back(c); } p.clear(); for (auto it = dg.rbegin(); it != dg.rend(); ++it) p += char('0' + *it); }
  std::string s = std::to_string(mi); 
  if (e < 0) return Z3_mk_numeral(Z, (s + "/" + p).c_str(), realS);
  A x2[2] = {n, Z3_mk_numeral(Z, p.c_str(), realS)}; return simp(Z3_mk_mul(Z, 2, x2));
}
static double numToDouble(A a) {
  if (Z3_is_algebraic_number(Z, a)) a = Z3_get_algebraic_number_lower(Z, a, 30);
  std::string s = Z3_get_numeral_string(Z, a); auto p = s.find('/');
  if (p == std::string::npos) return strtod(s.c_str(), nullptr);
  if (s.size() < 300) { return (double)(strtold(s.substr(0, p).c_str(), nullptr) / strtold(s.substr(p + 1).c_str(), nullptr)); }
  const char *d = Z3_get_numeral_decimal_string(Z, a, 40); return strtod(d, nullptr);
}
static bool isRealNum(A a) { return Z3_is_numeral_ast(Z, a); }
static Val R(A n, A d = nullptr) {
  if (d && isRealNum(d)) { A x = simpPoly(Z3_mk_div(Z, n, d)); n = x; d = nullptr; }
  if (d && isRealNum(n)) { std::string s = Z3_get_numeral_string(Z, n); if (s == "0") d = nullptr; }
  if (d && n == d) { n = Z3_mk_int64(Z, 1, realS); d = nullptr; }
  Val r; r.k = Val::REAL; r.w = 64; r.e = n; r.d = d;
  if (!d && isRealNum(n)) { // representable as double?
    std::string s = Z3_get_numeral_string(Z, n); double x = numToDouble(n);
    if (std::isfinite(x) && (s.size() > 400 || ratOf(x) == n)) return D(x);
    if (s.size() > 400) return D(x);
  }
  return r;
}
static A nume(const Val &v) { if (v.k == Val::DBL) return ratOf(dval(v)); return v.e; }
static A deno(const Val &v) { return v.k == Val::DBL ? nullptr : v.d; }
static A mul2(A a, A b) { if (!a) return b; if (!b) return a; A x[2] = {a, b}; return simpPoly(Z3_mk_mul(Z, 2, x)); }
static A add2(A a, A b) { A x[2] = {a, b}; return simpPoly(Z3_mk_add(Z, 2, x)); }
static A sub2(A a, A b) { A x[2] = {a, b}; return simpPoly(Z3_mk_sub(Z, 2, x)); }
static A fullReal(const Val &v) { A n = nume(v), d = deno(v); return d ? Z3_mk_div(Z, n, d) : n; }
// denominators are kept as products of factors: factor table
static std::map<A, std::vector<A>> facs;  // denominator -> sorted factors
static std::vector<A> &factors(A d) { auto it = facs.find(d); if (it != facs.end()) return it->second; return facs[d] = {d}; }
static A prodOf(std::vector<A> f) { if (f.empty()) return nullptr; std::sort(f.begin(), f.end()); A r = nullptr; for (A x : f) r = mul2(r, x); facs[r] = f; return r; }

// ------------------------------------------------------------------ memory
struct ObjData { std::vector<u8> b; std::vector<u8> m; std::map<u32, std::pair<u32, Val>> cells; }; // m: 0 uninit 1 concrete 2 cell
struct Obj { u64 base = 0, size = 0; std::shared_ptr<ObjData> d; bool ro = false, freed = false; u8 kind = 0; /*0 global 1 stack 2 heap*/ bool arr = false; };
typedef std::shared_ptr<Obj> ObjP;

struct Frame { Func *f = nullptr; std::vector<Val> r; u32 bb = 0, ip = 0; std::vector<u64> allocas; bool ctor = false; std::vector<Val> va; };
struct Exc { u64 obj = 0, ti = 0; int handlers = 0; };
struct Input { std::string name; char kind; unsigned w; A e; };
struct State {
  std::vector<Frame> fr; std::map<u64, ObjP> mem; u64 next = 0x10000000; std::vector<A> pc; std::vector<std::pair<std::string,std::string>> note;
  std::shared_ptr<std::vector<Input>> dummy; std::vector<Input> in; std::map<std::string, int> cnt; u64 instr = 0; Z3_model model = nullptr; size_t modelUpto = 0; std::vector<Exc> caught; Exc inflight; int uncaught = 0; u64 curExc = 0;
  std::vector<std::string> trace; std::map<std::string, u64> excTypeOf; std::set<std::string> seen; std::map<u64,std::string> streams; u64 tick = 0; std::map<u64, int> sigs; 
};
static std::map<u64, ObjP> gmem;  // constant globals, shared
static std::map<u64, Func *> fnAt; static std::map<std::string, u64> extAddr;

struct Viol { std::string id, kind, msg; std::vector<std::tuple<std::string, char, std::string>> in; std::vector<std::string> stack; };
static std::vector<Viol> viols; static std::map<std::string, u64> violCount; static std::map<std::string, u64> assertCnt, reachCnt; static std::map<std::string, u64> errs; static std::map<std::string, u64> ends; static std::set<std::string> extUsed; static std::map<std::string,u64> assumeKill;
static std::vector<State *> work;

// ------------------------------------------------------------------ solver
static std::unordered_map<A, std::shared_ptr<std::set<A>>> varsOf; 
static void collect(A a, std::set<A> &out, std::unordered_set<A> &seen) {
  if (!seen.insert(a).second) return;
  if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return;
  Z3_app p = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, p);
  if (n == 0) { if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p)) == Z3_OP_UNINTERPRETED) out.insert(a); return; }
  if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p)) == Z3_OP_UNINTERPRETED) out.insert(Z3_func_decl_to_ast(Z, Z3_get_app_decl(Z, p)));
  for (unsigned i = 0; i < n; ++i) collect(Z3_get_app_arg(Z, p, i), out, seen);
}
static const std::set<A> &vars(A a) { auto &p = varsOf[a]; if (!p) { p = std::make_shared<std::set<A>>(); std::unordered_set<A> seen; collect(a, *p, seen); } return *p; }
static std::unordered_map<A, int> kindOf; // bit0 bv, bit1 real, bit2 nonlinear, bit3 uf
static int kinds(A a) {
  auto it = kindOf.find(a); if (it != kindOf.end()) return it->second; int r = 0;
  if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) { Z3_app p = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, p); auto sk = Z3_get_sort_kind(Z, Z3_get_sort(Z, a)); auto dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p));
    if (sk == Z3_BV_SORT) r |= 1; if (sk == Z3_REAL_SORT) r |= 2; if (sk == Z3_INT_SORT) r |= 16; if (sk == Z3_FLOATING_POINT_SORT) r |= 32;
    if (n && dk == Z3_OP_UNINTERPRETED) r |= 8; if (dk == Z3_OP_DIV || dk == Z3_OP_POWER) r |= 4; int nn = 0;
    for (unsigned i = 0; i < n; ++i) { A c = Z3_get_app_arg(Z, p, i); r |= kinds(c); if (!Z3_is_numeral_ast(Z, c)) nn++; }
    if (dk == Z3_OP_MUL && nn > 1) r |= 4; }
  return kindOf[a] = r;
}
enum Res { UNSATr, SATr, UNKr };
static std::map<std::vector<A>, std::pair<Res, Z3_model>> qcache;
static Z3_solver inc = nullptr; static std::vector<A> incStack;
static void zerr(Z3_context c, Z3_error_code e) { throw PathEnd{std::string("z3: ") + Z3_get_error_msg(c, e), true}; }
static Res runSolver(Z3_solver s, Z3_model *m) {
  auto t = now(); Z3_lbool r = Z3_solver_check(Z, s); st.solver += now() - t; st.queries++;
  if (r == Z3_L_TRUE) { st.sat++; if (m) { *m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, *m); } return SATr; }
  if (r == Z3_L_FALSE) { st.unsat++; return UNSATr; }
  return UNKr;
}
static Z3_solver freshFor(int kd, unsigned timeout) {
  Z3_solver s;
  if ((kd & 4) && !(kd & (1 | 8 | 16 | 32))) { Z3_tactic t1 = Z3_mk_tactic(Z, "qfnra"); Z3_tactic_inc_ref(Z, t1); s = Z3_mk_solver_from_tactic(Z, t1); }
  else if ((kd & 2) && !(kd & (1 | 4 | 8 | 16 | 32))) { static Z3_symbol l = Z3_mk_string_symbol(Z, "QF_LRA"); s = Z3_mk_solver_for_logic(Z, l); }
  else if ((kd & 1) && !(kd & (2 | 4 | 8 | 16 | 32))) { static Z3_symbol l = Z3_mk_string_symbol(Z, "QF_BV"); s = Z3_mk_solver_for_logic(Z, l); }
  else s = Z3_mk_solver(Z);
  Z3_solver_inc_ref(Z, s); Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), timeout); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); return s;
}
// decide conj(cs); cs is a slice
static std::string ext2smt(const std::vector<A> &cs) { Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); for (A a : cs) Z3_solver_assert(Z, s, a); std::string r = Z3_solver_to_string(Z, s); Z3_solver_dec_ref(Z, s); return r; }
static pid_t fork_() { return ::fork(); }
static Res external(const std::vector<A> &cs, unsigned ms, bool nl) { // portfolio for unknowns: z3-new, cvc5 (verdict only)
  std::string f = "/tmp/irsym." + std::to_string(getpid()) + ".smt2"; { std::ofstream o(f); o << "(set-logic ALL)\n" << ext2smt(cs) << "\n(check-sat)\n"; }
  Res r = UNKr; auto t = now();
  std::string T = std::to_string(ms / 1000 + 1);
  std::string cmd = "exec bash -c 'set +m; (timeout " + T + " z3-new " + f + " 2>/dev/null) & (timeout " + T + " cvc5 " + std::string(nl ? "--nl-cov " : "") + f + " 2>/dev/null) & wait' 2>/dev/null";
  // both solvers run in parallel; the first definite answer counts
  int fd[2]; if (pipe(fd)) return UNKr; pid_t pid = fork_();
  if (pid == 0) { setpgid(0, 0); dup2(fd[1], 1); close(fd[0]); close(fd[1]); execl("/bin/sh", "sh", "-c", cmd.c_str(), (char *)nullptr); _exit(127); }
  close(fd[1]); { FILE *p = fdopen(fd[0], "r"); char buf[256]; while (r == UNKr && p && fgets(buf, sizeof buf, p)) { if (!strncmp(buf, "unsat", 5)) r = UNSATr; else if (!strncmp(buf, "sat", 3)) r = SATr; } if (p) fclose(p); }
  if (pid > 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); int stt; waitpid(pid, &stt, 0); }
  unlink(f.c_str()); st.solver += now() - t; st.queries++; if (r == SATr) st.sat++; if (r == UNSATr) st.unsat++; return r;
}
static Res decide(std::vector<A> cs, Z3_model *m, bool tryHard) {
  std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  auto it = qcache.find(cs); if (it != qcache.end() && (it->second.first != UNKr || !tryHard)) { if (m && it->second.first == SATr) { *m = it->second.second; } if (it->second.first != SATr || !m || *m) return it->second.first; }
  int kd = 0; for (A a : cs) kd |= kinds(a);
  Z3_model mm = nullptr; Res r = UNKr;
  bool useInc = !(kd & 4) && !(kd & 2);
  if (useInc) {
    if (!inc) { inc = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, inc); Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), std::min(opt.qTimeout, 4000u)); Z3_solver_set_params(Z, inc, p); }
    size_t k = 0; while (k < incStack.size() && k < cs.size() && incStack[k] == cs[k]) k++;
    if (incStack.size() > k) { Z3_solver_pop(Z, inc, incStack.size() - k); incStack.resize(k); }
    for (; k < cs.size(); ++k) { Z3_solver_push(Z, inc); Z3_solver_assert(Z, inc, cs[k]); incStack.push_back(cs[k]); }
    r = runSolver(inc, &mm);
  }
  if (r == UNKr) { Z3_solver s = freshFor(kd, tryHard ? opt.qTimeout : std::min(opt.qTimeout, 5000u)); for (A a : cs) Z3_solver_assert(Z, s, a); r = runSolver(s, &mm); Z3_solver_dec_ref(Z, s); }
  if (r == UNKr && tryHard) { static double ext = 0; double left = opt.maxTime - now(), t0 = now(); unsigned ms = (unsigned)(1000 * std::max(5.0, std::min(left - 20, ext < 300 ? 90.0 : 15.0))); Res r2 = external(cs, ms, kd & 4); ext += now() - t0; if (r2 == UNSATr) r = UNSATr;
    else if (r2 == SATr) { Z3_solver s = freshFor(kd, ms); for (A a : cs) Z3_solver_assert(Z, s, a); r = runSolver(s, &mm); Z3_solver_dec_ref(Z, s); } }
  if (r == UNKr) { st.unknown++; if (!opt.dump.empty()) { std::ofstream o(opt.dump + "/unk" + std::to_string(st.unknown) + ".smt2"); o << ext2smt(cs) << "(check-sat)\n"; } }
  qcache[cs] = {r, mm}; if (m) *m = mm; return r;
}
// slice of pc relevant to a
static std::vector<A> slice(const std::vector<A> &pc, A a) {
  std::set<A> v = vars(a); std::vector<bool> in(pc.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); ++i) if (!in[i]) { auto &w = vars(pc[i]); bool hit = false; for (A x : w) if (v.count(x)) { hit = true; break; } if (hit) { in[i] = true; v.insert(w.begin(), w.end()); ch = true; } } }
  std::vector<A> r; for (size_t i = 0; i < pc.size(); ++i) if (in[i]) r.push_back(pc[i]); return r;
}
static Res sat(State &s, A cond, Z3_model *m = nullptr, bool hard = false) {
  cond = simp(cond); if (isFalse(cond)) { st.simpDec++; return UNSATr; } if (isTrue(cond) && !m) return SATr;
  auto cs = slice(s.pc, cond); cs.push_back(cond); return decide(cs, m, hard);
}
static bool evalIn(Z3_model m, A a, A &out) { return Z3_model_eval(Z, m, a, true, &out); }
static void addPC(State &s, A c) {
  c = simp(c); if (isTrue(c)) return;
  if (Z3_get_ast_kind(Z, c) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, c))) == Z3_OP_AND) { Z3_app p = Z3_to_app(Z, c); for (unsigned i = 0; i < Z3_get_app_num_args(Z, p); ++i) addPC(s, Z3_get_app_arg(Z, p, i)); return; }
  for (A x : s.pc) if (x == c) return; s.pc.push_back(c);
}
// can cond be true / false in s
static void feas(State &s, A cond, bool &t, bool &f) {
  cond = simp(cond); if (isTrue(cond)) { t = true; f = false; return; } if (isFalse(cond)) { t = false; f = true; return; }
  for (A x : s.pc) { if (x == cond) { t = true; f = false; return; } }
  A nc = simp(mkNot(cond)); for (A x : s.pc) if (x == nc) { t = false; f = true; return; }
  Res a = sat(s, cond); if (a == UNSATr) { t = false; f = true; return; }
  Res b = sat(s, nc); t = true; f = b != UNSATr;
}
static State *fork(State &s) { auto *n = new State(s); st.forks++; return n; }

// full model of pc (all slices)
static bool fullModel(const std::vector<A> &pc, std::vector<Z3_model> &ms, std::vector<std::set<A>> &vs, bool &unk) {
  std::vector<A> left = pc; unk = false;
  while (!left.empty()) { A a = left.back(); auto sl = slice(left, a); bool has = false; for (A x : sl) has |= x == a; if (!has) sl.push_back(a); std::set<A> v; for (A x : sl) { auto &w = vars(x); v.insert(w.begin(), w.end()); }
    Z3_model m = nullptr; Res r = decide(sl, &m, true); if (r == UNSATr) return false; if (r == UNKr) { unk = true; m = nullptr; } if (m) { ms.push_back(m); vs.push_back(v); }
    std::vector<A> nl; for (A x : left) if (std::find(sl.begin(), sl.end(), x) == sl.end()) nl.push_back(x); left = nl; }
  return true;
}
static std::vector<std::string> stackOf(State &s) { std::vector<std::string> r; for (auto it = s.fr.rbegin(); it != s.fr.rend() && r.size() < 12; ++it) { u32 ln = 0; if (it->bb < it->f->bb.size()) { auto &b = it->f->bb[it->bb]; u32 k = it->ip ? it->ip - 1 : 0; if (k < b.ins.size()) ln = b.ins[k].line; } r.push_back(demangle(it->f->name).substr(0, 160) + ":" + std::to_string(ln)); } return r; }
static bool record(State &s, const std::string &id, const std::string &kind, const std::string &msg, const std::vector<A> &pc) {
  std::vector<Z3_model> ms; std::vector<std::set<A>> vs; bool unk; if (!fullModel(pc, ms, vs, unk)) return false;
  violCount[id]++; if (violCount[id] > 6) return true;
  Viol v; v.id = id; v.kind = kind; v.msg = msg + (unk ? " (partial model)" : ""); v.stack = stackOf(s);
  for (auto &in : s.in) { std::string val = "0"; Z3_model m = nullptr; for (size_t i = 0; i < ms.size(); ++i) if (vs[i].count(in.e)) m = ms[i];
    if (m) { A o; if (evalIn(m, in.e, o)) { if (in.kind == 'r') { char b[64]; snprintf(b, 64, "%.17g", numToDouble(o)); val = b; } else if (in.kind == 'b') val = isTrue(o) ? "1" : "0"; else if (in.kind == 'f' && Z3_fpa_is_numeral_nan(Z, o)) val = "nan"; else if (in.kind == 'f' && Z3_fpa_is_numeral_inf(Z, o)) val = Z3_fpa_is_numeral_negative(Z, o) ? "-inf" : "inf"; else if (in.kind == 'f') { A ub; evalIn(m, Z3_mk_fpa_to_ieee_bv(Z, in.e), ub); u64 x = 0; bvNum(ub, x); double q; memcpy(&q, &x, 8); char b[64]; snprintf(b, 64, "%.17g", q); val = b; } else val = Z3_get_numeral_string(Z, o); } }
    v.in.push_back({in.name, in.kind, val}); }
  viols.push_back(v); return true;
}
static void killPath(const std::string &why) { throw PathEnd{why, false}; }
static void memViol(State &s, const std::string &msg) { if (!record(s, "memory", "memory", msg, s.pc)) throw PathEnd{"infeasible", false}; throw PathEnd{"memory violation", false}; }

// concretise an INT value by forking over its feasible values
static u64 conc(State &s, Val &v, const char *what) {
  if (v.k == Val::UNDEF) { memViol(s, std::string("use of uninitialised value: ") + what); }
  if (v.k == Val::AGG || v.k == Val::REAL || v.k == Val::FP) fail(std::string("concretise non-integer: ") + what);
  if (v.k == Val::DBL) return v.c;
  if (!v.e) return v.c;
  A e = asBV(v); A se = simp(e); u64 k; if (bvNum(se, k)) return k;
  Z3_model m = nullptr; A tru = Z3_mk_eq(Z, se, se); (void)tru; auto cs = slice(s.pc, se); if (cs.empty()) { // unconstrained
    Z3_solver q = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, q); Z3_solver_assert(Z, q, Z3_mk_bvule(Z, se, se)); runSolver(q, &m); Z3_solver_dec_ref(Z, q); if (!m) fail("concretise"); }
  else { Res r = decide(cs, &m, true); if (r == UNSATr) throw PathEnd{"infeasible", false}; if (r != SATr || !m) fail("concretise: solver unknown"); }
  A o; evalIn(m, se, o); if (!bvNum(o, k)) fail("concretise: no numeral");
  st.conc++; A eq = Z3_mk_eq(Z, se, o); A ne = simp(mkNot(eq)); Res r2 = sat(s, ne);
  if (r2 != UNSATr) { State *n = fork(s); n->fr.back().ip--; addPC(*n, ne); work.push_back(n); }
  addPC(s, eq); return k;
}
static bool concBool(State &s, A c) { // decide by forking (re-executing the instruction in the other branch)
  bool t, f; feas(s, c, t, f); if (t && !f) return true; if (f && !t) return false;
  State *n = fork(s); n->fr.back().ip--; addPC(*n, mkNot(c)); work.push_back(n); addPC(s, c); return true;
}

// ------------------------------------------------------------------ memory access
static ObjP lookup(State &s, u64 addr) {
  auto it = s.mem.upper_bound(addr); if (it != s.mem.begin()) { --it; if (addr >= it->second->base && addr < it->second->base + std::max<u64>(1, it->second->size)) return it->second; }
  auto g = gmem.upper_bound(addr); if (g != gmem.begin()) { --g; if (addr >= g->second->base && addr < g->second->base + std::max<u64>(1, g->second->size)) return g->second; }
  return nullptr;
}
static u64 allocate(State &s, u64 size, u8 kind, u64 align = 16) {
  s.next = (s.next + 31 + align) / align * align; auto o = std::make_shared<Obj>(); o->base = s.next; o->size = size; o->kind = kind; o->d = std::make_shared<ObjData>(); o->d->b.assign(size, 0); o->d->m.assign(size, 0); s.mem[o->base] = o; s.next += size + 32; return o->base;
}
static ObjP writable(State &s, ObjP o) { auto &p = s.mem[o->base]; if (!p) { p = std::make_shared<Obj>(*o); p->d = std::make_shared<ObjData>(*o->d); return p; } if (p.use_count() > 2 || p->d.use_count() > 1) { auto n = std::make_shared<Obj>(*p); n->d = std::make_shared<ObjData>(*p->d); p = n; } return p; }
static ObjP access(State &s, u64 addr, u64 size, bool w) {
  ObjP o = lookup(s, addr);
  if (!o) { char b[128]; snprintf(b, 128, "%s of %llu bytes at invalid address 0x%llx", w ? "write" : "read", (unsigned long long)size, (unsigned long long)addr); memViol(s, b); }
  if (o->freed) memViol(s, w ? "write after free" : "read after free");
  if (addr + size > o->base + o->size) { char b[160]; snprintf(b, 160, "out of bounds %s: offset %llu size %llu in object of %llu bytes", w ? "write" : "read", (unsigned long long)(addr - o->base), (unsigned long long)size, (unsigned long long)o->size); memViol(s, b); }
  if (w && o->ro) memViol(s, "write to constant");
  return o;
}
static A byteOf(const Val &v, u32 sz, u32 k) { // k-th byte of a cell
  if (v.k == Val::UNDEF) return num(0, 8);
  if (v.k == Val::DBL) { u64 c = v.c; if (v.w == 32) { float f = (float)dval(v); u32 u; memcpy(&u, &f, 4); c = u; } return num((c >> (8 * k)) & 255, 8); }
  if (v.k == Val::FP) return Z3_mk_extract(Z, 8 * k + 7, 8 * k, Z3_mk_fpa_to_ieee_bv(Z, v.e));
  if (v.k != Val::INT) fail("byte access to a symbolic real");
  if (v.w == 1) { return k == 0 ? Z3_mk_zero_ext(Z, 7, asBV(v)) : num(0, 8); }
  A e = E(v); unsigned w = v.w; if (w < sz * 8) e = Z3_mk_zero_ext(Z, sz * 8 - w, e); return Z3_mk_extract(Z, 8 * k + 7, 8 * k, e);
}
static void evict(ObjData &d, u32 off, u32 size) { // remove cells overlapping [off,off+size), splitting the parts outside
  auto it = d.cells.lower_bound(off > 64 ? off - 64 : 0);
  while (it != d.cells.end() && it->first < off + size) {
    u32 o = it->first, sz = it->second.first; if (o + sz <= off) { ++it; continue; }
    Val v = it->second.second; it = d.cells.erase(it);
    for (u32 k = 0; k < sz; ++k) { u32 p = o + k; if (p >= off && p < off + size) { d.m[p] = 0; continue; }
      if (v.k == Val::REAL || v.k == Val::AGG) { d.m[p] = 0; continue; }
      A b = simp(byteOf(v, sz, k)); u64 c; if (bvNum(b, c)) { d.b[p] = c; d.m[p] = 1; } else { d.m[p] = 2; d.cells[p] = {1u, IE(b, 8)}; } }
    it = d.cells.lower_bound(off > 64 ? off - 64 : 0);
    if (o < off) it = d.cells.lower_bound(off);
  }
}
static void storeRaw(State &s, u64 addr, const Val &v, const Type *t);
static void storeScalar(State &s, u64 addr, const Val &v0, u32 size) {
  Val v = v0; if (v.k == Val::AGG) { u64 o = 0; for (auto &x : *v.a) { storeScalar(s, addr + o, x, size / v.a->size()); o += size / v.a->size(); } return; }
  ObjP o = writable(s, access(s, addr, size, true)); u32 off = addr - o->base; ObjData &d = *o->d; evict(d, off, size);
  if (v.k == Val::UNDEF) { for (u32 k = 0; k < size; ++k) d.m[off + k] = 0; return; }
  if (v.k == Val::INT && !v.e && v.w <= 64) { u64 c = v.c; for (u32 k = 0; k < size; ++k) { d.b[off + k] = k < 8 ? (c >> (8 * k)) & 255 : 0; d.m[off + k] = 1; } return; }
  if (v.k == Val::DBL) { if (size == 16) { d.cells[off] = {size, v}; for (u32 k = 0; k < size; ++k) d.m[off + k] = 2; return; } u64 c = v.c; if (size == 4) { float f = (float)dval(v); u32 u; memcpy(&u, &f, 4); c = u; } for (u32 k = 0; k < size; ++k) { d.b[off + k] = (c >> (8 * k)) & 255; d.m[off + k] = 1; } return; }
  if (size > 64) fail("huge symbolic cell");
  d.cells[off] = {size, v}; for (u32 k = 0; k < size; ++k) d.m[off + k] = 2;
}
static Val toType(const Val &v, const Type *t) { // reinterpret bits
  if (v.k == Val::UNDEF || v.k == Val::AGG) return v;
  if (t->k == TK::Flt) {
    if (v.k == Val::REAL) { Val r = v; return r; }
    if (v.k == Val::FP || (v.k == Val::DBL && v.w == t->w)) return v;
    if (v.k == Val::INT && !v.e) { if (t->w == 64) { Val r; r.k = Val::DBL; r.w = 64; r.c = v.c; return r; } float f; u32 u = v.c; memcpy(&f, &u, 4); return D(f, 32); }
    if (v.k == Val::DBL) return v;
    if (v.k == Val::INT && opt.fpmode) { Val r; r.k = Val::FP; r.w = t->w; r.e = Z3_mk_fpa_to_fp_bv(Z, E(v), t->w == 64 ? fpS64 : fpS32); return r; }
    fail("symbolic integer bits read as floating point");
  } else { unsigned w = t->k == TK::Ptr ? 64 : t->w;
    if (v.k == Val::DBL) { if (v.w == 32) { float f = (float)dval(v); u32 u; memcpy(&u, &f, 4); return I(u, w); } return I(v.c, w); }
    if (v.k == Val::FP) return IE(Z3_mk_fpa_to_ieee_bv(Z, v.e), v.w);
    if (v.k == Val::REAL) return v; // flows through integer registers
    if (v.w == w) return v; 
    if (w == 1) { if (!v.e) return I(v.c & 1, 1); return IE(Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, E(v)), num(1, 1)), 1); }
    if (w < v.w) { if (!v.e) return I(v.c, w); return IE(simp(Z3_mk_extract(Z, w - 1, 0, E(v))), w); }
    return IE(Z3_mk_zero_ext(Z, w - v.w, asBV(v)), w);
  }
}
static Val loadScalar(State &s, u64 addr, u32 size, const Type *t) {
  ObjP o = access(s, addr, size, false); u32 off = addr - o->base; ObjData &d = *o->d;
  bool allC = true, allU = true; for (u32 k = 0; k < size; ++k) { if (d.m[off + k] != 1) allC = false; if (d.m[off + k] != 0) allU = false; }
  if (allU) return Val();
  if (allC && size <= 8) { u64 c = 0; for (u32 k = 0; k < size; ++k) c |= (u64)d.b[off + k] << (8 * k); return toType(I(c, size * 8), t); }
  auto it = d.cells.find(off);
  if (it != d.cells.end() && it->second.first == size) { return toType(it->second.second, t); }
  if (size == 16 || size == 32) { // packed words
    bool real = false; for (u32 k = 0; k < size; k += 8) { auto q = d.cells.find(off + k); if (q != d.cells.end() && q->second.first == 8 && q->second.second.k != Val::INT) real = true; }
    bool anyU = false; for (u32 k = 0; k < size; ++k) anyU |= d.m[off + k] == 0;
    if (real || anyU || allC) { static Type t64; t64.k = TK::Int; t64.w = 64; t64.size = 8; std::vector<Val> v; for (u32 k = 0; k < size; k += 8) v.push_back(loadScalar(s, addr + k, 8, &t64)); return AG(v); } }
  // compose bytes
  A e = nullptr; u64 cv = 0; bool c = true; int undefd = 0;
  for (u32 k = 0; k < size; ++k) { A b; u32 p = off + k;
    if (d.m[p] == 1) b = num(d.b[p], 8); else if (d.m[p] == 0) { undefd++; b = num(0, 8); }
    else { auto q = d.cells.upper_bound(p); --q; b = byteOf(q->second.second, q->second.first, p - q->first); }
    e = e ? Z3_mk_concat(Z, b, e) : b; }
  (void)cv; (void)c; Val r = IE(simp(e), size * 8); return toType(r, t);
}
static Val loadRaw(State &s, u64 addr, const Type *t) {
  if (t->k == TK::Agg || t->k == TK::Vec) { std::vector<Val> v; for (size_t i = 0; i < t->el.size(); ++i) v.push_back(loadRaw(s, addr + t->off[i], t->el[i])); return AG(v); }
  return loadScalar(s, addr, t->size, t);
}
static void storeRaw(State &s, u64 addr, const Val &v, const Type *t) {
  if (t->k == TK::Agg || t->k == TK::Vec) { for (size_t i = 0; i < t->el.size(); ++i) storeRaw(s, addr + t->off[i], v.k == Val::AGG ? (*v.a)[i] : Val(), t->el[i]); return; }
  storeScalar(s, addr, v, t->size);
}
static void copyMem(State &s, u64 dst, u64 src, u64 n) {
  if (!n) return; ObjP so = access(s, src, n, false); ObjP dob = access(s, dst, n, true); (void)dob;
  auto sd = so->d; u32 so_ = src - so->base; // snapshot (shared) so overlapping is fine
  std::shared_ptr<ObjData> snap = sd; if (so->base == dob->base) snap = std::make_shared<ObjData>(*sd);
  ObjP w = writable(s, dob); ObjData &d = *w->d; u32 o = dst - w->base; evict(d, o, n);
  std::memcpy(&d.b[o], &snap->b[so_], n); std::memcpy(&d.m[o], &snap->m[so_], n);
  for (u64 k = 0; k < n;) { if (d.m[o + k] == 2) { auto q = snap->cells.upper_bound(so_ + k); --q; u32 co = q->first, cs = q->second.first;
      if (co >= so_ && co + cs <= so_ + n) { d.cells[co - so_ + o] = q->second; k = co - so_ + cs; }
      else { if (q->second.second.k == Val::REAL) { d.m[o + k] = 0; k++; } else { A b = simp(byteOf(q->second.second, cs, so_ + k - co)); u64 c; if (bvNum(b, c)) { d.b[o + k] = c; d.m[o + k] = 1; } else d.cells[o + k] = {1u, IE(b, 8)}; k++; } } }
    else k++; }
}
// symbolic address -> candidate concrete addresses
static bool sameKind(const Val &a, const Val &b) { auto n = [](const Val &v) { return v.k == Val::DBL || v.k == Val::REAL ? 1 : v.k == Val::INT ? 2 : 0; }; return n(a) && n(a) == n(b) && (n(a) == 1 || a.w == b.w); }
static Val iteVal(State &s, A c, const Val &a, const Val &b) {
  if (isTrue(c)) return a; if (isFalse(c)) return b;
  if (a.k == Val::INT && b.k == Val::INT) { if (!a.e && !b.e && a.c == b.c) return a; if (a.w == 1) return IE(mkOr(mkAnd(c, E(a)), mkAnd(mkNot(c), E(b))), 1); return IE(mkIte(c, E(a), E(b)), a.w); }
  if (opt.fpmode && (a.k == Val::FP || a.k == Val::DBL) && (b.k == Val::FP || b.k == Val::DBL)) { auto fe = [&](const Val &v) { return v.k == Val::FP ? v.e : v.w == 64 ? Z3_mk_fpa_numeral_double(Z, dval(v), fpS64) : Z3_mk_fpa_numeral_float(Z, (float)dval(v), fpS32); }; Val r; r.k = Val::FP; r.w = a.w; r.e = mkIte(c, fe(a), fe(b)); return r; }
  if ((a.k == Val::REAL || a.k == Val::DBL) && (b.k == Val::REAL || b.k == Val::DBL)) {
    if (a.k == Val::DBL && b.k == Val::DBL && a.c == b.c) return a;
    if ((a.k == Val::DBL && !std::isfinite(dval(a))) || (b.k == Val::DBL && !std::isfinite(dval(b))) || deno(a) != deno(b)) return concBool(s, c) ? a : b;
    return R(mkIte(c, nume(a), nume(b)), deno(a)); }
  return concBool(s, c) ? a : b;
}
static bool candidates(State &s, Val &p, u64 acc, std::vector<u64> &out) { // true if enumerated completely within one object, small
  A e = simp(E(p)); u64 k; if (bvNum(e, k)) { out = {k}; return true; }
  std::vector<A> extra; 
  while (out.size() < 64) { std::vector<A> cs = slice(s.pc, e); cs.insert(cs.end(), extra.begin(), extra.end()); Z3_model m = nullptr; if (cs.empty()) return false; Res r = decide(cs, &m, true); if (r == UNSATr) return true; if (r != SATr || !m) return false; A o; evalIn(m, e, o); if (!bvNum(o, k)) return false; out.push_back(k); extra.push_back(simp(mkNot(Z3_mk_eq(Z, e, o)))); }
  return false;
}
static Val loadSym(State &s, Val &p, const Type *t) {
  std::vector<u64> c; if (t->k != TK::Agg && t->k != TK::Vec && candidates(s, p, t->size, c) && c.size() > 1) {
    bool ok = true; ObjP o0 = lookup(s, c[0]); for (u64 a : c) { ObjP o = lookup(s, a); if (!o || o != o0 || o->freed || a + t->size > o->base + o->size) ok = false; }
    if (ok) { std::vector<Val> v; for (u64 a : c) { v.push_back(loadRaw(s, a, t)); if (v.back().k == Val::UNDEF || !sameKind(v[0], v.back())) { ok = false; break; } if (deno(v[0]) != deno(v.back()) ) { ok = false; break; } if ((v.back().k == Val::DBL && !std::isfinite(dval(v.back())))) { ok = false; break; } }
      if (ok) { Val r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = iteVal(s, simp(Z3_mk_eq(Z, E(p), num(c[i], 64))), v[i], r); return r; } } }
  u64 a = conc(s, p, "address of load"); return loadRaw(s, a, t);
}
static void storeSym(State &s, const Val &v, Val &p, const Type *t) {
  std::vector<u64> c; if (t->k != TK::Agg && t->k != TK::Vec && v.k != Val::UNDEF && candidates(s, p, t->size, c) && c.size() > 1) {
    bool ok = true; ObjP o0 = lookup(s, c[0]); for (u64 a : c) { ObjP o = lookup(s, a); if (!o || o != o0 || o->freed || o->ro || a + t->size > o->base + o->size) ok = false; }
    if (ok) { std::vector<Val> ov; for (u64 a : c) { ov.push_back(loadRaw(s, a, t)); if (ov.back().k == Val::UNDEF || !sameKind(ov.back(), v) || deno(ov.back()) != deno(v)) { ok = false; break; } }
      if (ok) { std::vector<Val> nv; for (size_t i = 0; i < c.size(); ++i) nv.push_back(iteVal(s, simp(Z3_mk_eq(Z, E(p), num(c[i], 64))), v, ov[i])); for (size_t i = 0; i < c.size(); ++i) storeRaw(s, c[i], nv[i], t); return; } } }
  u64 a = conc(s, p, "address of store"); storeRaw(s, a, v, t);
}

// ------------------------------------------------------------------ constants
static std::vector<Val> cval; static std::vector<u8> cdone;
static u64 symAddr(const std::string &n) {
  auto f = M->byName.find(n); if (f != M->byName.end()) return f->second->addr;
  auto g = M->gByName.find(n); if (g != M->gByName.end()) return M->globals[g->second].addr;
  return 0;
}
static Val zeroOf(const Type *t) { if (t->k == TK::Agg || t->k == TK::Vec) { std::vector<Val> v; for (auto *e : t->el) v.push_back(zeroOf(e)); return AG(v); } if (t->k == TK::Flt) return D(0, t->w); return I(0, t->k == TK::Ptr ? 64 : t->w); }
static const Val &CV(u32 i) {
  if (cdone[i]) return cval[i]; const Const k = M->consts[i]; Val r;
  switch (k.k) {
    case Const::Int: if (!k.wide.empty()) { r.k = Val::INT; r.w = k.t->w; r.e = Z3_mk_numeral(Z, k.wide.c_str(), bvs(k.t->w)); } else if (k.t->k == TK::Int && k.t->w > 64) { r.k = Val::INT; r.w = k.t->w; r.e = num(k.v, k.t->w); } else r = I(k.v, k.t->k == TK::Ptr ? 64 : k.t->w); break;
    case Const::Flt: r = D(k.d, k.t->w); break; case Const::Null: r = Pv(0); break; case Const::Undef: if (k.t->k == TK::Agg || k.t->k == TK::Vec) { std::vector<Val> v(k.t->el.size()); r = AG(v); } break;
    case Const::Zero: r = zeroOf(k.t); break;
    case Const::Agg: { std::vector<Val> v; for (u32 e : k.el) v.push_back(CV(e)); r = AG(v); break; }
    case Const::Func: case Const::Global: r = Pv(symAddr(k.name) + k.off); break;
    case Const::Expr: { std::vector<Val> v; for (u32 e : k.el) v.push_back(CV(e)); switch (k.op) { case PTRTOINT: case INTTOPTR: case BITCAST: r = v[0]; break; case SUB: r = I(v[0].c - v[1].c, v[0].w); break; case ADD: r = I(v[0].c + v[1].c, v[0].w); break; case TRUNC: r = I(v[0].c, k.t->w); break; default: break; } break; }
  }
  cval[i] = r; cdone[i] = 1; return cval[i];
}

// ------------------------------------------------------------------ arithmetic
static Val intop(State &s, Op op, Val a, Val b, unsigned w) {
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) { // poison-like; keep zero annihilators
    if (op == AND && ((a.k == Val::INT && !a.e && a.c == 0) || (b.k == Val::INT && !b.e && b.c == 0))) return I(0, w); return Val(); }
  if (a.k != Val::INT || b.k != Val::INT) {
    if (a.k == Val::REAL && op == XOR && b.conc() && b.c == 0x8000000000000000ull) { return R(simpPoly(Z3_mk_unary_minus(Z, a.e)), a.d); }
    if (a.k == Val::REAL && op == AND && b.conc() && b.c == 0x7fffffffffffffffull) { A n = a.d ? mul2(a.e, a.d) : a.e; bool pos = concBool(s, Z3_mk_ge(Z, n, ratOf(0))); return pos ? a : R(simpPoly(Z3_mk_unary_minus(Z, a.e)), a.d); }
    fail("integer operation on non-integer"); }
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; switch (op) { case ADD: return I(x + y, w); case SUB: return I(x - y, w); case MUL: return I(x * y, w);
      case UDIV: if (!y) memViol(s, "division by zero"); return I(x / y, w); case UREM: if (!y) memViol(s, "division by zero"); return I(x % y, w);
      case SDIV: if (!y) memViol(s, "division by zero"); { i64 X = sx(x, w), Y = sx(y, w); if (Y == -1) return I(0 - (u64)X, w); return I(X / Y, w); } case SREM: if (!y) memViol(s, "division by zero"); { i64 X = sx(x, w), Y = sx(y, w); if (Y == -1) return I(0, w); return I(X % Y, w); }
      case SHL: return y >= w ? Val() : I(x << y, w); case LSHR: return y >= w ? Val() : I(x >> y, w); case ASHR: return y >= w ? Val() : I(sx(x, w) >> y, w); case AND: return I(x & y, w); case OR: return I(x | y, w); case XOR: return I(x ^ y, w); default: break; }
  }
  if (w == 1) { A x = E(a), y = E(b); switch (op) { case AND: case MUL: return IE(mkAnd(x, y), 1); case OR: return IE(mkOr(x, y), 1); case XOR: case ADD: case SUB: if (isTrue(y)) return IE(mkNot(x), 1); if (isTrue(x)) return IE(mkNot(y), 1); if (isFalse(x)) return b; if (isFalse(y)) return a; return IE(Z3_mk_xor(Z, x, y), 1); default: fail("i1 op"); } }
  A x = E(a), y = E(b); bool ac = !a.e, bc = !b.e;
  switch (op) {
    case ADD: if (ac && a.c == 0) return b; if (bc && b.c == 0) return a; return IE(simp(Z3_mk_bvadd(Z, x, y)), w);
    case SUB: if (bc && b.c == 0) return a; return IE(simp(Z3_mk_bvsub(Z, x, y)), w);
    case MUL: return IE(simp(Z3_mk_bvmul(Z, x, y)), w);
    case UDIV: case UREM: case SDIV: case SREM: if (!bc) { if (concBool(s, Z3_mk_eq(Z, y, num(0, w)))) memViol(s, "division by zero"); } else if (b.c == 0) memViol(s, "division by zero");
      return IE(simp(op == UDIV ? Z3_mk_bvudiv(Z, x, y) : op == UREM ? Z3_mk_bvurem(Z, x, y) : op == SDIV ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y)), w);
    case SHL: return IE(simp(Z3_mk_bvshl(Z, x, y)), w); case LSHR: return IE(simp(Z3_mk_bvlshr(Z, x, y)), w); case ASHR: return IE(simp(Z3_mk_bvashr(Z, x, y)), w);
    case AND: if ((ac && a.c == 0) || (bc && b.c == 0)) return I(0, w); return IE(simp(Z3_mk_bvand(Z, x, y)), w);
    case OR: return IE(simp(Z3_mk_bvor(Z, x, y)), w); case XOR: return IE(simp(Z3_mk_bvxor(Z, x, y)), w); default: fail("intop");
  }
}
static Val icmp(State &s, u8 p, const Val &a, const Val &b) {
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
  if (a.k != Val::INT || b.k != Val::INT) {
    if (a.k == Val::DBL || b.k == Val::DBL) { auto bits = [](const Val &v) { return v.k == Val::DBL ? I(v.c, 64) : v; }; if ((a.k == Val::DBL || a.k == Val::INT) && (b.k == Val::DBL || b.k == Val::INT)) return icmp(s, p, bits(a), bits(b)); }
    if (a.k == Val::REAL && b.conc() && ((b.c == 0 && (p == SLT || p == SGE)) || (b.c == ~0ull && (p == SGT || p == SLE)))) { A n = a.d ? mul2(a.e, a.d) : a.e; A neg = Z3_mk_lt(Z, n, ratOf(0)); return IE(p == SLT || p == SLE ? neg : mkNot(neg), 1); } // sign bit
    fail("integer comparison of non-integers"); }
  unsigned w = a.w;
  if (!a.e && !b.e) { u64 x = a.c, y = b.c; i64 X = sx(x, w), Y = sx(y, w); bool r = false; switch (p) { case EQ: r = x == y; break; case NE: r = x != y; break; case UGT: r = x > y; break; case UGE: r = x >= y; break; case ULT: r = x < y; break; case ULE: r = x <= y; break; case SGT: r = X > Y; break; case SGE: r = X >= Y; break; case SLT: r = X < Y; break; case SLE: r = X <= Y; break; } return I(r, 1); }
  if (w == 1) { A x = E(a), y = E(b); if (p == EQ) return IE(simp(Z3_mk_iff(Z, x, y)), 1); if (p == NE) return IE(simp(Z3_mk_xor(Z, x, y)), 1); Val a8 = IE(asBV(a), 2), b8 = IE(asBV(b), 2); a8.w = b8.w = 1; A xx = asBV(a), yy = asBV(b); A r = nullptr; switch (p) { case UGT: r = Z3_mk_bvugt(Z, xx, yy); break; case UGE: r = Z3_mk_bvuge(Z, xx, yy); break; case ULT: r = Z3_mk_bvult(Z, xx, yy); break; case ULE: r = Z3_mk_bvule(Z, xx, yy); break; case SGT: r = Z3_mk_bvsgt(Z, xx, yy); break; case SGE: r = Z3_mk_bvsge(Z, xx, yy); break; case SLT: r = Z3_mk_bvslt(Z, xx, yy); break; default: r = Z3_mk_bvsle(Z, xx, yy); } return IE(simp(r), 1); }
  A x = E(a), y = E(b), r = nullptr;
  switch (p) { case EQ: r = Z3_mk_eq(Z, x, y); break; case NE: r = mkNot(Z3_mk_eq(Z, x, y)); break; case UGT: r = Z3_mk_bvugt(Z, x, y); break; case UGE: r = Z3_mk_bvuge(Z, x, y); break; case ULT: r = Z3_mk_bvult(Z, x, y); break; case ULE: r = Z3_mk_bvule(Z, x, y); break; case SGT: r = Z3_mk_bvsgt(Z, x, y); break; case SGE: r = Z3_mk_bvsge(Z, x, y); break; case SLT: r = Z3_mk_bvslt(Z, x, y); break; case SLE: r = Z3_mk_bvsle(Z, x, y); break; }
  return IE(simp(r), 1);
}
// ---- floating point
static bool special(const Val &v) { return v.k == Val::DBL && !std::isfinite(dval(v)); }
static A fpe(const Val &v) { if (v.k == Val::FP) return v.e; if (v.k == Val::DBL) return v.w == 32 ? Z3_mk_fpa_numeral_float(Z, (float)dval(v), fpS32) : Z3_mk_fpa_numeral_double(Z, dval(v), fpS64); fail("fp expr"); }
static Val FPv(A e, unsigned w) { Val r; r.k = Val::FP; r.w = w; r.e = e; return r; }
static int signOf(State &s, const Val &v) { // forks; -1 0 1
  if (v.k == Val::DBL) { double x = dval(v); return x > 0 ? 1 : x < 0 ? -1 : 0; }
  A n = v.d ? mul2(v.e, v.d) : v.e; A z = ratOf(0); if (concBool(s, Z3_mk_gt(Z, n, z))) return 1; if (concBool(s, Z3_mk_lt(Z, n, z))) return -1; return 0;
}
static Val realAdd(const Val &a, const Val &b, bool sub) {
  A n1 = nume(a), d1 = deno(a), n2 = nume(b), d2 = deno(b); auto c = [&](A x, A y) { return sub ? sub2(x, y) : add2(x, y); };
  if (d1 == d2) return R(c(n1, n2), d1);
  if (!d1) return R(c(mul2(n1, d2), n2), d2); if (!d2) return R(c(n1, mul2(n2, d1)), d1);
  std::vector<A> f1 = factors(d1), f2 = factors(d2), com, r1, r2; std::vector<A> t = f2; for (A x : f1) { auto it = std::find(t.begin(), t.end(), x); if (it != t.end()) { com.push_back(x); t.erase(it); } else r1.push_back(x); } r2 = t;
  // common denominator = com * r1 * r2 ; n1 * r2 , n2 * r1
  std::vector<A> all = com; all.insert(all.end(), r1.begin(), r1.end()); all.insert(all.end(), r2.begin(), r2.end());
  return R(c(mul2(n1, prodOf(r2)), mul2(n2, prodOf(r1))), prodOf(all));
}
static Val realMul(const Val &a, const Val &b) {
  A n1 = nume(a), d1 = deno(a), n2 = nume(b), d2 = deno(b);
  std::vector<A> f; if (d1) f = factors(d1); if (d2) { auto &g = factors(d2); f.insert(f.end(), g.begin(), g.end()); }
  // cancel numerators equal to a factor
  for (A *n : {&n1, &n2}) for (size_t i = 0; i < f.size(); ++i) if (f[i] == *n) { f.erase(f.begin() + i); *n = Z3_mk_int64(Z, 1, realS); break; }
  return R(mul2(n1, n2), f.empty() ? nullptr : prodOf(f));
}
static Val realNeg(const Val &a) { return R(simpPoly(Z3_mk_unary_minus(Z, nume(a))), deno(a)); }
static bool realIsZero(const Val &v, bool &known) { known = false; A n = nume(v); if (isRealNum(n)) { known = true; return std::string(Z3_get_numeral_string(Z, n)) == "0"; } return false; }
static Val realDiv(State &s, const Val &a, const Val &b) { // b symbolic or concrete nonzero finite
  A n1 = nume(a), d1 = deno(a), n2 = nume(b), d2 = deno(b);
  bool known; bool z = realIsZero(b, known); if (!known) z = concBool(s, Z3_mk_eq(Z, n2, ratOf(0)));
  if (z) { int sg = signOf(s, a); return D(sg == 0 ? NAN : sg * INFINITY); }
  // a/b = n1*d2/(d1*n2)
  std::vector<A> f; if (d1) f = factors(d1); A nn = n1; std::vector<A> up; if (d2) up = factors(d2);
  for (size_t i = 0; i < up.size();) { auto it = std::find(f.begin(), f.end(), up[i]); if (it != f.end()) { f.erase(it); up.erase(up.begin() + i); } else ++i; }
  A den = n2; if (den == nn) { nn = Z3_mk_int64(Z, 1, realS); den = nullptr; }
  if (den) { auto it = std::find(up.begin(), up.end(), den); if (it != up.end()) { up.erase(it); den = nullptr; } }
  for (A u : up) nn = mul2(nn, u);
  if (den) { if (isRealNum(den)) { nn = simpPoly(Z3_mk_div(Z, nn, den)); } else { auto g = factors(den); f.insert(f.end(), g.begin(), g.end()); } }
  return R(nn, f.empty() ? nullptr : prodOf(f));
}
static Val fop(State &s, Op op, const Val &a, const Val &b, unsigned w) {
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
  if (a.k == Val::INT || b.k == Val::INT) fail("fp op on int");
  if (a.k == Val::DBL && b.k == Val::DBL) {
    double x = dval(a), y = dval(b), r; std::feclearexcept(FE_ALL_EXCEPT); volatile double vx = x, vy = y;
    if (w == 32) { float fx = x, fy = y; float fr = op == FADD ? fx + fy : op == FSUB ? fx - fy : op == FMUL ? fx * fy : op == FDIV ? fx / fy : std::fmod(fx, fy); return D(fr, 32); }
    switch (op) { case FADD: r = vx + vy; break; case FSUB: r = vx - vy; break; case FMUL: r = vx * vy; break; case FDIV: r = vx / vy; break; default: return D(std::fmod(x, y), w); }
    volatile double vr = r; (void)vr; bool inexact = std::fetestexcept(FE_INEXACT | FE_UNDERFLOW | FE_OVERFLOW);
    if (opt.fpmode || opt.round || !inexact || !std::isfinite(r)) return D(r, w);
  }
  if (opt.fpmode) { A x = fpe(a), y = fpe(b); switch (op) { case FADD: return FPv(Z3_mk_fpa_add(Z, rne, x, y), w); case FSUB: return FPv(Z3_mk_fpa_sub(Z, rne, x, y), w); case FMUL: return FPv(Z3_mk_fpa_mul(Z, rne, x, y), w); case FDIV: return FPv(Z3_mk_fpa_div(Z, rne, x, y), w); default: fail("frem fp"); } }
  if (special(a) || special(b)) { double x = a.k == Val::DBL ? dval(a) : 0, y = b.k == Val::DBL ? dval(b) : 0;
    if (op == FADD || op == FSUB) { if (special(a)) return special(b) ? D(op == FADD ? x + y : x - y) : a; return D(op == FADD ? y : -y); }
    if (std::isnan(x) || std::isnan(y)) return D(NAN);
    if (op == FMUL) { int sa = special(a) ? (x > 0 ? 1 : -1) : signOf(s, a), sb = special(b) ? (y > 0 ? 1 : -1) : signOf(s, b); return sa * sb == 0 ? D(NAN) : D(sa * sb * INFINITY); }
    if (op == FDIV) { if (special(b)) return special(a) ? D(NAN) : D(0.0); int sb = signOf(s, b); return D((x > 0 ? 1 : -1) * (sb < 0 ? -1 : 1) * INFINITY); }
    fail("frem special"); }
  Val r; switch (op) { case FADD: r = realAdd(a, b, false); break; case FSUB: r = realAdd(a, b, true); break; case FMUL: r = realMul(a, b); break; case FDIV: r = realDiv(s, a, b); break; default: fail("symbolic frem"); }
  if (opt.round && r.k == Val::REAL && !r.d && isRealNum(r.e)) return D(numToDouble(r.e), w); // --round: numbers that depend on no input are doubles
  return r;
}
// fp compare; pred = LLVM numbering
static A realCmp(const Val &a, const Val &b, int kind) { // 0 eq, 1 gt, 2 ge, 3 lt, 4 le  (a ? b)
  Val df = realAdd(a, b, true); A n = nume(df); if (kind != 0 && deno(df)) n = mul2(n, deno(df)); A z = ratOf(0);
  switch (kind) { case 0: return simp(Z3_mk_eq(Z, n, z)); case 1: return simp(Z3_mk_gt(Z, n, z)); case 2: return simp(Z3_mk_ge(Z, n, z)); case 3: return simp(Z3_mk_lt(Z, n, z)); default: return simp(Z3_mk_le(Z, n, z)); }
}
static Val fcmp(State &s, u8 p, const Val &a, const Val &b) {
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
  if (a.k == Val::DBL && b.k == Val::DBL) { double x = dval(a), y = dval(b); bool uno = std::isnan(x) || std::isnan(y); bool r = false; if (p == 0) r = false; else if (p == 15) r = true; else if (uno) r = p & 8; else r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y); return I(r, 1); }
  if (opt.fpmode) { A x = fpe(a), y = fpe(b); A uno = mkOr(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)); A r = ff; if (p & 8) r = mkOr(r, uno); if (p & 1) r = mkOr(r, Z3_mk_fpa_eq(Z, x, y)); if (p & 2) r = mkOr(r, Z3_mk_fpa_gt(Z, x, y)); if (p & 4) r = mkOr(r, Z3_mk_fpa_lt(Z, x, y)); return IE(simp(r), 1); }
  if (special(a) || special(b)) { double x = special(a) ? dval(a) : 0, y = special(b) ? dval(b) : 0; return fcmp(s, p, D(x), D(y)); }
  switch (p) { case 0: return I(0, 1); case 15: case 7: return I(1, 1); case 8: return I(0, 1); default: break; }
  bool e = p & 1, g = p & 2, l = p & 4; 
  if (e && !g && !l) return IE(realCmp(a, b, 0), 1); if (g && !e && !l) return IE(realCmp(a, b, 1), 1); if (g && e && !l) return IE(realCmp(a, b, 2), 1); if (l && !e && !g) return IE(realCmp(a, b, 3), 1); if (l && e && !g) return IE(realCmp(a, b, 4), 1);
  if (l && g && !e) return IE(mkNot(realCmp(a, b, 0)), 1); return I(1, 1);
}
// round a symbolic real to an integer by forking; mode 0 trunc 1 floor 2 ceil 3 round-half-away 4 rint
static i64 realToInt(State &s, const Val &v, int mode) {
  A x = fullReal(v); if (deno(v)) { // introduce r with r*d = n to stay polynomial
    static int cnt = 0; A r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("$q" + std::to_string(cnt++)).c_str()), realS); addPC(s, Z3_mk_eq(Z, mul2(r, deno(v)), nume(v))); x = r; }
  auto cs = slice(s.pc, x); Z3_model m = nullptr; if (cs.empty()) cs.push_back(Z3_mk_eq(Z, x, x)), cs.back() = Z3_mk_or(Z, 2, std::vector<A>{Z3_mk_ge(Z, x, ratOf(0)), Z3_mk_lt(Z, x, ratOf(0))}.data());
  Res r = decide(cs, &m, true); if (r == UNSATr) throw PathEnd{"infeasible", false}; if (r != SATr || !m) fail("real to int: unknown");
  A o; evalIn(m, x, o); double dv = numToDouble(o); if (!(std::fabs(dv) < 9e15)) fail("real to int: out of range");
  i64 base = (i64)std::floor(dv); i64 k = base; A cond = nullptr; st.conc++;
  auto between = [&](i64 kk) { A lo, hi; A K = Z3_mk_int64(Z, kk, realS), K1 = Z3_mk_int64(Z, kk + 1, realS), Km = Z3_mk_int64(Z, kk - 1, realS);
    switch (mode) { case 0: if (kk > 0) return mkAnd(Z3_mk_ge(Z, x, K), Z3_mk_lt(Z, x, K1)); if (kk < 0) return mkAnd(Z3_mk_gt(Z, x, Km), Z3_mk_le(Z, x, K)); return mkAnd(Z3_mk_gt(Z, x, Km), Z3_mk_lt(Z, x, K1));
      case 1: return mkAnd(Z3_mk_ge(Z, x, K), Z3_mk_lt(Z, x, K1)); case 2: return mkAnd(Z3_mk_gt(Z, x, Km), Z3_mk_le(Z, x, K));
      case 3: { lo = ratOf(kk - 0.5); hi = ratOf(kk + 0.5); if (kk > 0) return mkAnd(Z3_mk_ge(Z, x, lo), Z3_mk_lt(Z, x, hi)); if (kk < 0) return mkAnd(Z3_mk_gt(Z, x, lo), Z3_mk_le(Z, x, hi)); return mkAnd(Z3_mk_gt(Z, x, lo), Z3_mk_lt(Z, x, hi)); }
      default: { lo = ratOf(kk - 0.5); hi = ratOf(kk + 0.5); if (kk % 2 == 0) return mkAnd(Z3_mk_ge(Z, x, lo), Z3_mk_le(Z, x, hi)); return mkAnd(Z3_mk_gt(Z, x, lo), Z3_mk_lt(Z, x, hi)); } } };
  bool found = false; for (i64 q : {base, base + 1, base - 1}) { A c = simp(between(q)); A ev; evalIn(m, c, ev); if (isTrue(ev)) { k = q; cond = c; found = true; break; } }
  if (!found) fail("real to int: no match");
  A nc = simp(mkNot(cond)); Res r2 = sat(s, nc); if (r2 != UNSATr) { State *n = fork(s); n->fr.back().ip--; addPC(*n, nc); work.push_back(n); }
  addPC(s, cond); return k;
}
// real value of a bit-vector term; sums, differences and constant multiples are decomposed where they provably do not wrap, so that the arithmetic over the reals stays linear in the inputs
static A bvToReal(State &s, A e, unsigned w, bool sg) {
  if (Z3_is_numeral_ast(Z, e)) { std::string t = Z3_get_numeral_string(Z, e); u64 c = std::stoull(t); return Z3_mk_numeral(Z, (sg ? std::to_string((long long)sx(c, w)) : t).c_str(), realS); }
  auto unsat = [&](A c) { return sat(s, simp(c)) == UNSATr; };
  Z3_app ap = Z3_to_app(Z, e); auto k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)); unsigned n = Z3_get_app_num_args(Z, ap); auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
  if (k == Z3_OP_BADD) { A acc = arg(0); bool ok = true; // partial sums, exactly, in two more bits
    { unsigned x = 3; for (unsigned m = n; m > 1; m >>= 1) x++; A sum = nullptr; for (unsigned i = 0; i < n; i++) { A a = sg ? Z3_mk_sign_ext(Z, x, arg(i)) : Z3_mk_zero_ext(Z, x, arg(i)); sum = sum ? Z3_mk_bvadd(Z, sum, a) : a; } A full = sg ? Z3_mk_sign_ext(Z, x, e) : Z3_mk_zero_ext(Z, x, e); ok = unsat(mkNot(Z3_mk_eq(Z, sum, full))); (void)acc; }
    if (ok) { std::vector<A> t; for (unsigned i = 0; i < n; i++) t.push_back(bvToReal(s, arg(i), w, sg)); return Z3_mk_add(Z, n, t.data()); } }
  if (k == Z3_OP_BMUL && n == 2 && Z3_is_numeral_ast(Z, arg(0)) && w <= 64) { u64 c = std::stoull(Z3_get_numeral_string(Z, arg(0))); i64 sc = sx(c, w);
    if (sg ? (sc > -(1l << 40) && sc < (1l << 40)) : c < (1ull << 40)) { A x = sg ? Z3_mk_sign_ext(Z, 44, e) : Z3_mk_zero_ext(Z, 44, e), y = sg ? Z3_mk_sign_ext(Z, 44, arg(1)) : Z3_mk_zero_ext(Z, 44, arg(1)); A cc = sg ? Z3_mk_sign_ext(Z, 44, arg(0)) : Z3_mk_zero_ext(Z, 44, arg(0)); if (sg && sc == -1 ? unsat(Z3_mk_eq(Z, arg(1), Z3_mk_bvshl(Z, num(1, w), num(w - 1, w)))) : unsat(mkNot(Z3_mk_eq(Z, x, Z3_mk_bvmul(Z, cc, y))))) { A m[2] = {Z3_mk_numeral(Z, sg ? std::to_string((long long)sc).c_str() : std::to_string(c).c_str(), realS), bvToReal(s, arg(1), w, sg)}; return Z3_mk_mul(Z, 2, m); } } }
  for (unsigned b : {8u, 16u, 24u, 32u, 42u, 52u}) if (b < w && unsat(mkNot(Z3_mk_bvult(Z, e, num(1ull << b, w))))) return Z3_mk_int2real(Z, Z3_mk_bv2int(Z, Z3_mk_extract(Z, b - 1, 0, e), false));
  A b = Z3_mk_bv2int(Z, e, false); if (!sg || w == 1) return Z3_mk_int2real(Z, b);
  std::string p = w == 64 ? "18446744073709551616" : std::to_string(1ull << w); A x[2] = {b, Z3_mk_numeral(Z, p.c_str(), Z3_mk_int_sort(Z))}; return Z3_mk_int2real(Z, mkIte(Z3_mk_bvslt(Z, e, num(0, w)), Z3_mk_sub(Z, 2, x), b));
}
static Val intToReal(State &s, Val v, bool sg) {
  if (v.k == Val::UNDEF) return Val(); if (v.k != Val::INT) fail("sitofp");
  if (!v.e) return sg ? D((double)sx(v.c, v.w)) : D((double)v.c);
  if (opt.bv2real) return R(simp(bvToReal(s, asBV(v), v.w, sg)));
  u64 k = conc(s, v, "int to fp"); return sg ? D((double)sx(k, v.w)) : D((double)k);
}
static Z3_func_decl ufun(const char *n, int ar) { static std::map<std::string, Z3_func_decl> m; auto &f = m[n]; if (!f) { Z3_sort ss[2] = {realS, realS}; f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, n), ar, ss, realS); } return f; }
static Val symSqrt(State &s, const Val &x) {
  if (x.k == Val::DBL) { double r = std::sqrt(dval(x)); if (!std::isfinite(dval(x)) || dval(x) < 0) return D(r); if (r * r == dval(x) && std::fma(r, r, -dval(x)) == 0) return D(r); if (opt.fpmode) return D(r); return D(r); }
  if (opt.fpmode) return FPv(Z3_mk_fpa_sqrt(Z, rne, x.e), 64);
  A n = x.d ? mul2(x.e, x.d) : x.e; if (concBool(s, Z3_mk_lt(Z, n, ratOf(0)))) return D(NAN);
  // r>=0, r^2 = x : deterministic name per argument so equal arguments share the root
  static std::map<std::pair<A, A>, A> memo; auto &r = memo[{x.e, x.d}]; if (!r) r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("$sqrt" + std::to_string(memo.size())).c_str()), realS);
  addPC(s, Z3_mk_ge(Z, r, ratOf(0))); A r2 = mul2(r, r); addPC(s, Z3_mk_eq(Z, x.d ? mul2(r2, x.d) : r2, x.e)); return R(r);
}
static Val uf(State &s, const char *name, const Val &x) {
  A a = fullReal(x); if (!opt.fpmode) a = simpPoly(a); Z3_func_decl f = ufun(name, 1); A e = Z3_mk_app(Z, f, 1, &a);
  if (!strcmp(name, "exp")) addPC(s, Z3_mk_gt(Z, e, ratOf(0)));
  if (!strcmp(name, "cos") || !strcmp(name, "sin")) { A c = Z3_mk_app(Z, ufun("cos", 1), 1, &a), si = Z3_mk_app(Z, ufun("sin", 1), 1, &a); addPC(s, Z3_mk_eq(Z, add2(mul2(c, c), mul2(si, si)), ratOf(1))); }
  return R(e);
}
static Val castop(State &s, const Instr &in, Val v) {
  if (v.k == Val::UNDEF) return Val(); unsigned w = in.t->k == TK::Ptr ? 64 : in.t->w;
  if (v.k == Val::AGG && in.op != BITCAST) { std::vector<Val> r; Instr x; x.op = in.op; x.t = in.t->el[0]; for (auto &e : *v.a) r.push_back(castop(s, x, e)); return AG(r); }
  switch (in.op) {
    case TRUNC: if (v.k == Val::AGG) fail("trunc of packed"); return toType(v, in.t);
    case ZEXT: if (v.k != Val::INT) fail("zext"); if (!v.e && w <= 64) return I(v.c, w); if (v.w == 1) { A o = w <= 64 ? num(1, w) : Z3_mk_numeral(Z, "1", bvs(w)); A z = w <= 64 ? num(0, w) : Z3_mk_numeral(Z, "0", bvs(w)); return IE(mkIte(E(v), o, z), w); } return IE(Z3_mk_zero_ext(Z, w - v.w, E(v)), w);
    case SEXT: if (v.k != Val::INT) fail("sext"); if (!v.e && w <= 64) return I(sx(v.c, v.w), w); if (v.w == 1) return IE(mkIte(E(v), num(~0ull & maskw(w), w), num(0, w)), w); return IE(Z3_mk_sign_ext(Z, w - v.w, E(v)), w);
    case PTRTOINT: case INTTOPTR: return toType(v, in.t);
    case BITCAST: { if (v.k == Val::AGG) { if (in.t->k == TK::Vec && in.t->el.size() == v.a->size()) { std::vector<Val> r; for (size_t i = 0; i < v.a->size(); ++i) r.push_back(toType((*v.a)[i], in.t->el[i])); return AG(r); } if (in.t->k == TK::Int && in.t->w == 64 * v.a->size()) return v; 
          if (in.t->k == TK::Int && in.t->w<=64) { u64 r=0; unsigned p=0; for (auto&e:*v.a){ if(!e.conc()) fail("bitcast vec"); Val q = e; if (e.k==Val::DBL && e.w==32){ float f=dval(e); u32 u; memcpy(&u,&f,4); q=I(u,32);} r |= q.c<<p; p+=q.w; } return I(r,in.t->w);} fail("bitcast of aggregate"); }
        if (in.t->k == TK::Vec) fail("bitcast to vector"); return toType(v, in.t); }
    case FPEXT: { if (v.k == Val::DBL) { Val r = D(dval(v), w); return r; } if (v.k == Val::REAL) return v; return FPv(Z3_mk_fpa_to_fp_float(Z, rne, v.e, fpS64), 64); }
    case FPTRUNC: { if (v.k == Val::DBL) return D(w == 32 ? (float)dval(v) : dval(v), w); if (v.k == Val::REAL) return v; return FPv(Z3_mk_fpa_to_fp_float(Z, rne, v.e, fpS32), 32); }
    case FPTOSI: case FPTOUI: { bool sg = in.op == FPTOSI; double top = std::ldexp(1.0, sg ? w - 1 : w), bot = sg ? -top : -1; // out of range: the result is undefined
        if (v.k == Val::DBL) { double x = dval(v); if (!(x < top) || !(sg ? (w < 64 ? x > bot - 1 : x >= bot) : x > bot)) return Val(); return I(sg || x < 0 ? (u64)(i64)x : (u64)x, w); }
        if (v.k == Val::FP) { auto fs = Z3_get_sort(Z, v.e); A hi = Z3_mk_fpa_numeral_double(Z, top, fs), lo = Z3_mk_fpa_numeral_double(Z, sg && w < 64 && v.w != 32 ? bot - 1 : bot, fs); bool closed = sg && (w == 64 || v.w == 32); A in = mkAnd(Z3_mk_fpa_lt(Z, v.e, hi), closed ? Z3_mk_fpa_geq(Z, v.e, lo) : Z3_mk_fpa_gt(Z, v.e, lo)); if (!concBool(s, in)) return Val();
          return IE(sg ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), v.e, w) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), v.e, w), w); }
        { A x = fullReal(v); A in = mkAnd(Z3_mk_lt(Z, x, ratOf(top)), sg ? (w < 64 ? Z3_mk_gt(Z, x, ratOf(bot - 1)) : Z3_mk_ge(Z, x, ratOf(bot))) : Z3_mk_gt(Z, x, ratOf(bot))); if (!concBool(s, in)) return Val(); }
        return I((u64)realToInt(s, v, 0), w); }
    case SITOFP: case UITOFP: { bool sg = in.op == SITOFP; if (v.k == Val::INT && v.e && opt.fpmode) { A e = asBV(v); return FPv(sg ? Z3_mk_fpa_to_fp_signed(Z, rne, e, w == 64 ? fpS64 : fpS32) : Z3_mk_fpa_to_fp_unsigned(Z, rne, e, w == 64 ? fpS64 : fpS32), w); } Val r = intToReal(s, v, sg); r.w = w; if (r.k == Val::DBL && w == 32) r = D((float)dval(r), 32); return r; }
    default: fail("cast");
  }
}
#include "builtins.inc"
#include "interp.inc"
