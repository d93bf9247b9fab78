// ------------------------------------------------------------------ runtime / environment models
static void doThrow(State &s, u64 obj, u64 ti, bool popFirst);
static void gotoBlock(State &s, u32 target);
static std::string readStr(State &s, u64 p) { std::string r; static Type t8; t8.k = TK::Int; t8.w = 8; t8.size = 1; for (;;) { Val v = loadScalar(s, p++, 1, &t8); if (!v.conc()) fail("symbolic string"); if (!v.c) break; r += (char)v.c; if (r.size() > 65536) fail("long string"); } return r; }
static Type *ty(unsigned w) { static std::map<unsigned, Type> m; Type &t = m[w]; t.k = TK::Int; t.w = w; t.size = w / 8; return &t; }
static u64 ld64(State &s, u64 p) { Val v = loadScalar(s, p, 8, ty(64)); if (!v.conc() ) fail("symbolic pointer in runtime structure"); return v.c; }
static void emptyString(State &s, u64 p) { storeScalar(s, p, Pv(p + 16), 8); storeScalar(s, p + 8, Pv(0), 8); storeScalar(s, p + 16, I(0, 8), 1); }
// typeinfo relations
static std::map<u64, std::string> tiName; 
static std::string tiNameOf(u64 a) { for (auto &g : M->globals) if (g.addr == a) return g.name; return "?"; }
static const std::map<std::string, std::string> &stdBases() { static std::map<std::string, std::string> m = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}}; return m; }
static bool derivesFrom(State &s, u64 ti, u64 base) {
  if (ti == base) return true; std::string n = tiNameOf(ti), bn = tiNameOf(base); if (n == bn) return true;
  auto it = stdBases().find(n); if (it != stdBases().end()) { // walk by name
    std::string x = n; while (true) { auto q = stdBases().find(x); if (q == stdBases().end()) return false; x = q->second; if (x == bn) return true; } }
  auto g = M->gByName.find(n); if (g == M->gByName.end() || M->globals[g->second].decl) return false;
  std::string vt = tiNameOf(ld64(s, ti) - 16);
  if (vt.find("__si_class") != std::string::npos) return derivesFrom(s, ld64(s, ti + 16), base);
  if (vt.find("__vmi_class") != std::string::npos) { u32 n2 = loadScalar(s, ti + 20, 4, ty(32)).c; for (u32 i = 0; i < n2; ++i) if (derivesFrom(s, ld64(s, ti + 24 + 16 * i), base)) return true; }
  return false;
}
static Val mathConc(const std::string &n, double x) {
  static const std::map<std::string, double (*)(double)> m = {{"exp", std::exp}, {"log", std::log}, {"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"sinh", std::sinh}, {"cosh", std::cosh}, {"tanh", std::tanh}, {"atan", std::atan}, {"asin", std::asin}, {"acos", std::acos}, {"log10", std::log10}, {"log2", std::log2}, {"exp2", std::exp2}, {"cbrt", std::cbrt}, {"tgamma", std::tgamma}, {"lgamma", std::lgamma}, {"expm1", std::expm1}, {"log1p", std::log1p}, {"asinh", std::asinh}, {"acosh", std::acosh}, {"atanh", std::atanh}, {"erf", std::erf}};
  return D(m.at(n)(x));
}
static const std::set<std::string> &mathNames() { static std::set<std::string> m = {"exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "asin", "acos", "log10", "log2", "exp2", "cbrt", "tgamma", "lgamma", "expm1", "log1p", "asinh", "acosh", "atanh", "erf"}; return m; }
static Val math1(State &s, const std::string &n, const Val &x) { if (x.k == Val::REAL && !x.d) { A q = simp(x.e); if (isRealNum(q)) return mathConc(n, numToDouble(q)); } if (x.k == Val::UNDEF) return x; if (x.k == Val::DBL) return mathConc(n, dval(x)); if (opt.fpmode) fail("symbolic " + n + " in fp mode"); return uf(s, strdup(n.c_str()), x); }
static Val roundv(State &s, const Val &x, int mode) { // 0 trunc 1 floor 2 ceil 3 round 4 rint -> real value
  if (x.k == Val::UNDEF) return x; if (x.k == Val::DBL) { double d = dval(x); switch (mode) { case 0: return D(std::trunc(d), x.w); case 1: return D(std::floor(d), x.w); case 2: return D(std::ceil(d), x.w); case 3: return D(std::round(d), x.w); default: return D(std::nearbyint(d), x.w); } }
  if (x.k == Val::FP) { A rm = mode == 0 ? Z3_mk_fpa_rtz(Z) : mode == 1 ? Z3_mk_fpa_rtn(Z) : mode == 2 ? Z3_mk_fpa_rtp(Z) : mode == 3 ? Z3_mk_fpa_rna(Z) : rne; return FPv(Z3_mk_fpa_round_to_integral(Z, rm, x.e), x.w); }
  return D((double)realToInt(s, x, mode)); }
static Val fabsv(State &s, const Val &x) { if (x.k == Val::DBL) return D(std::fabs(dval(x)), x.w); if (x.k == Val::FP) return FPv(Z3_mk_fpa_abs(Z, x.e), x.w); if (x.k == Val::REAL) { A n = x.d ? mul2(x.e, x.d) : x.e; return concBool(s, Z3_mk_ge(Z, n, ratOf(0))) ? x : realNeg(x); } if (x.k == Val::UNDEF) return x; fail("fabs"); }
static Val powv(State &s, const Val &x, const Val &y) {
  if (x.k == Val::DBL && y.k == Val::DBL) return D(std::pow(dval(x), dval(y)));
  if (y.k == Val::DBL && std::floor(dval(y)) == dval(y) && std::fabs(dval(y)) <= 12) { int n = (int)dval(y); Val r = D(1); for (int i = 0; i < std::abs(n); ++i) r = fop(s, FMUL, r, x, 64); if (n < 0) r = fop(s, FDIV, D(1), r, 64); return r; }
  if (y.k == Val::DBL && dval(y) == 0.5) return symSqrt(s, x);
  A a[2] = {fullReal(x), fullReal(y)}; return R(Z3_mk_app(Z, ufun("pow", 2), 2, a));
}
static u64 inputName(State &s, std::string &n) { int k = s.cnt[n]++; n += "#" + std::to_string(k); return k; }
static bool isIos(const std::string &n) {
  static const char *pre[] = {"_ZNSo", "_ZNSi", "_ZNKSo", "_ZNSd", "_ZStls", "_ZStrs", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZSt4endl", "_ZSt16__ostream_insert", "_ZSt5flush", "_ZNSt6locale", "_ZNSt15basic_streambuf", "_ZNKSt15basic_streambuf", "_ZSt9use_facet", "_ZNSt14basic_", "_ZNSt13basic_", "_ZNKSt14basic_", "_ZNKSt5ctype", "_ZSt16__throw_bad_cast"};
  for (auto p : pre) if (!strncmp(n.c_str(), p, strlen(p))) return true;
  if (n.find("stringstreamI") != std::string::npos || n.find("stringbufI") != std::string::npos) return true;
  if (n.find("lsERSo") != std::string::npos || (n.compare(0, 4, "_Zls") == 0 && n.find("RSo") != std::string::npos)) return true;
  if (n.find("RSo") != std::string::npos || n.find("basic_ostream") != std::string::npos) return true;
  return false;
}
static u64 whatStr = 0, fakeVT = 0;
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
struct Unwind {};
static Val bvbin(State &s, const std::string &n, const std::vector<Val> &a, unsigned w);
static bool satisfiesStd(const std::string &n, const char *cls) { return n.find(cls) != std::string::npos; }

static u64 heapAlloc(State &s, Val &sz) { u64 n = conc(s, sz, "allocation size"); if (n > (1ull << 26)) { // absurd request: model as bad_alloc being thrown -> report
    memViol(s, "allocation of " + std::to_string(n) + " bytes"); } return allocate(s, n, 2); }
static void heapFree(State &s, Val &p) {
  u64 a = conc(s, p, "free"); if (!a) return; auto it = s.mem.find(a); if (it == s.mem.end() || it->second->kind != 2) memViol(s, "invalid free"); if (it->second->freed) memViol(s, "double free");
  auto n = std::make_shared<Obj>(*it->second); n->freed = true; n->d = std::make_shared<ObjData>(); it->second = n; }

static void assertClose(State &s, const Val &a, const Val &b, double tol, const std::string &id) {
  assertCnt[id]++; st.obligations++;
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) { record(s, id, "assert", "assertion on uninitialised value", s.pc); return; }
  if (a.k == Val::DBL && b.k == Val::DBL) { double x = dval(a), y = dval(b); if ((std::isnan(x) && std::isnan(y)) || x == y || std::fabs(x - y) <= tol) { st.discharged++; st.trivially++; return; } if (!record(s, id, "assert", "values differ: " + std::to_string(x) + " vs " + std::to_string(y), s.pc)) throw PathEnd{"infeasible", false}; return; }
  if (opt.fpmode) { A x = fpe(a), y = fpe(b); A df = Z3_mk_fpa_abs(Z, Z3_mk_fpa_sub(Z, rne, x, y)); A ok = mkOr(Z3_mk_fpa_eq(Z, x, y), Z3_mk_fpa_leq(Z, df, Z3_mk_fpa_numeral_double(Z, tol, fpS64))); A bad = simp(mkNot(ok)); Res r = sat(s, bad, nullptr, true); if (r == UNSATr) { st.discharged++; return; } if (r == UNKr) fail("assertion undecided: " + id); auto pc = s.pc; pc.push_back(bad); record(s, id, "assert", "values differ", pc); return; }
  if (special(a) || special(b)) { if (!record(s, id, "assert", "infinite or NaN value where a finite one is expected", s.pc)) throw PathEnd{"infeasible", false}; return; }
  Val df = realAdd(a, b, true); A n = nume(df), d = deno(df); A z = ratOf(0);
  if (isRealNum(n) && !d) { double x = numToDouble(n); if (std::fabs(x) <= tol) { st.discharged++; st.trivially++; return; } if (!record(s, id, "assert", "values differ by a constant", s.pc)) throw PathEnd{"infeasible", false}; return; }
  A ne = simp(mkNot(Z3_mk_eq(Z, n, z))); if (isFalse(ne)) { st.discharged++; st.simpDec++; return; }
  Res r = sat(s, ne); if (r == UNSATr) { st.discharged++; return; }
  A t = ratOf(tol); A nd = d ? mul2(n, d) : n, dd = d ? mul2(mul2(d, d), t) : t; A bad = simp(mkOr(Z3_mk_gt(Z, nd, dd), Z3_mk_lt(Z, nd, simpPoly(Z3_mk_unary_minus(Z, dd)))));
  { // prefer a clearly visible difference for the replay
    A big = simp(mkAnd(ne, mkOr(Z3_mk_gt(Z, nd, mul2(dd, ratOf(1000))), Z3_mk_lt(Z, nd, simpPoly(Z3_mk_unary_minus(Z, mul2(dd, ratOf(1000)))))))); if (sat(s, big) == SATr) { auto pc = s.pc; pc.push_back(big); record(s, id, "assert", "values differ", pc); return; } }
  r = sat(s, bad, nullptr, true); if (r == UNSATr) { st.discharged++; return; } if (r == UNKr) { errs["assertion undecided: " + id]++; return; }
  auto pc = s.pc; pc.push_back(bad); record(s, id, "assert", "values differ", pc);
}

// returns true if handled
static bool builtin(State &s, Instr &in, const std::string &n, std::vector<Val> &a, Val &ret) {
  ret = Val();
  if (n[0] == '_' && starts(n, "__sym_")) {
    if (n == "__sym_int") { std::string nm = readStr(s, a[0].c); unsigned w = a[1].c; inputName(s, nm); A e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), w == 1 ? boolS : bvs(w)); s.in.push_back({nm, w == 1 ? 'b' : 'i', w, e}); Val v = IE(e, w); ret = w == 64 ? v : IE(w == 1 ? mkIte(e, num(1, 64), num(0, 64)) : Z3_mk_zero_ext(Z, 64 - w, e), 64); return true; }
    if (n == "__sym_hash_real") { static Z3_func_decl hf = nullptr; Val v; { ObjP o = access(s, a[0].c, 8, false); auto it = o->d->cells.find(a[0].c - o->base); if (it != o->d->cells.end() && it->second.first == 8) v = it->second.second; } bool sy = v.k == Val::REAL; if (sy) { if (!hf) { Z3_sort ss[2] = {realS, bvs(64)}; hf = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, "hash_real"), 2, ss, bvs(64)); } A ar[2] = {simpPoly(fullReal(v)), E(a[1])}; Val h; if (Z3_is_numeral_ast(Z, ar[0]) && a[1].conc()) { double d = Z3_get_numeral_double(Z, ar[0]); unsigned char q[8]; memcpy(q, &d, 8); u64 x = a[1].c; for (int i = 0; i < 8; i++) x = (x ^ q[i]) * 1099511628211ull; h = I(x, 64); } else h = IE(Z3_mk_app(Z, hf, 2, ar), 64); Val po = a[2]; storeScalar(s, po.c, h, 8); } ret = I(sy, 1); return true; }
    if (n == "__sym_bool") { std::string nm = readStr(s, a[0].c); inputName(s, nm); A e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), boolS); s.in.push_back({nm, 'b', 1, e}); ret = IE(e, 1); return true; }
    if (n == "__sym_real") { std::string nm = readStr(s, a[0].c); inputName(s, nm); if (opt.fpmode) { A e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), fpS64); s.in.push_back({nm, 'f', 64, e}); ret = FPv(e, 64); } else { A e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), realS); s.in.push_back({nm, 'r', 64, e}); ret.k = Val::REAL; ret.w = 64; ret.e = e; } return true; }
    if (n == "__sym_assume") { if (a[0].k == Val::UNDEF) fail("assume undef"); A c = E(a[0]); if (isTrue(c)) return true; if (isFalse(c)) { st.infeasible++; throw PathEnd{"assume", false}; } Res r = sat(s, c); if (r == UNSATr) { throw PathEnd{"assume", false}; } addPC(s, c); return true; }
    if (n == "__sym_assert") { std::string id = readStr(s, a[1].c); assertCnt[id]++; st.obligations++;
      if (a[0].k == Val::UNDEF) { if (!record(s, id, "assert", "assertion on uninitialised value", s.pc)) throw PathEnd{"infeasible", false}; throw PathEnd{"violation", false}; }
      A c = E(a[0]); if (isTrue(c)) { st.discharged++; st.trivially++; return true; }
      A nc = simp(mkNot(c)); if (isFalse(nc)) { st.discharged++; st.simpDec++; return true; }
      Res r = sat(s, nc, nullptr, true); if (r == UNSATr) { st.discharged++; addPC(s, c); return true; }
      if (r == UNKr) { errs["assertion undecided: " + id]++; addPC(s, c); return true; }
      auto pc = s.pc; pc.push_back(nc); if (!record(s, id, "assert", "assertion can be false", pc)) { if (isFalse(c)) throw PathEnd{"infeasible", false}; st.discharged++; addPC(s, c); return true; }
      if (isFalse(c) || sat(s, c) == UNSATr) throw PathEnd{"violation", false}; addPC(s, c); return true; }
    if (n == "__sym_assert_close") { assertClose(s, a[0], a[1], dval(a[2]), readStr(s, a[3].c)); return true; }
    if (n == "__sym_reach") { reachCnt[readStr(s, a[0].c)]++; return true; }
    if (n == "__sym_conc") { ret = Pv(conc(s, a[0], "harness choice")); return true; }
    if (n == "__sym_is_conc") { ret = I(a[0].conc(), 1); return true; }
    if (n == "__sym_stop") { throw PathEnd{"stop", false}; }
    if (n == "__sym_fork_bool") { ret = I(concBool(s, E(a[0])), 1); return true; }
    if (n == "__sym_native") { ret = I(0, 1); return true; }
    if (n == "__sym_print") { std::string m = readStr(s, a[0].c); fprintf(stderr, "[print] %s ", m.c_str()); Val &v = a[1]; if (v.k == Val::DBL) fprintf(stderr, "%g\n", dval(v)); else if (v.k == Val::INT && !v.e) fprintf(stderr, "%lld\n", (long long)v.c); else if (v.k == Val::UNDEF) fprintf(stderr, "undef\n"); else { fprintf(stderr, "%s", Z3_ast_to_string(Z, v.e)); if (v.d) fprintf(stderr, "\n   / %s", Z3_ast_to_string(Z, v.d)); fprintf(stderr, "\n"); } return true; }
    fail("unknown " + n);
  }
  // ---- llvm intrinsics
  if (starts(n, "llvm.")) {
    if (starts(n, "llvm.lifetime") || starts(n, "llvm.dbg") || starts(n, "llvm.assume") || starts(n, "llvm.experimental.noalias") || starts(n, "llvm.invariant.end") || starts(n, "llvm.prefetch") || starts(n, "llvm.stackrestore")) return true;
    if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) { u64 d = conc(s, a[0], "memcpy dst"), sr = conc(s, a[1], "memcpy src"), l = conc(s, a[2], "memcpy len"); copyMem(s, d, sr, l); return true; }
    if (starts(n, "llvm.memset")) { u64 d = conc(s, a[0], "memset dst"), l = conc(s, a[2], "memset len"); if (!l) return true; ObjP o = writable(s, access(s, d, l, true)); u32 off = d - o->base; evict(*o->d, off, l); if (a[1].conc()) { memset(&o->d->b[off], a[1].c, l); memset(&o->d->m[off], 1, l); } else if (a[1].k == Val::UNDEF) memset(&o->d->m[off], 0, l); else for (u64 k = 0; k < l; ++k) storeScalar(s, d + k, a[1], 1); return true; }
    if (starts(n, "llvm.expect") || starts(n, "llvm.launder") || starts(n, "llvm.strip") || starts(n, "llvm.ssa.copy")) { ret = a[0]; return true; }
    if (starts(n, "llvm.invariant.start") || starts(n, "llvm.stacksave")) { ret = Pv(0); return true; }
    if (starts(n, "llvm.objectsize")) { ret = I(~0ull, in.t->w); return true; }
    if (starts(n, "llvm.is.constant")) { ret = I(0, 1); return true; }
    if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) { memViol(s, "trap"); }
    if (starts(n, "llvm.threadlocal.address")) { ret = a[0]; return true; }
    if (starts(n, "llvm.eh.typeid.for")) { ret = I(a[0].c & 0x7fffffff, 32); return true; }
    if (starts(n, "llvm.sqrt")) { ret = symSqrt(s, a[0]); return true; }
    if (starts(n, "llvm.fabs")) { ret = fabsv(s, a[0]); return true; }
    if (starts(n, "llvm.floor")) { ret = roundv(s, a[0], 1); return true; } if (starts(n, "llvm.ceil")) { ret = roundv(s, a[0], 2); return true; } if (starts(n, "llvm.trunc")) { ret = roundv(s, a[0], 0); return true; } if (starts(n, "llvm.round.")) { ret = roundv(s, a[0], 3); return true; } if (starts(n, "llvm.rint") || starts(n, "llvm.nearbyint")) { ret = roundv(s, a[0], 4); return true; }
    if (starts(n, "llvm.fma") ) { ret = fop(s, FADD, fop(s, FMUL, a[0], a[1], in.t->w), a[2], in.t->w); return true; }
    if (starts(n, "llvm.pow.")) { ret = powv(s, a[0], a[1]); return true; } if (starts(n, "llvm.powi")) { ret = powv(s, a[0], D((double)sx(conc(s, a[1], "powi"), 32))); return true; }
    for (auto f : {"exp", "log", "sin", "cos", "exp2", "log2", "log10"}) if (starts(n, (std::string("llvm.") + f + ".").c_str())) { ret = math1(s, f, a[0]); return true; }
    if (starts(n, "llvm.ldexp")) { ret = fop(s, FMUL, a[0], D(std::ldexp(1.0, (int)sx(conc(s, a[1], "ldexp"), a[1].w))), 64); return true; }
    if (starts(n, "llvm.copysign")) { if (a[0].k == Val::DBL && a[1].k == Val::DBL) { ret = D(std::copysign(dval(a[0]), dval(a[1])), a[0].w); return true; } Val m = fabsv(s, a[0]); bool neg = a[1].k == Val::DBL ? std::signbit(dval(a[1])) : signOf(s, a[1]) < 0; ret = neg ? fop(s, FMUL, D(-1), m, 64) : m; return true; }
    if (starts(n, "llvm.minnum") || starts(n, "llvm.maxnum") || starts(n, "llvm.minimum") || starts(n, "llvm.maximum")) { bool mn = starts(n, "llvm.min"); Val c = fcmp(s, mn ? 4 : 2, a[0], a[1]); if (c.conc()) { ret = c.c ? a[0] : a[1]; return true; } ret = iteVal(s, E(c), a[0], a[1]); return true; }
    if (starts(n, "llvm.is.fpclass")) { u64 mask = a[1].c; if (a[0].k == Val::DBL) { double x = dval(a[0]); bool r = false; if (std::isnan(x)) r = mask & 3; else if (std::isinf(x)) r = mask & (x < 0 ? 4 : 512); else if (x == 0) r = mask & (std::signbit(x) ? 32 : 64); else if (std::fpclassify(x) == FP_SUBNORMAL) r = mask & (x < 0 ? 16 : 128); else r = mask & (x < 0 ? 8 : 256); ret = I(r, 1); return true; }
      if (a[0].k == Val::REAL) { u64 fin = mask & (8 | 32 | 64 | 256); if (fin == 0 ) { ret = I(0, 1); return true; } if (fin == (8 | 32 | 64 | 256)) { ret = I(1, 1); return true; } int sg = signOf(s, a[0]); ret = I(mask & (sg < 0 ? 8 : sg > 0 ? 256 : 96), 1); return true; }
      A e = a[0].e, r = ff; if (mask & 3) r = mkOr(r, Z3_mk_fpa_is_nan(Z, e)); A ng = Z3_mk_fpa_is_negative(Z, e), ps = Z3_mk_fpa_is_positive(Z, e); if (mask & 4) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_infinite(Z, e))); if (mask & 512) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_infinite(Z, e))); if (mask & 8) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_normal(Z, e))); if (mask & 256) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_normal(Z, e))); if (mask & 16) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_subnormal(Z, e))); if (mask & 128) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_subnormal(Z, e))); if (mask & 32) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_zero(Z, e))); if (mask & 64) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_zero(Z, e))); ret = IE(simp(r), 1); return true; }
    if (starts(n, "llvm.vector.reduce") || starts(n, "llvm.masked")) fail("unsupported intrinsic " + n);
    if (starts(n, "llvm.va_start") || starts(n, "llvm.va_end")) return true;
    unsigned w = a.empty() || a[0].k != Val::INT ? (in.t->k == TK::Int ? in.t->w : 64) : a[0].w; ret = bvbin(s, n, a, w); return true;
  }
  // ---- memory
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { ret = Pv(heapAlloc(s, a[0])); return true; }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { u64 al = conc(s, a[1], "align"); u64 sz = conc(s, a[0], "size"); ret = Pv(allocate(s, sz, 2, std::max<u64>(16, al))); return true; }
  if (n == "aligned_alloc") { ret = Pv(heapAlloc(s, a[1])); return true; }
  if (n == "posix_memalign") { u64 p = heapAlloc(s, a[2]); storeScalar(s, conc(s, a[0], "p"), Pv(p), 8); ret = I(0, 32); return true; }
  if (n == "calloc") { u64 k = conc(s, a[0], "calloc") * conc(s, a[1], "calloc"); Val v = Pv(k); u64 p = heapAlloc(s, v); ObjP o = s.mem[p]; std::fill(o->d->m.begin(), o->d->m.end(), 1); ret = Pv(p); return true; }
  if (n == "free" || starts(n, "_ZdlPv") || starts(n, "_ZdaPv")) { heapFree(s, a[0]); return true; }
  if (n == "realloc") { u64 p = conc(s, a[0], "realloc"); u64 q = heapAlloc(s, a[1]); if (p) { u64 os = lookup(s, p)->size; copyMem(s, q, p, std::min(os, s.mem[q]->size)); heapFree(s, a[0]); } ret = Pv(q); return true; }
  if (n == "memcpy" || n == "memmove") { u64 d = conc(s, a[0], "dst"), sr = conc(s, a[1], "src"), l = conc(s, a[2], "len"); copyMem(s, d, sr, l); ret = a[0]; return true; }
  if (n == "memset") { u64 d = conc(s, a[0], "dst"), l = conc(s, a[2], "len"); Val v = toType(a[1], ty(8)); for (u64 k = 0; k < l; ++k) storeScalar(s, d + k, v, 1); ret = a[0]; return true; }
  if (n == "memcmp" || n == "bcmp") { u64 p = conc(s, a[0], "p"), q = conc(s, a[1], "q"), l = conc(s, a[2], "len"); std::vector<std::pair<Val, Val>> ws; bool sym = false;
    for (u64 k = 0; k < l;) { u64 w = l - k >= 8 ? 8 : 1; Val x = loadScalar(s, p + k, w, ty(8 * w)), y = loadScalar(s, q + k, w, ty(8 * w)); if (x.k == Val::UNDEF || y.k == Val::UNDEF) fail("memcmp on uninitialised bytes"); if (x.k != Val::INT || y.k != Val::INT || x.e || y.e) sym = true; ws.push_back({x, y}); k += w; }
    if (!sym) { for (auto &pr : ws) { u64 X = pr.first.c, Y = pr.second.c; if (X != Y) { if (pr.first.w == 64) { X = __builtin_bswap64(X); Y = __builtin_bswap64(Y); } ret = I(X < Y ? -1 : 1, 32); return true; } } ret = I(0, 32); return true; }
    A all = tt; for (auto &pr : ws) all = mkAnd(all, simp(Z3_mk_eq(Z, asBV(pr.first), asBV(pr.second)))); if (concBool(s, all)) { ret = I(0, 32); return true; }
    if (n == "bcmp") { ret = I(1, 32); return true; }
    auto swp = [](A x, unsigned w) { if (w == 8) return x; A r = Z3_mk_extract(Z, 7, 0, x); for (int b = 1; b < 8; ++b) r = Z3_mk_concat(Z, r, Z3_mk_extract(Z, 8 * b + 7, 8 * b, x)); return simp(r); };
    A lt = ff; for (size_t k = ws.size(); k-- > 0;) { A x = asBV(ws[k].first), y = asBV(ws[k].second); A sx_ = swp(x, ws[k].first.w), sy_ = swp(y, ws[k].first.w); lt = mkOr(simp(Z3_mk_bvult(Z, sx_, sy_)), mkAnd(simp(Z3_mk_eq(Z, x, y)), lt)); }
    ret = IE(simp(mkIte(lt, num(0xffffffffu, 32), num(1, 32))), 32); return true; }
  if (n == "strncmp" || n == "strcmp") { u64 p = conc(s, a[0], "p"), q = conc(s, a[1], "q"), l = n == "strcmp" ? 65536 : conc(s, a[2], "len"); for (u64 k = 0; k < l; ++k) { Val x = loadScalar(s, p + k, 1, ty(8)), y = loadScalar(s, q + k, 1, ty(8)); u64 X = conc(s, x, "memcmp"), Y = conc(s, y, "memcmp"); if (X != Y) { ret = I(X < Y ? -1 : 1, 32); return true; } if (n[0] == 's' && X == 0) break; } ret = I(0, 32); return true; }
  if (n == "strlen") { ret = Pv(readStr(s, conc(s, a[0], "strlen")).size()); return true; }
  if (n == "memchr") { u64 p = conc(s, a[0], "p"), l = conc(s, a[2], "len"); u64 c = conc(s, a[1], "c") & 255; for (u64 k = 0; k < l; ++k) { Val x = loadScalar(s, p + k, 1, ty(8)); if (conc(s, x, "memchr") == c) { ret = Pv(p + k); return true; } } ret = Pv(0); return true; }
  // ---- exceptions
  if (n == "__cxa_allocate_exception") { ret = Pv(heapAlloc(s, a[0])); return true; }
  if (n == "__cxa_free_exception") return true;
  if (n == "__cxa_throw") { s.excTypeOf[std::to_string(a[0].c)] = a[1].c; s.uncaught++; doThrow(s, a[0].c, a[1].c, false); throw Unwind{}; }
  if (n == "__cxa_rethrow") { if (s.caught.empty()) memViol(s, "rethrow without exception"); Exc e = s.caught.back(); s.uncaught++; doThrow(s, e.obj, e.ti, false); throw Unwind{}; }
  if (n == "__cxa_begin_catch") { u64 ti = s.excTypeOf[std::to_string(a[0].c)]; s.caught.push_back({a[0].c, ti, 1}); s.uncaught--; ret = a[0]; return true; }
  if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
  if (n == "_Unwind_Resume") { doThrow(s, a[0].c, s.excTypeOf[std::to_string(a[0].c)], true); throw Unwind{}; }
  if (n == "_ZSt18uncaught_exceptionv") { ret = I(s.uncaught > 0, 1); return true; }
  if (n == "_ZSt19uncaught_exceptionsv") { ret = I(s.uncaught, 32); return true; }
  if (n == "_ZSt17current_exceptionv") { storeScalar(s, a[0].c, Pv(s.caught.empty() ? 0 : s.caught.back().obj), 8); return true; }
  if (n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") { u64 o = ld64(s, a[0].c); s.uncaught++; doThrow(s, o, s.excTypeOf[std::to_string(o)], false); throw Unwind{}; }
  if (starts(n, "_ZNSt15__exception_ptr13exception_ptr") || starts(n, "_ZNKSt15__exception_ptr13exception_ptr")) {
    if (n.find("C1ERKS0_") != std::string::npos || n.find("C2ERKS0_") != std::string::npos || n.find("aSERKS0_") != std::string::npos) { storeScalar(s, a[0].c, Pv(ld64(s, a[1].c)), 8); ret = a[0]; return true; } if (n.find("C1Ev") != std::string::npos || n.find("C2Ev") != std::string::npos) storeScalar(s, a[0].c, Pv(0), 8); if (n.find("4swap") != std::string::npos) { u64 x = ld64(s, a[0].c), y = ld64(s, a[1].c); storeScalar(s, a[0].c, Pv(y), 8); storeScalar(s, a[1].c, Pv(x), 8); } ret = a[0]; return true; }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "__clang_call_terminate" || n == "_ZN10__cxxabiv111__terminateEPFvvE" || n == "__cxa_pure_virtual" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__cxa_bad_typeid") { std::string m = n; if (n == "__assert_fail") m += ": " + readStr(s, a[0].c); if (!record(s, "abort", "abort", m, s.pc)) throw PathEnd{"infeasible", false}; throw PathEnd{"abort", false}; }
  if (n == "exit" || n == "_exit" || n == "quick_exit") throw PathEnd{"exit called", true};
  // std exception classes: construct = set a generic vtable
  if (starts(n, "_ZNSt")) {
    static const char *cls[] = {"13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument", "12length_error", "12domain_error", "11range_error", "14overflow_error", "9exception", "9bad_alloc", "8bad_cast", "17bad_function_call", "20bad_array_new_length"};
    for (auto c : cls) if (n.find(c) == 5) { std::string rest = n.substr(5 + strlen(c)); if (rest[0] == 'C') { storeScalar(s, a[0].c, Pv(fakeVT + 16), 8); } ret = a.empty() ? Val() : a[0]; return true; } }
  if (starts(n, "_ZNKSt") && n.find("4whatEv") != std::string::npos) { ret = Pv(whatStr); return true; }
  if (n == "__stub_what") { ret = Pv(whatStr); return true; }
  if (n == "__stub_noop") return true;
  if (n == "__dynamic_cast") { u64 p = conc(s, a[0], "dynamic_cast"); if (!p) { ret = Pv(0); return true; } u64 vp = ld64(s, p); u64 ti = ld64(s, vp - 8); i64 off = (i64)ld64(s, vp - 16); if (derivesFrom(s, ti, a[2].c)) ret = Pv(p + off); else ret = Pv(0); return true; }
  // ---- C++ runtime
  if (n == "__cxa_guard_acquire") { Val g = loadScalar(s, a[0].c, 1, ty(8)); ret = I(!(g.conc() && g.c), 32); return true; }
  if (n == "__cxa_guard_release") { storeScalar(s, a[0].c, I(1, 8), 1); return true; } if (n == "__cxa_guard_abort") return true;
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit" || starts(n, "pthread_") || n == "fflush" || n == "puts" || n == "printf" || n == "fprintf" || n == "putchar" || n == "fputs" || n == "fputc" || n == "fwrite" || n == "write" || n == "putc" || n == "vprintf") { ret = in.t->k == TK::Int ? I(0, in.t->w) : Val(); return true; }
  if (n == "getenv") { ret = Pv(0); return true; } if (n == "isatty") { ret = I(0, 32); return true; }
  if (n == "snprintf" || n == "vsnprintf" || n == "sprintf") { u64 p = conc(s, a[0], "snprintf"); if (p) { storeScalar(s, p, I('0', 8), 1); storeScalar(s, p + 1, I(0, 8), 1); } ret = I(1, 32); return true; }
  // ---- math
  { std::string b = n; if (b.size() > 2 && b.back() == 'f' && mathNames().count(b.substr(0, b.size() - 1)) && b != "erf") b.pop_back(); if (mathNames().count(b)) { ret = math1(s, b, a[0]); return true; } }
  if (n == "sqrt") { ret = symSqrt(s, a[0]); return true; } if (n == "pow") { ret = powv(s, a[0], a[1]); return true; } if (n == "fabs") { ret = fabsv(s, a[0]); return true; }
  if (n == "floor") { ret = roundv(s, a[0], 1); return true; } if (n == "ceil") { ret = roundv(s, a[0], 2); return true; } if (n == "trunc") { ret = roundv(s, a[0], 0); return true; } if (n == "round") { ret = roundv(s, a[0], 3); return true; } if (n == "rint" || n == "nearbyint") { ret = roundv(s, a[0], 4); return true; }
  if (n == "lround" || n == "llround") { Val r = roundv(s, a[0], 3); if (r.k != Val::DBL) fail("lround"); ret = I((u64)(i64)dval(r), 64); return true; } if (n == "lrint" || n == "llrint") { Val r = roundv(s, a[0], 4); if (r.k != Val::DBL) fail("lrint"); ret = I((u64)(i64)dval(r), 64); return true; }
  if (n == "hypot" || n == "cabs") { auto z0 = [](const Val &v) { return v.k == Val::DBL && dval(v) == 0; }; if (z0(a[0])) { ret = fabsv(s, a[1]); return true; } if (z0(a[1])) { ret = fabsv(s, a[0]); return true; } if (a[0].k == Val::DBL && a[1].k == Val::DBL) ret = D(std::hypot(dval(a[0]), dval(a[1]))); else ret = symSqrt(s, fop(s, FADD, fop(s, FMUL, a[0], a[0], 64), fop(s, FMUL, a[1], a[1], 64), 64)); return true; }
  if (n == "modf") { Val w = roundv(s, a[0], 0); storeRaw(s, conc(s, a[1], "modf"), w, in.t); ret = fop(s, FSUB, a[0], w, 64); return true; }
  if (n == "fmod") { if (a[0].k == Val::DBL && a[1].k == Val::DBL) { ret = D(std::fmod(dval(a[0]), dval(a[1]))); return true; } Val q = fop(s, FDIV, a[0], a[1], 64); i64 k = q.k == Val::DBL ? (i64)std::trunc(dval(q)) : realToInt(s, q, 0); ret = fop(s, FSUB, a[0], fop(s, FMUL, D((double)k), a[1], 64), 64); return true; }
  if (n == "atan2") { if (a[0].k == Val::DBL && a[1].k == Val::DBL) { ret = D(std::atan2(dval(a[0]), dval(a[1]))); return true; } A x[2] = {fullReal(a[0]), fullReal(a[1])}; ret = R(Z3_mk_app(Z, ufun("atan2", 2), 2, x)); return true; }
  if (n == "fmax" || n == "fmin") { Val c = fcmp(s, n == "fmin" ? 4 : 2, a[0], a[1]); ret = c.conc() ? (c.c ? a[0] : a[1]) : iteVal(s, E(c), a[0], a[1]); return true; }
  if (n == "ldexp" || n == "scalbn") { ret = fop(s, FMUL, a[0], D(std::ldexp(1.0, (int)sx(conc(s, a[1], "ldexp"), 32))), 64); return true; }
  if (n == "abs") { ret = bvbin(s, "llvm.abs", a, 32); return true; } if (n == "labs" || n == "llabs") { ret = bvbin(s, "llvm.abs", a, 64); return true; }
  // ---- stream formatting: empty bodies
  if (isIos(n)) { if (n.find("3strEv") != std::string::npos && !a.empty() && in.t->k == TK::Void) { emptyString(s, a[0].c); return true; } if (in.t->k == TK::Ptr) ret = a.empty() ? Pv(0) : a[0]; else if (in.t->k == TK::Int) ret = I(0, in.t->w); else if (in.t->k == TK::Flt) ret = D(0); else if (in.t->k == TK::Agg) ret = zeroOf(in.t); extUsed.insert(n); return true; }
  return false;
}
static Val bvbin(State &s, const std::string &n, const std::vector<Val> &a, unsigned w) {
  auto st5 = [&](const char *p) { return starts(n, (std::string("llvm.") + p).c_str()); };
  for (auto &x : a) if (x.k == Val::UNDEF) return Val();
  auto both = [&](u8 p) { Val c = icmp(s, p, a[0], a[1]); if (c.conc()) return c.c ? a[0] : a[1]; return IE(mkIte(E(c), E(a[0]), E(a[1])), w); };
  if (st5("umin")) return both(ULE); if (st5("umax")) return both(UGE); if (st5("smin")) return both(SLE); if (st5("smax")) return both(SGE);
  if (st5("abs")) { if (!a[0].e) { i64 x = sx(a[0].c, w); return I(x < 0 ? 0 - (u64)x : x, w); } A e = E(a[0]); return IE(mkIte(Z3_mk_bvslt(Z, e, num(0, w)), Z3_mk_bvneg(Z, e), e), w); }
  if (st5("ctpop")) { if (!a[0].e) return I(__builtin_popcountll(a[0].c), w); A e = E(a[0]), r = num(0, w); for (unsigned i = 0; i < w; ++i) r = Z3_mk_bvadd(Z, r, Z3_mk_zero_ext(Z, w - 1, Z3_mk_extract(Z, i, i, e))); return IE(r, w); }
  if (st5("ctlz") || st5("cttz")) { bool lz = st5("ctlz"); if (!a[0].e) { u64 x = a[0].c; if (!x) return I(w, w); return I(lz ? __builtin_clzll(x) - (64 - w) : __builtin_ctzll(x), w); } A e = E(a[0]), r = num(w, w); if (lz) for (unsigned i = 0; i < w; ++i) r = mkIte(Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, e), num(1, 1)), num(w - 1 - i, w), r); else for (int i = w - 1; i >= 0; --i) r = mkIte(Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, e), num(1, 1)), num(i, w), r); return IE(r, w); }
  if (st5("bswap")) { if (!a[0].e) { u64 r = 0; for (unsigned i = 0; i < w / 8; ++i) r |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); return I(r, w); } A e = E(a[0]), r = Z3_mk_extract(Z, 7, 0, e); for (unsigned i = 1; i < w / 8; ++i) r = Z3_mk_concat(Z, r, Z3_mk_extract(Z, 8 * i + 7, 8 * i, e)); return IE(r, w); }
  if (st5("fshl") || st5("fshr")) { Val sh = a[2]; u64 k = conc(s, sh, "funnel shift") % w; bool l = st5("fshl"); if (!k) return l ? a[0] : a[1]; u64 ls = l ? k : w - k, rs = w - ls; Val x = intop(s, SHL, a[0], I(ls, w), w), y = intop(s, LSHR, a[1], I(rs, w), w); return intop(s, OR, x, y, w); }
  if (st5("usub.sat")) { Val c = icmp(s, UGE, a[0], a[1]); Val d = intop(s, SUB, a[0], a[1], w); if (c.conc()) return c.c ? d : I(0, w); return IE(mkIte(E(c), E(d), num(0, w)), w); }
  if (st5("uadd.sat")) { Val d = intop(s, ADD, a[0], a[1], w); Val c = icmp(s, ULT, d, a[0]); if (c.conc()) return c.c ? I(~0ull, w) : d; return IE(mkIte(E(c), num(maskw(w), w), E(d)), w); }
  if (n.find(".with.overflow") != std::string::npos) { bool sg = n[5] == 's'; Op op = n.compare(6, 3, "add") == 0 ? ADD : n.compare(6, 3, "sub") == 0 ? SUB : MUL; Val r = intop(s, op, a[0], a[1], w); Val ov;
    if (a[0].conc() && a[1].conc()) { __int128 x = sg ? (__int128)sx(a[0].c, w) : (__int128)a[0].c, y = sg ? (__int128)sx(a[1].c, w) : (__int128)a[1].c; __int128 z = op == ADD ? x + y : op == SUB ? x - y : x * y; ov = I(z != (sg ? (__int128)sx(r.c, w) : (__int128)r.c), 1); }
    else { A x = E(a[0]), y = E(a[1]); A ok = op == ADD ? mkAnd(Z3_mk_bvadd_no_overflow(Z, x, y, sg), sg ? Z3_mk_bvadd_no_underflow(Z, x, y) : tt) : op == SUB ? (sg ? mkAnd(Z3_mk_bvsub_no_overflow(Z, x, y), Z3_mk_bvsub_no_underflow(Z, x, y, true)) : Z3_mk_bvsub_no_underflow(Z, x, y, false)) : mkAnd(Z3_mk_bvmul_no_overflow(Z, x, y, sg), sg ? Z3_mk_bvmul_no_underflow(Z, x, y) : tt); ov = IE(simp(mkNot(ok)), 1); }
    return AG({r, ov}); }
  fail("unsupported intrinsic " + n);
}
