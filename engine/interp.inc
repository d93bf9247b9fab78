// ------------------------------------------------------------------ interpreter
static Val opv(State &s, const Operand &o) { if (o.k == Operand::Const) return CV(o.i); if (o.k == Operand::Reg) return s.fr.back().r[o.i]; fail("operand"); }
static void gotoBlock(State &s, u32 target) {
  Frame &f = s.fr.back(); Block &b = f.f->bb[target];
  if (!b.preds.empty() ) { size_t k = 0; while (k < b.preds.size() && b.preds[k] != f.bb) k++; if (k < b.preds.size() && !b.phis[k].empty()) { std::vector<Val> v; v.reserve(b.phis[k].size()); for (auto &p : b.phis[k]) v.push_back(opv(s, p.second)); size_t i = 0; for (auto &p : b.phis[k]) f.r[p.first] = std::move(v[i++]); } }
  f.bb = target; f.ip = 0;
}
static void popFrame(State &s) { for (u64 a : s.fr.back().allocas) s.mem.erase(a); s.fr.pop_back(); }
static int landing(State &s, const Instr &lp, u64 ti, bool &lands) { // selector
  lands = false;
  for (size_t i = 0; i < lp.a.size(); ++i) { Val c = opv(s, lp.a[i]);
    if (lp.x[i] == 0) { if (c.k == Val::INT && c.c == 0) { lands = true; return 1; } if (derivesFrom(s, ti, c.c)) { lands = true; return (int)(c.c & 0x7fffffff); } }
    else { bool in = false; if (c.k == Val::AGG) for (auto &e : *c.a) if (derivesFrom(s, ti, e.c)) in = true; if (!in) { lands = true; return -1; } } }
  if (lp.isCleanup) { lands = true; return 0; } return 0;
}
static void doThrow(State &s, u64 obj, u64 ti, bool popFirst) {
  s.inflight = {obj, ti, 0}; if (popFirst) popFrame(s);
  while (!s.fr.empty()) { Frame &f = s.fr.back(); Instr &in = f.f->bb[f.bb].ins[f.ip - 1];
    if (in.op == INVOKE) { Instr *lp = nullptr; for (auto &x : f.f->bb[in.x[1]].ins) if (x.op == LANDINGPAD) { lp = &x; break; } if (!lp) fail("no landingpad"); bool l; landing(s, *lp, ti, l); if (l) { gotoBlock(s, in.x[1]); return; } }
    popFrame(s); }
  if (!record(s, "exception", "exception", "uncaught exception " + demangle(tiNameOf(ti)), s.pc)) throw PathEnd{"infeasible", false};
  throw PathEnd{"uncaught exception", false};
}
static void pushCall(State &s, Func *f, std::vector<Val> &args) {
  lower(*M, *f); f->executed = true; Frame fr; fr.f = f; fr.r.resize(f->nregs); for (u32 i = 0; i < f->nargs && i < args.size(); ++i) fr.r[i] = args[i]; s.fr.push_back(std::move(fr)); if (s.fr.size() > 2000) fail("stack depth");
}
static void setDst(State &s, Instr &in, const Val &v) { if (in.dst >= 0) s.fr.back().r[in.dst] = v; }
static Val vecmap(State &s, const Val &a, const Val &b, const std::function<Val(const Val &, const Val &)> &f) { std::vector<Val> r; size_t n = a.k == Val::AGG ? a.a->size() : b.a->size(); for (size_t i = 0; i < n; ++i) r.push_back(f(a.k == Val::AGG ? (*a.a)[i] : Val(), b.k == Val::AGG ? (*b.a)[i] : Val())); return AG(r); }

static void step(State &s) {
  Frame &f = s.fr.back(); Instr &in = f.f->bb[f.bb].ins[f.ip++]; s.instr++; st.instr++;
  switch (in.op) {
    case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: { Val a = opv(s, in.a[0]), b = opv(s, in.a[1]); if (in.t->k == TK::Vec) { unsigned w = in.t->el[0]->w; setDst(s, in, vecmap(s, a, b, [&](const Val &x, const Val &y) { return intop(s, in.op, x, y, w); })); } else setDst(s, in, intop(s, in.op, a, b, in.t->w)); return; }
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: { Val a = opv(s, in.a[0]), b = opv(s, in.a[1]); if (in.t->k == TK::Vec) setDst(s, in, vecmap(s, a, b, [&](const Val &x, const Val &y) { return fop(s, in.op, x, y, in.t->el[0]->w); })); else setDst(s, in, fop(s, in.op, a, b, in.t->w)); return; }
    case FNEG: { Val a = opv(s, in.a[0]); auto neg = [&](const Val &x) -> Val { if (x.k == Val::UNDEF) return x; if (x.k == Val::DBL) return D(-dval(x), x.w); if (x.k == Val::FP) return FPv(Z3_mk_fpa_neg(Z, x.e), x.w); return realNeg(x); }; if (in.t->k == TK::Vec) setDst(s, in, vecmap(s, a, a, [&](const Val &x, const Val &) { return neg(x); })); else setDst(s, in, neg(a)); return; }
    case ICMP: { Val a = opv(s, in.a[0]), b = opv(s, in.a[1]); if (in.t->k == TK::Vec) setDst(s, in, vecmap(s, a, b, [&](const Val &x, const Val &y) { return icmp(s, in.pred, x, y); })); else setDst(s, in, icmp(s, in.pred, a, b)); return; }
    case FCMP: { Val a = opv(s, in.a[0]), b = opv(s, in.a[1]); if (in.t->k == TK::Vec) setDst(s, in, vecmap(s, a, b, [&](const Val &x, const Val &y) { return fcmp(s, in.pred, x, y); })); else setDst(s, in, fcmp(s, in.pred, a, b)); return; }
    case TRUNC: case ZEXT: case SEXT: case FPTRUNC: case FPEXT: case FPTOUI: case FPTOSI: case UITOFP: case SITOFP: case PTRTOINT: case INTTOPTR: case BITCAST: { Val v = castop(s, in, opv(s, in.a[0])); setDst(s, in, v); return; }
    case FREEZE: { Val v = opv(s, in.a[0]); if (v.k == Val::UNDEF && in.t->k != TK::Agg) v = zeroOf(in.t); setDst(s, in, v); return; }
    case ALLOCA: { Val n = opv(s, in.a[0]); u64 k = conc(s, n, "alloca"); u64 p = allocate(s, k * in.imm, 1, std::max<u64>(16, in.x[0])); s.fr.back().allocas.push_back(p); setDst(s, in, Pv(p)); return; }
    case LOAD: { Val p = opv(s, in.a[0]); if (p.k == Val::INT && !p.e) setDst(s, in, loadRaw(s, p.c, in.t)); else { if (p.k == Val::UNDEF) memViol(s, "load through an uninitialised pointer"); setDst(s, in, loadSym(s, p, in.t)); } return; }
    case STORE: { Val v = opv(s, in.a[0]), p = opv(s, in.a[1]); if (p.k == Val::INT && !p.e) storeRaw(s, p.c, v, in.t); else { if (p.k == Val::UNDEF) memViol(s, "store through an uninitialised pointer"); storeSym(s, v, p, in.t); } return; }
    case GEP: { Val p = opv(s, in.a[0]); if (p.k == Val::UNDEF) { setDst(s, in, p); return; } if (in.imm) p = intop(s, ADD, p, Pv(in.imm), 64); for (size_t i = 1; i < in.a.size(); ++i) { Val x = opv(s, in.a[i]); if (x.k == Val::UNDEF) { p = Val(); break; } if (x.w < 64) x = x.e ? IE(Z3_mk_sign_ext(Z, 64 - x.w, asBV(x)), 64) : I(sx(x.c, x.w), 64); p = intop(s, ADD, p, intop(s, MUL, x, Pv(in.x[i - 1]), 64), 64); } setDst(s, in, p); return; }
    case SELECT: { Val c = opv(s, in.a[0]), a = opv(s, in.a[1]), b = opv(s, in.a[2]); if (c.k == Val::AGG) { std::vector<Val> r; for (size_t i = 0; i < c.a->size(); ++i) { Val ci = (*c.a)[i]; r.push_back(ci.conc() ? (ci.c ? (*a.a)[i] : (*b.a)[i]) : iteVal(s, E(ci), (*a.a)[i], (*b.a)[i])); } setDst(s, in, AG(r)); return; }
      if (c.k == Val::UNDEF) { setDst(s, in, Val()); return; } if (!c.e) { setDst(s, in, c.c ? a : b); return; }
      if (a.k == Val::UNDEF && b.k == Val::UNDEF) { setDst(s, in, a); return; } setDst(s, in, iteVal(s, simp(E(c)), a, b)); return; }
    case CALL: case INVOKE: {
      Func *fn = in.fn; std::vector<Val> args; args.reserve(in.a.size()); for (auto &o : in.a) args.push_back(opv(s, o));
      if (!fn && in.callee.k != Operand::None) { Val t = opv(s, in.callee); if (t.k == Val::UNDEF) memViol(s, "call through an uninitialised pointer"); u64 a = conc(s, t, "call target"); auto it = fnAt.find(a); if (it == fnAt.end()) memViol(s, "call of an invalid address"); fn = it->second; }
      if (fn && !fn->decl) { pushCall(s, fn, args); return; }
      const std::string &name = fn ? fn->name : in.calleeName; Val ret;
      if (name == "__asm") { if (in.txt.empty() || in.t->k == TK::Void) return; fail("inline asm"); }
      try { if (!builtin(s, in, name, args, ret)) fail("call to an unmodelled external function " + demangle(name)); } catch (Unwind &) { return; }
      setDst(s, in, ret); if (in.op == INVOKE) gotoBlock(s, in.x[0]); return; }
    case RET: { Val v; if (!in.a.empty()) v = opv(s, in.a[0]); popFrame(s); if (s.fr.empty()) { throw PathEnd{"return", false}; } Frame &c = s.fr.back(); if (c.ip == 0) return; Instr &ci = c.f->bb[c.bb].ins[c.ip - 1]; if (ci.op != CALL && ci.op != INVOKE) return; if (ci.dst >= 0) c.r[ci.dst] = v; if (ci.op == INVOKE) gotoBlock(s, ci.x[0]); return; }
    case BR: gotoBlock(s, in.x[0]); return;
    case CONDBR: { Val c = opv(s, in.a[0]); if (c.k == Val::UNDEF) { memViol(s, "branch on an uninitialised value"); }
      if (!c.e) { gotoBlock(s, in.x[c.c ? 0 : 1]); return; } A e = simp(E(c)); bool t, fl; feas(s, e, t, fl);
      if (t && fl) { State *n = fork(s); addPC(*n, mkNot(e)); gotoBlock(*n, in.x[1]); work.push_back(n); addPC(s, e); gotoBlock(s, in.x[0]); } else gotoBlock(s, in.x[t ? 0 : 1]); return; }
    case SWITCH: { Val v = opv(s, in.a[0]); if (v.k == Val::UNDEF) memViol(s, "switch on an uninitialised value");
      if (!v.e) { for (size_t i = 1; i + 1 < in.x.size(); i += 2) if ((u64)in.x[i] == v.c || (maskw(v.w) & (u64)in.x[i]) == v.c) { gotoBlock(s, in.x[i + 1]); return; } gotoBlock(s, in.x[0]); return; }
      std::map<i64, A> tgt; A none = tt; A e = E(v); for (size_t i = 1; i + 1 < in.x.size(); i += 2) { A q = v.w == 1 ? (in.x[i] & 1 ? e : mkNot(e)) : Z3_mk_eq(Z, e, num(in.x[i] & maskw(v.w), v.w)); none = mkAnd(none, mkNot(q)); auto &t = tgt[in.x[i + 1]]; t = t ? mkOr(t, q) : q; } auto &d = tgt[in.x[0]]; d = d ? mkOr(d, none) : none;
      std::vector<std::pair<i64, A>> ok; for (auto &p : tgt) { A q = simp(p.second); if (sat(s, q) != UNSATr) ok.push_back({p.first, q}); } if (ok.empty()) throw PathEnd{"infeasible", false};
      for (size_t i = 1; i < ok.size(); ++i) { State *n = fork(s); addPC(*n, ok[i].second); gotoBlock(*n, ok[i].first); work.push_back(n); } addPC(s, ok[0].second); gotoBlock(s, ok[0].first); return; }
    case UNREACHABLE: memViol(s, "unreachable code reached (undefined behaviour)");
    case LANDINGPAD: { bool l; int sel = landing(s, in, s.inflight.ti, l); setDst(s, in, AG({Pv(s.inflight.obj), I((u64)sel, 32)})); return; }
    case RESUME: { Val v = opv(s, in.a[0]); u64 obj = (*v.a)[0].c; doThrow(s, obj, s.excTypeOf[std::to_string(obj)], true); return; }
    case EXTRACTVALUE: { Val v = opv(s, in.a[0]); for (i64 k : in.x) { if (v.k == Val::UNDEF) break; v = Val((*v.a)[k]); } setDst(s, in, v); return; }
    case INSERTVALUE: { Val v = opv(s, in.a[0]); std::function<Val(Val, size_t, const Type *)> ins = [&](Val b, size_t d, const Type *t) -> Val { if (d == in.x.size()) return opv(s, in.a[1]); if (b.k != Val::AGG) { std::vector<Val> e(t->el.size()); b = AG(e); } else b.a = std::make_shared<std::vector<Val>>(*b.a); (*b.a)[in.x[d]] = ins((*b.a)[in.x[d]], d + 1, t->el[in.x[d]]); return b; }; setDst(s, in, ins(v, 0, in.t)); return; }
    case EXTRACTELT: { Val v = opv(s, in.a[0]), k = opv(s, in.a[1]); if (v.k == Val::UNDEF) { setDst(s, in, v); return; } u64 i = conc(s, k, "vector index"); setDst(s, in, (*v.a)[i]); return; }
    case INSERTELT: { Val v = opv(s, in.a[0]), x = opv(s, in.a[1]), k = opv(s, in.a[2]); u64 i = conc(s, k, "vector index"); std::vector<Val> e; if (v.k == Val::AGG) e = *v.a; else e.resize(in.t->el.size()); e[i] = x; setDst(s, in, AG(e)); return; }
    case SHUFFLE: { Val a = opv(s, in.a[0]), b = opv(s, in.a[1]); std::vector<Val> r; for (i64 k : in.x) { if (k < 0) r.push_back(Val()); else if (k < in.imm) r.push_back(a.k == Val::AGG ? (*a.a)[k] : Val()); else r.push_back(b.k == Val::AGG ? (*b.a)[k - in.imm] : Val()); } setDst(s, in, AG(r)); return; }
    case CMPXCHG: { Val p = opv(s, in.a[0]), c = opv(s, in.a[1]), n = opv(s, in.a[2]); const Type *t = in.t->el[0]; u64 a = conc(s, p, "cmpxchg"); Val o = loadRaw(s, a, t); Val e = icmp(s, EQ, o, c); bool eq = e.conc() ? e.c : concBool(s, E(e)); if (eq) storeRaw(s, a, n, t); setDst(s, in, AG({o, I(eq, 1)})); return; }
    case ATOMICRMW: { Val p = opv(s, in.a[0]), v = opv(s, in.a[1]); u64 a = conc(s, p, "atomicrmw"); Val o = loadRaw(s, a, in.t); Val n; unsigned w = in.t->w; switch (in.imm) { case 0: n = v; break; case 1: n = intop(s, ADD, o, v, w); break; case 2: n = intop(s, SUB, o, v, w); break; case 3: n = intop(s, AND, o, v, w); break; case 5: n = intop(s, OR, o, v, w); break; case 6: n = intop(s, XOR, o, v, w); break; default: fail("atomicrmw"); } storeRaw(s, a, n, in.t); setDst(s, in, o); return; }
    case FENCE: return;
    default: fail("unsupported instruction " + in.txt);
  }
}
// a path the executor cannot finish: its inputs are handed to the native replay, which alone decides whether they break the property
static void giveUp(State &s, const std::string &why, const std::string &where) { if (now() > opt.maxTime + 30) return; bool lim = why == "stack depth" || why == "instruction limit" || why == "path length limit";
  try { record(s, lim ? "termination" : "path not completed", lim ? "nonterm" : "incomplete", where, s.pc); } catch (PathEnd &) {} catch (std::exception &) {} }
static void runState(State *s) {
  try { for (;;) { step(*s); if ((st.instr & 4095) == 0) { if (now() > opt.maxTime) fail("time limit"); if (st.instr > opt.maxInstr) fail("instruction limit"); } if (s->instr > opt.pathInstr) fail("path length limit"); } }
  catch (PathEnd &e) { if (e.error) { std::string w = e.why; if (!s->fr.empty()) { auto stk = stackOf(*s); w += " [in " + (stk.empty() ? "?" : stk[0]) + (stk.size() > 1 ? " < " + stk[1] : "") + "]"; } errs[w]++; st.killed++; giveUp(*s, e.why, w); } ends[e.error ? "error" : e.why]++; if (e.why == "return" || e.why == "stop") st.paths++; }
  catch (std::exception &e) { errs[std::string("internal: ") + e.what()]++; }
}
static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char **argv) {
  std::string file, entry; 
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--fp") opt.fpmode = true; else if (a == "--round") opt.round = true; else if (a == "--max-paths") opt.maxPaths = std::stoull(nx()); else if (a == "--max-time") opt.maxTime = std::stod(nx()); else if (a == "--qt") opt.qTimeout = std::stoul(nx()); else if (a == "--out") opt.out = nx(); else if (a == "--bv2real") opt.bv2real = true; else if (a == "--dump") opt.dump = nx(); else if (a == "-v") opt.verbose = true; else if (a == "--max-instr") opt.maxInstr = std::stoull(nx()); else if (file.empty()) file = a; else entry = a; }
  Z3_global_param_set("smt.random_seed", "1"); Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr);
  boolS = Z3_mk_bool_sort(Z); realS = Z3_mk_real_sort(Z); fpS64 = Z3_mk_fpa_sort_double(Z); fpS32 = Z3_mk_fpa_sort_single(Z); rne = Z3_mk_fpa_rne(Z); tt = Z3_mk_true(Z); ff = Z3_mk_false(Z);
  spar = Z3_mk_params(Z); Z3_params_inc_ref(Z, spar); spoly = Z3_mk_params(Z); Z3_params_inc_ref(Z, spoly); Z3_params_set_bool(Z, spoly, Z3_mk_string_symbol(Z, "som"), true); Z3_params_set_uint(Z, spoly, Z3_mk_string_symbol(Z, "som_blowup"), 100000);
  M = ir::load(file); if (!M) return 2; cval.resize(M->consts.size() + 100000); cdone.assign(M->consts.size() + 100000, 0);
  u64 fa = 0x100000; for (auto &f : M->funcs) { f->addr = fa; fnAt[fa] = f.get(); fa += 16; }
  static Func fw, fd; fw.name = "__stub_what"; fw.addr = fa; fnAt[fa] = &fw; fa += 16; fd.name = "__stub_noop"; fd.addr = fa; fnAt[fa] = &fd;
  auto *s0 = new State; u64 ga = 0x4000000; for (auto &g : M->globals) { ga = (ga + 63) / 16 * 16; g.addr = ga; ga += std::max<u64>(g.size, g.decl ? 512 : 1) + 32; }
  s0->next = 0x10000000; if (ga > s0->next) s0->next = ga + 4096;
  for (auto &g : M->globals) { auto o = std::make_shared<Obj>(); o->base = g.addr; o->size = g.decl ? std::max<u64>(g.size, 512) : g.size; o->d = std::make_shared<ObjData>(); o->d->b.assign(o->size, 0); o->d->m.assign(o->size, 1); if (g.ro && !g.decl) gmem[g.addr] = o; else s0->mem[g.addr] = o; }
  for (auto &g : M->globals) if (!g.decl) { try { storeRaw(*s0, g.addr, CV(g.init), g.t); } catch (PathEnd &e) { fprintf(stderr, "init %s: %s\n", g.name.c_str(), e.why.c_str()); } }
  for (auto &kv : gmem) { auto it = s0->mem.find(kv.first); if (it != s0->mem.end()) { kv.second = it->second; s0->mem.erase(it); } }
  for (auto &kv : gmem) kv.second->ro = true;
  { u64 p = allocate(*s0, 8, 0); storeScalar(*s0, p, I(0x64726f7773ull, 64), 8); whatStr = p; fakeVT = allocate(*s0, 64, 0); storeScalar(*s0, fakeVT + 16, Pv(fd.addr), 8); storeScalar(*s0, fakeVT + 24, Pv(fd.addr), 8); storeScalar(*s0, fakeVT + 32, Pv(fw.addr), 8); }
  for (auto &g : M->globals) if (g.decl) { if (g.name.compare(0, 4, "_ZTI") == 0) { std::string nm = g.name.substr(4); u64 p = allocate(*s0, nm.size() + 1, 0); for (size_t i = 0; i <= nm.size(); ++i) storeScalar(*s0, p + i, I(i < nm.size() ? nm[i] : 0, 8), 1); storeScalar(*s0, g.addr + 8, Pv(p), 8); }
      if (g.name == "__libc_single_threaded") storeScalar(*s0, g.addr, I(1, 8), 1); if (g.name.compare(0, 4, "_ZTV") == 0) for (int k = 0; k < 8; ++k) storeScalar(*s0, g.addr + 16 + 8 * k, Pv(k == 2 ? fw.addr : fd.addr), 8); }
  if (!M->byName.count(entry) || M->byName[entry]->decl) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  std::vector<Val> none; // run constructors in order, then the entry: push frames in reverse
  pushCall(*s0, M->byName[entry], none); std::stable_sort(M->ctors.begin(), M->ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto it = M->ctors.rbegin(); it != M->ctors.rend(); ++it) if (M->byName.count(it->second) && !M->byName[it->second]->decl) pushCall(*s0, M->byName[it->second], none);
  work.push_back(s0); bool trunc = false;
  while (!work.empty()) { if (st.paths + st.killed > opt.maxPaths || now() > opt.maxTime) { trunc = true; break; } State *s = work.back(); work.pop_back(); runState(s); delete s; }
  if (trunc) for (size_t k = 0; k < 4 && k < work.size(); ++k) giveUp(*work[k], "truncated", "exploration truncated");
  if (trunc) errs["exploration truncated (path or time limit), " + std::to_string(work.size()) + " states left"]++;
  std::ostringstream o; o << "{\"entry\":" << js(entry) << ",\"paths\":" << st.paths << ",\"instr\":" << st.instr << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"simplifier\":" << st.simpDec << ",\"solver_s\":" << st.solver << ",\"wall_s\":" << now() << ",\"forks\":" << st.forks << ",\"concretisations\":" << st.conc << ",\"obligations\":" << st.obligations << ",\"discharged\":" << st.discharged << ",\"concrete\":" << st.trivially;
  auto mp = [&](const char *n, std::map<std::string, u64> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &p : m) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; } o << "}"; };
  mp("errors", errs); mp("ends", ends); mp("asserts", assertCnt); mp("reached", reachCnt); mp("violcount", violCount);
  o << ",\"assert_ids\":["; { std::set<std::string> u(M->assertIds.begin(), M->assertIds.end()); bool f = true; for (auto &x : u) { o << (f ? "" : ",") << js(x); f = false; } } o << "],\"violations\":[";
  bool f1 = true; for (auto &v : viols) { o << (f1 ? "" : ",") << "{\"id\":" << js(v.id) << ",\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"inputs\":["; f1 = false; bool f2 = true; for (auto &t : v.in) { o << (f2 ? "" : ",") << "[" << js(std::get<0>(t)) << ",\"" << std::get<1>(t) << "\"," << js(std::get<2>(t)) << "]"; f2 = false; } o << "],\"stack\":["; f2 = true; for (auto &x : v.stack) { o << (f2 ? "" : ",") << js(x); f2 = false; } o << "]}"; }
  o << "],\"functions\":["; f1 = true; for (auto &f : M->funcs) if (f->executed && f->file.find("/triqs/") != std::string::npos) { o << (f1 ? "" : ",") << "[" << js(demangle(f->name).substr(0, 200)) << "," << js(f->file) << "]"; f1 = false; } o << "]}";
  if (opt.out.empty()) std::cout << o.str() << "\n"; else { std::ofstream q(opt.out); q << o.str(); }
  return 0;
}
