// LLVM IR -> irsym IR
#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <iostream>
using namespace llvm;
namespace ir {
static LLVMContext C; static std::unique_ptr<llvm::Module> M; static const DataLayout *DL;
static std::map<llvm::Type*, ir::Type*> tmap; static std::map<const llvm::Constant*, u32> cmap;
static ir::Module *mod;
std::string demangle(const std::string &s) { return llvm::demangle(s); }

static const ir::Type *T(llvm::Type *t) {
  auto it = tmap.find(t); if (it != tmap.end()) return it->second;
  auto *r = new ir::Type; tmap[t] = r;
  if (t->isVoidTy()) { r->k = TK::Void; return r; }
  if (t->isLabelTy() || t->isMetadataTy() || t->isTokenTy() || t->isFunctionTy()) { r->k = TK::Other; return r; }
  if (!t->isSized()) { r->k = TK::Other; return r; }
  r->size = DL->getTypeStoreSize(t); r->alloc = DL->getTypeAllocSize(t);
  if (t->isIntegerTy()) { r->k = TK::Int; r->w = t->getIntegerBitWidth(); }
  else if (t->isFloatingPointTy()) { r->k = TK::Flt; r->w = t->getPrimitiveSizeInBits(); }
  else if (t->isPointerTy()) { r->k = TK::Ptr; r->w = 64; }
  else if (auto *s = dyn_cast<StructType>(t)) { r->k = TK::Agg; auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) { r->el.push_back(T(s->getElementType(i))); r->off.push_back(l->getElementOffset(i)); } }
  else if (auto *a = dyn_cast<llvm::ArrayType>(t)) { r->k = TK::Agg; auto *e = T(a->getElementType()); u64 n = a->getNumElements(); if (n > 100000) n = 0; for (u64 i = 0; i < n; ++i) { r->el.push_back(e); r->off.push_back(i * e->alloc); } }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) { r->k = TK::Vec; auto *e = T(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) { r->el.push_back(e); r->off.push_back(i * e->size); } }
  else r->k = TK::Other;
  return r;
}
static u32 K(const Constant *c);
static Const mk(const Constant *c) {
  Const k; k.t = T(c->getType());
  if (auto *ci = dyn_cast<ConstantInt>(c)) { k.k = Const::Int; if (ci->getBitWidth() <= 64) k.v = ci->getZExtValue(); else { SmallString<64> s; ci->getValue().toString(s, 10, false); k.wide = s.str().str(); } return k; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { k.k = Const::Flt; APFloat f = cf->getValueAPF(); bool li; if (c->getType()->isX86_FP80Ty()) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); k.d = c->getType()->isFloatTy() ? (double)f.convertToFloat() : f.convertToDouble(); return k; }
  if (isa<ConstantPointerNull>(c)) { k.k = Const::Null; return k; }
  if (isa<UndefValue>(c)) { k.k = Const::Undef; return k; }
  if (isa<ConstantAggregateZero>(c)) { k.k = Const::Zero; return k; }
  if (auto *f = dyn_cast<Function>(c)) { k.k = Const::Func; k.name = f->getName().str(); return k; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { k.k = Const::Global; k.name = g->getName().str(); return k; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { return mk(ga->getAliasee()); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { k.k = Const::Agg; for (unsigned i = 0; i < cd->getNumElements(); ++i) k.el.push_back(K(cd->getElementAsConstant(i))); return k; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { k.k = Const::Agg; for (auto &o : ca->operands()) k.el.push_back(K(cast<Constant>(o))); return k; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0); auto *g = cast<GEPOperator>(ce);
      if (g->accumulateConstantOffset(*DL, off)) { Const b = mk(cast<Constant>(g->getPointerOperand())); b.off += off.getSExtValue(); b.t = k.t; if (b.k == Const::Null) { b.k = Const::Int; b.v = b.off; } return b; }
    }
    k.k = Const::Expr;
    switch (ce->getOpcode()) { case Instruction::PtrToInt: k.op = PTRTOINT; break; case Instruction::IntToPtr: k.op = INTTOPTR; break; case Instruction::BitCast: k.op = BITCAST; break; case Instruction::Trunc: k.op = TRUNC; break;
      case Instruction::Sub: k.op = SUB; break; case Instruction::Add: k.op = ADD; break; case Instruction::ICmp: k.op = ICMP; k.v = ce->getPredicate(); break; default: k.op = UNSUPPORTED; }
    for (auto &o : ce->operands()) k.el.push_back(K(cast<Constant>(o)));
    return k;
  }
  k.k = Const::Undef; return k;
}
static u32 K(const Constant *c) { auto it = cmap.find(c); if (it != cmap.end()) return it->second; Const k = mk(c); u32 i = mod->consts.size(); mod->consts.push_back(k); cmap[c] = i; return i; }

static bool strArg(const Value *v, std::string &out) {
  auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts()); if (!g || !g->hasInitializer()) return false;
  if (auto *cd = dyn_cast<ConstantDataArray>(g->getInitializer())) if (cd->isCString()) { out = cd->getAsCString().str(); return true; }
  return false;
}
Module *load(const std::string &file) {
  SMDiagnostic err; M = parseIRFile(file, err, C); if (!M) { err.print("irsym", errs()); return nullptr; }
  DL = &M->getDataLayout(); mod = new Module;
  for (auto &g : M->globals()) { Global G; G.name = g.getName().str(); auto *t = g.getValueType(); G.t = T(t); G.size = t->isSized() ? DL->getTypeAllocSize(t) : 8; G.align = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 1); G.decl = g.isDeclaration() ; G.ro = g.isConstant();
    if (g.getName() == "llvm.global_ctors") { if (auto *ca = dyn_cast<ConstantArray>(g.getInitializer())) for (auto &o : ca->operands()) { auto *s = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(s->getOperand(1))) mod->ctors.push_back({(u32)cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f->getName().str()}); } continue; }
    mod->gByName[G.name] = mod->globals.size(); mod->globals.push_back(G); }
  for (auto &f : *M) { auto F = std::make_unique<Func>(); F->name = f.getName().str(); F->decl = f.isDeclaration(); F->llvm = &f; F->nargs = f.arg_size(); for (auto &a : f.args()) F->argT.push_back(T(a.getType())); F->ret = T(f.getReturnType()); F->vararg = f.isVarArg();
    if (auto *sp = f.getSubprogram()) { F->file = sp->getFilename().str(); if (!F->file.empty() && F->file[0] != '/') F->file = (sp->getDirectory() + "/" + F->file).str(); }
    mod->byName[F->name] = F.get(); mod->funcs.push_back(std::move(F)); }
  for (auto &a : M->aliases()) if (auto *f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) mod->byName[a.getName().str()] = mod->byName[f->getName().str()];
  for (auto &g : M->globals()) if (!g.isDeclaration() && g.getName() != "llvm.global_ctors" && g.hasInitializer()) { u32 k = K(g.getInitializer()); mod->globals[mod->gByName[g.getName().str()]].init = k; }
  for (auto &f : *M) for (auto &b : f) for (auto &i : b) if (auto *cb = dyn_cast<CallBase>(&i)) if (auto *cf = cb->getCalledFunction()) {
    StringRef n = cf->getName(); if (!n.starts_with("__sym_")) continue; std::string s;
    if ((n == "__sym_assert" || n == "__sym_assert_close") && strArg(cb->getArgOperand(cb->arg_size() - 1), s)) mod->assertIds.push_back(s);
    if (n == "__sym_reach" && strArg(cb->getArgOperand(0), s)) mod->reachIds.push_back(s); }
  return mod;
}

void lower(Module &m, Func &F) {
  if (F.lowered) return; F.lowered = true; auto &f = *(Function *)F.llvm; if (f.isDeclaration()) return;
  std::map<const Value*, u32> reg; std::map<const BasicBlock*, u32> bid; u32 n = 0;
  for (auto &a : f.args()) reg[&a] = n++;
  u32 nb = 0; for (auto &b : f) { bid[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
  F.nregs = n; F.bb.resize(nb);
  auto O = [&](const Value *v) { Operand o; if (auto *c = dyn_cast<Constant>(v)) { o.k = Operand::Const; o.i = K(c); } else if (reg.count(v)) { o.k = Operand::Reg; o.i = reg[v]; } return o; };
  for (auto &b : f) {
    Block &B = F.bb[bid[&b]]; B.name = b.getName().str();
    for (auto *p : predecessors(&b)) { u32 id = bid[p]; bool seen = false; for (u32 q : B.preds) seen |= q == id; if (!seen) { B.preds.push_back(id); } }
    B.phis.resize(B.preds.size());
    for (auto &i : b) {
      if (auto *ph = dyn_cast<PHINode>(&i)) { for (size_t k = 0; k < B.preds.size(); ++k) for (unsigned j = 0; j < ph->getNumIncomingValues(); ++j) if (bid[ph->getIncomingBlock(j)] == B.preds[k]) { B.phis[k].push_back({reg[ph], O(ph->getIncomingValue(j))}); break; } continue; }
      if (i.isDebugOrPseudoInst()) continue; if (auto *cc = dyn_cast<CallBase>(&i)) if (auto *cf = cc->getCalledFunction()) if (cf->getName() == "llvm.experimental.noalias.scope.decl") continue;
      Instr I; I.t = T(i.getType()); I.dst = i.getType()->isVoidTy() ? -1 : (int)reg[&i]; if (auto &d = i.getDebugLoc()) I.line = d.getLine();
      auto ops = [&] { for (auto &o : i.operands()) I.a.push_back(O(o)); };
      switch (i.getOpcode()) {
#define B_(X, Y) case Instruction::X: I.op = Y; ops(); break;
        B_(Add, ADD) B_(Sub, SUB) B_(Mul, MUL) B_(UDiv, UDIV) B_(SDiv, SDIV) B_(URem, UREM) B_(SRem, SREM) B_(Shl, SHL) B_(LShr, LSHR) B_(AShr, ASHR) B_(And, AND) B_(Or, OR) B_(Xor, XOR)
        B_(FAdd, FADD) B_(FSub, FSUB) B_(FMul, FMUL) B_(FDiv, FDIV) B_(FRem, FREM) B_(FNeg, FNEG) B_(Trunc, TRUNC) B_(ZExt, ZEXT) B_(SExt, SEXT) B_(FPTrunc, FPTRUNC) B_(FPExt, FPEXT) B_(FPToUI, FPTOUI) B_(FPToSI, FPTOSI)
        B_(UIToFP, UITOFP) B_(SIToFP, SITOFP) B_(PtrToInt, PTRTOINT) B_(IntToPtr, INTTOPTR) B_(BitCast, BITCAST) B_(Select, SELECT) B_(Freeze, FREEZE) B_(Fence, FENCE) B_(Unreachable, UNREACHABLE) B_(Resume, RESUME) B_(ExtractElement, EXTRACTELT) B_(InsertElement, INSERTELT)
        case Instruction::ICmp: { I.op = ICMP; ops(); switch (cast<ICmpInst>(i).getPredicate()) { case CmpInst::ICMP_EQ: I.pred = EQ; break; case CmpInst::ICMP_NE: I.pred = NE; break; case CmpInst::ICMP_UGT: I.pred = UGT; break; case CmpInst::ICMP_UGE: I.pred = UGE; break; case CmpInst::ICMP_ULT: I.pred = ULT; break; case CmpInst::ICMP_ULE: I.pred = ULE; break; case CmpInst::ICMP_SGT: I.pred = SGT; break; case CmpInst::ICMP_SGE: I.pred = SGE; break; case CmpInst::ICMP_SLT: I.pred = SLT; break; default: I.pred = SLE; } break; }
        case Instruction::FCmp: I.op = FCMP; ops(); I.pred = (u8)cast<FCmpInst>(i).getPredicate(); break; // LLVM numbering 0..15
        case Instruction::Alloca: { auto &al = cast<AllocaInst>(i); I.op = ALLOCA; I.a.push_back(O(al.getArraySize())); I.imm = DL->getTypeAllocSize(al.getAllocatedType()); I.x.push_back(al.getAlign().value()); break; }
        case Instruction::Load: I.op = LOAD; I.a.push_back(O(cast<LoadInst>(i).getPointerOperand())); break;
        case Instruction::Store: { auto &s = cast<StoreInst>(i); I.op = STORE; I.a.push_back(O(s.getValueOperand())); I.a.push_back(O(s.getPointerOperand())); I.t = T(s.getValueOperand()->getType()); break; }
        case Instruction::GetElementPtr: { auto &g = cast<GetElementPtrInst>(i); I.op = GEP; I.a.push_back(O(g.getPointerOperand())); i64 off = 0;
          if (i.getType()->isVectorTy()) { I.op = UNSUPPORTED; break; }
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *idx = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
            else { i64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sc * ci->getSExtValue(); else { I.a.push_back(O(idx)); I.x.push_back(sc); } } }
          I.imm = off; break; }
        case Instruction::Call: case Instruction::Invoke: { auto &cb = cast<CallBase>(i); I.op = i.getOpcode() == Instruction::Call ? CALL : INVOKE; for (auto &a : cb.args()) I.a.push_back(O(a));
          if (cb.isInlineAsm()) { I.calleeName = "__asm"; if (auto *ia = dyn_cast<InlineAsm>(cb.getCalledOperand())) I.txt = ia->getAsmString(); }
          else { Value *cv = cb.getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts(); if (auto *cf = dyn_cast<Function>(cv)) { I.calleeName = cf->getName().str(); I.fn = m.byName[I.calleeName]; } else I.callee = O(cb.getCalledOperand()); }
          if (auto *inv = dyn_cast<InvokeInst>(&i)) { I.x = {(i64)bid[inv->getNormalDest()], (i64)bid[inv->getUnwindDest()]}; }
          break; }
        case Instruction::Ret: I.op = RET; if (i.getNumOperands()) I.a.push_back(O(i.getOperand(0))); break;
        case Instruction::Br: { auto &br = cast<BranchInst>(i); if (br.isConditional()) { I.op = CONDBR; I.a.push_back(O(br.getCondition())); I.x = {(i64)bid[br.getSuccessor(0)], (i64)bid[br.getSuccessor(1)]}; } else { I.op = BR; I.x = {(i64)bid[br.getSuccessor(0)]}; } break; }
        case Instruction::Switch: { auto &s = cast<SwitchInst>(i); I.op = SWITCH; I.a.push_back(O(s.getCondition())); I.x.push_back(bid[s.getDefaultDest()]); for (auto &c : s.cases()) { I.x.push_back(c.getCaseValue()->getZExtValue()); I.x.push_back(bid[c.getCaseSuccessor()]); } break; }
        case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(i); I.op = LANDINGPAD; I.isCleanup = lp.isCleanup(); for (unsigned k = 0; k < lp.getNumClauses(); ++k) { I.a.push_back(O(lp.getClause(k))); I.x.push_back(lp.isCatch(k) ? 0 : 1); } break; }
        case Instruction::ExtractValue: I.op = EXTRACTVALUE; I.a.push_back(O(i.getOperand(0))); for (auto k : cast<ExtractValueInst>(i).indices()) I.x.push_back(k); break;
        case Instruction::InsertValue: I.op = INSERTVALUE; I.a.push_back(O(i.getOperand(0))); I.a.push_back(O(i.getOperand(1))); for (auto k : cast<InsertValueInst>(i).indices()) I.x.push_back(k); break;
        case Instruction::ShuffleVector: { auto &s = cast<ShuffleVectorInst>(i); I.op = SHUFFLE; I.a.push_back(O(s.getOperand(0))); I.a.push_back(O(s.getOperand(1))); for (int k : s.getShuffleMask()) I.x.push_back(k); I.imm = cast<FixedVectorType>(s.getOperand(0)->getType())->getNumElements(); break; }
        case Instruction::AtomicCmpXchg: { I.op = CMPXCHG; ops(); break; }
        case Instruction::AtomicRMW: { I.op = ATOMICRMW; ops(); I.imm = cast<AtomicRMWInst>(i).getOperation(); break; }
        default: I.op = UNSUPPORTED; break;
      }
      if (I.op == UNSUPPORTED) { raw_string_ostream os(I.txt); i.print(os); }
      F.nInstr++; B.ins.push_back(std::move(I));
    }
  }
}
}
