// irsym: compact IR the executor works on (lowered from LLVM IR by loader.cpp)
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <unordered_map>

namespace ir {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

enum class TK : u8 { Void, Int, Flt, Ptr, Agg, Vec, Other };
struct Type {
  TK k = TK::Void; u32 w = 0;             // bits (Int/Flt)
  u64 size = 0;                            // store size in bytes
  u64 alloc = 0;
  std::vector<const Type*> el; std::vector<u64> off; // aggregates / vectors (arrays expanded)
};

enum Op : u16 {
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
  FADD, FSUB, FMUL, FDIV, FREM, FNEG,
  ICMP, FCMP, TRUNC, ZEXT, SEXT, FPTRUNC, FPEXT, FPTOUI, FPTOSI, UITOFP, SITOFP, PTRTOINT, INTTOPTR, BITCAST,
  ALLOCA, LOAD, STORE, GEP, SELECT, CALL, INVOKE, RET, BR, CONDBR, SWITCH, UNREACHABLE, RESUME, LANDINGPAD,
  EXTRACTVALUE, INSERTVALUE, EXTRACTELT, INSERTELT, SHUFFLE, CMPXCHG, ATOMICRMW, FREEZE, FENCE, PHI, UNSUPPORTED
};
enum Pred : u8 { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };

struct Operand { enum K : u8 { None, Reg, Const, } k = None; u32 i = 0; };

// constants are symbolic trees resolved to values by the executor
struct Const {
  enum K : u8 { Int, Flt, Null, Undef, Zero, Agg, Global, Func, Expr } k = Undef;
  const Type *t = nullptr; u64 v = 0; std::string wide; double d = 0; std::vector<u32> el; std::string name;
  i64 off = 0; // Global + off
  // Expr
  Op op = UNSUPPORTED;
};

struct Func;
struct Instr {
  Op op = UNSUPPORTED; const Type *t = nullptr; int dst = -1; u8 pred = 0; u16 w = 0;
  std::vector<Operand> a;
  std::vector<i64> x;            // immediates: gep scales, block targets, indices, switch values...
  i64 imm = 0;
  Operand callee; std::string calleeName; Func *fn = nullptr; int builtin = -2; bool isCleanup = false;
  std::string txt;  // for diagnostics of unsupported
  u32 line = 0; 
};
struct Block { std::vector<Instr> ins; std::vector<std::vector<std::pair<u32, Operand>>> phis; // per predecessor slot
  std::vector<u32> phiDst; std::vector<u32> preds; std::string name; };
struct Func {
  std::string name; bool decl = true, lowered = false; u32 nregs = 0; std::vector<Block> bb; u32 nargs = 0; std::vector<const Type*> argT; const Type* ret = nullptr;
  u64 addr = 0; void *llvm = nullptr; u64 nInstr = 0; bool executed = false; bool vararg = false; std::string file; bool variadicStub=false;
};
struct Global { std::string name; u64 size = 0, align = 1; bool decl = false, ro = false; u32 init = 0; const Type* t = nullptr; u64 addr = 0; };

struct Module {
  std::vector<std::unique_ptr<Func>> funcs; std::map<std::string, Func*> byName; std::vector<Global> globals; std::map<std::string, u32> gByName;
  std::vector<Const> consts; std::vector<std::pair<u32,std::string>> ctors; std::vector<std::string> assertIds; std::vector<std::string> reachIds;
  std::map<std::string,std::string> funcFile;
};
Module *load(const std::string &file);
void lower(Module &m, Func &f);   // lazily lower a function body
std::string demangle(const std::string &s);
}
