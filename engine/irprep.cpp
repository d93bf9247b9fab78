// irprep: link bitcode files, remove the bodies of formatting functions, optimise lightly, write bitcode.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <regex>
#include <iostream>
using namespace llvm;
int main(int argc, char **argv) {
  LLVMContext C; std::vector<std::string> in; std::string out; std::vector<std::regex> strip; std::vector<std::string> keep; int O = 1; bool keepios = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "-o") out = argv[++i]; else if (a == "--strip") strip.emplace_back(argv[++i]); else if (a == "--keep") keep.push_back(argv[++i]); else if (a == "-O0") O = 0; else if (a == "--keep-ios") keepios = true; else in.push_back(a); }
  if (!keepios) for (auto s : {"^_ZNSo", "^_ZNSi", "^_ZNKSo", "^_ZStls", "^_ZStrs", "^_ZNKSt7__cxx11[0-9]*basic_(i|o|)stringstream", "^_ZNSt7__cxx11[0-9]*basic_(i|o|)stringstream", "^_ZNSt7__cxx11[0-9]*basic_stringbuf", "^_ZNKSt7__cxx11[0-9]*basic_stringbuf", "^_ZNSt8ios_base", "^_ZNKSt8ios_base", "^_ZNSt9basic_ios", "^_ZNKSt9basic_ios",
      "^_ZNSt[0-9]*basic_(i|o|io|)fstream", "^_ZNSt14basic_i?o?fstream", "^_ZNSt13basic_filebuf", "^_ZSt4endl", "^_ZSt16__ostream_insert", "^_ZSt5flush", "^_ZSt9use_facet", "^_ZNSt6locale", "^_ZStL8__ioinit", "^_ZNSt15basic_streambuf", "^_ZNKSt15basic_streambuf", "^_ZNSt3__114", "^_ZN[A-Za-z0-9_]*lsERSo", "^_Zls[^ ]*RSo", "^_ZN[^ ]*lsERSo"}) strip.emplace_back(s);
  std::unique_ptr<Module> M;
  for (auto &f : in) { SMDiagnostic e; auto m = parseIRFile(f, e, C); if (!m) { e.print("irprep", errs()); return 1; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 1; } }
  for (auto &f : *M) { if (f.isDeclaration()) continue; std::string n = f.getName().str();
    bool s = false; for (auto &r : strip) if (std::regex_search(n, r)) s = true;
    if (s) { f.deleteBody(); f.setComdat(nullptr); f.setLinkage(GlobalValue::ExternalLinkage); f.removeFnAttr(Attribute::AlwaysInline); continue; }
    f.removeFnAttr(Attribute::OptimizeNone); f.removeFnAttr(Attribute::NoInline);
    if (f.hasAvailableExternallyLinkage()) f.setLinkage(GlobalValue::LinkOnceODRLinkage);
    for (auto &k : keep) if (n == k) f.addFnAttr(Attribute::NoInline);
  }
  // formatting free functions taking std::ostream& as first argument and returning it are removed above by name
  PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false;
  PassBuilder PB(nullptr, pto); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(InternalizePass([](const GlobalValue &g) { return g.getName().starts_with("h_"); }));
  MPM.addPass(GlobalDCEPass());
  if (O) MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
  MPM.addPass(GlobalDCEPass());
  MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream os(out, ec, sys::fs::OF_None); if (ec) { errs() << ec.message(); return 1; } WriteBitcodeToFile(*M, os);
  return 0;
}
