#include "llvm/IR/IRBuilder.h"
#include "common.hpp"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <fstream>
#include <iostream>
#include "llvm/Support/CommandLine.h"
using namespace llvm;
static std::string q(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
std::string Output::json() const {
  std::string s = "{\"findings\":["; bool f = true;
  for (auto &x : findings) { if (!f) s += ","; f = false; s += "{\"props\":" + q(x.props) + ",\"rule\":" + q(x.rule) + ",\"func\":" + q(x.func) + ",\"loc\":" + q(x.loc) + ",\"msg\":" + q(x.msg) + "}"; }
  s += "],\"stats\":{"; f = true; for (auto &x : stats) { if (!f) s += ","; f = false; s += q(x.first) + ":" + std::to_string(x.second); }
  auto lst = [&](const char *n, const std::vector<std::string> &v) { s += std::string(",\"") + n + "\":["; bool g = true; for (auto &x : v) { if (!g) s += ","; g = false; s += q(x); } s += "]"; };
  s += "}"; lst("analysed", analysed); lst("broken", broken); lst("undecided", undecided); return s + "}\n";
}
std::string arg(const std::vector<std::string> &a, const std::string &k, const std::string &def) { for (auto &x : a) if (x.compare(0, k.size() + 1, k + "=") == 0) return x.substr(k.size() + 1); return def; }
std::unique_ptr<Module> loadModule(const std::string &path, LLVMContext &C) { SMDiagnostic e; auto M = parseIRFile(path, e, C); if (!M) { e.print("sa", errs()); exit(3); } return M; }
void runPasses(Module &M, const std::string &pl) {
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << "pipeline " << toString(std::move(e)) << "\n"; exit(3); }
  MPM.run(M, MAM);
}
// swapping two character arrays is three copies of the whole array
static void swapByCopies(Module &M) {
  for (auto &F : M) { if (F.isDeclaration() || F.arg_size() != 2) continue; std::string n = demangled(F.getName()); size_t at = n.find("std::swap<char, "); if (at == std::string::npos) continue;
    uint64_t N = strtoull(n.c_str() + at + 16, nullptr, 10); if (!N) continue; auto &C = M.getContext(); auto linkage = F.getLinkage(); auto *Co = F.getComdat(); auto *SP = F.getSubprogram(); F.deleteBody(); F.setLinkage(linkage); F.setComdat(Co);
    IRBuilder<> B(BasicBlock::Create(C, "", &F)); if (SP) { F.setSubprogram(SP); B.SetCurrentDebugLocation(DILocation::get(C, SP->getLine(), 0, SP)); }
    auto *T = B.CreateAlloca(ArrayType::get(Type::getInt8Ty(C), N)); B.CreateMemCpy(T, MaybeAlign(1), F.getArg(0), MaybeAlign(1), N); B.CreateMemCpy(F.getArg(0), MaybeAlign(1), F.getArg(1), MaybeAlign(1), N); B.CreateMemCpy(F.getArg(1), MaybeAlign(1), T, MaybeAlign(1), N); B.CreateRetVoid(); }
}
void inlineAll(Module &M, std::function<bool(const std::string &, Function &)> keepOut) {
  swapByCopies(M);
  for (auto &F : M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone);
    bool out = keepOut(demangled(F.getName()), F);
    F.removeFnAttr(out ? Attribute::AlwaysInline : Attribute::NoInline); F.addFnAttr(out ? Attribute::NoInline : Attribute::AlwaysInline);
    if (!out) { bool rec = false; for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == &F) rec = true; if (rec) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } } 
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) { C->removeFnAttr(Attribute::NoInline); } }
  runPasses(M, "always-inline,function(sroa<modify-cfg>,early-cse<memssa>,scalarizer,simplifycfg<no-switch-to-lookup>,adce)");
}
int main(int argc, char **argv) {
  std::vector<std::string> a(argv + 1, argv + argc); if (a.size() < 3) { errs() << "usage: sa <checker> <bc> <out.json> [k=v...]\n"; return 2; }
  { const char *o[] = {"sa", "-scalarize-load-store"}; cl::ParseCommandLineOptions(2, o); }
  LLVMContext C; auto M = loadModule(a[1], C); Output O; int rc = 2;
  if (a[0] == "queue") rc = runQueue(*M, O, a);
  else if (a[0] == "sched") rc = runSched(*M, O, a);
  else if (a[0] == "block") rc = runBlock(*M, O, a);
  else if (a[0] == "race") rc = runRace(*M, O, a);
  else if (a[0] == "udp") rc = runUdp(*M, O, a);
  else if (a[0] == "assert") rc = runAssert(*M, O, a);
  else if (a[0] == "hidden") rc = runHidden(*M, O, a);
  else if (a[0] == "rtos") rc = runRtos(*M, O, a);
  else if (a[0] == "core") rc = runCore(*M, O, a);
  else if (a[0] == "dump") { inlineAll(*M, [&](const std::string &n, Function &F) { return (F.hasExternalLinkage() && !F.hasLinkOnceODRLinkage()) || (!arg(a, "keep").empty() && n.find(arg(a, "keep")) != std::string::npos); }); if (!arg(a, "passes").empty()) runPasses(*M, arg(a, "passes")); M->print(outs(), nullptr); return 0; }
  std::ofstream f(a[2]); f << O.json(); return rc;
}
