// Assertions only check.  The current source is compiled with an assert macro that marks where a condition's
// evaluation begins and ends.  Everything called is inlined; then no instruction between the marks may write memory
// other than temporaries of that evaluation, and no unknown call may be made that could.
#include "common.hpp"
#include "block.hpp"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace {
typedef std::string Str;
bool isMark(const Instruction *I, const char *n) { auto *C = dyn_cast<CallBase>(I); return C && C->getCalledFunction() && C->getCalledFunction()->getName() == n; }
Str cstr(const Value *V) { auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(V)); if (!G || !G->hasInitializer()) return "?"; auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()); return D && D->isCString() ? D->getAsCString().str() : "?"; }
struct Asrt {
  Function &F; Output &O; std::map<const Instruction *, std::set<const Instruction *>> in; std::set<const BasicBlock *> eh; std::map<const Instruction *, int> memo;
  Asrt(Function &f, Output &o) : F(f), O(o) {}
  static Str where(const Instruction *B) { auto *C = cast<CallBase>(B); Str f = cstr(C->getArgOperand(0)); for (auto k : {"/include/", "/desktop_"}) { auto p = f.rfind(k); if (p != Str::npos) { f = f.substr(p + 1); break; } } auto *n = dyn_cast<ConstantInt>(C->getArgOperand(1)); return f + ":" + (n ? std::to_string(n->getZExtValue()) : "?"); }
  void regions() { // which conditions are being evaluated at each instruction
    in.clear(); eh.clear(); DominatorTree DT(F); for (auto &B : F) for (auto &P : F) if (P.isLandingPad() && DT.isReachableFromEntry(&B) && DT.dominates(&P, &B)) eh.insert(&B);
    std::map<const BasicBlock *, std::set<const Instruction *>> at; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> wl{&F.getEntryBlock()}; seen.insert(wl[0]);
    while (!wl.empty()) { auto *B = wl.back(); wl.pop_back(); std::set<const Instruction *> cur = at[B];
      for (auto &I : *B) { if (isMark(&I, "verif_assert_begin")) { cur.insert(&I); continue; } if (isMark(&I, "verif_assert_end")) { // ends the innermost evaluation
            const Instruction *m = nullptr; for (auto *c : cur) if (!m || DT.dominates(m, c)) m = c; if (m) cur.erase(m); continue; } if (!cur.empty()) in[&I].insert(cur.begin(), cur.end()); }
      for (auto *S : successors(B)) { auto c = cur; auto &t = at[S]; size_t n = t.size(); t.insert(c.begin(), c.end()); if (t.size() != n || seen.insert(S).second) wl.push_back(S); } } }
  bool inside(const Instruction *I) { return in.count(I) && !eh.count(I->getParent()); }
  static bool inert(const Instruction *I) { if (auto *II = dyn_cast<IntrinsicInst>(I)) { auto k = II->getIntrinsicID(); return II->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(II) || k == Intrinsic::assume || k == Intrinsic::invariant_start || k == Intrinsic::invariant_end; } return isMark(I, "verif_keep"); }
  // a temporary of one evaluation: used nowhere else
  bool temporary(const AllocaInst *A) { std::vector<const Value *> wl{A}; std::set<const Value *> s; bool any = false; while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!s.insert(v).second) continue; for (auto *U : v->users()) { auto *I = dyn_cast<Instruction>(U); if (!I) return false; if (isMark(I, "verif_keep")) return false; if (inert(I)) continue; if (!inside(I) && !eh.count(I->getParent()) && !(isa<GetElementPtrInst>(I) || isa<CastInst>(I))) return false; any |= inside(I); if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) wl.push_back(I); } } return any; }
  void keepOuter() { auto &M = *F.getParent(); auto K = M.getOrInsertFunction("verif_keep", Type::getVoidTy(M.getContext()), PointerType::get(M.getContext(), 0)); std::vector<AllocaInst *> as; for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) as.push_back(A); for (auto *A : as) if (!temporary(A)) { IRBuilder<> B(A->getNextNode()); B.CreateCall(K, {A}); } }
  // may this memory be written while evaluating a condition?
  std::set<const Value *> busy; bool ours(const Value *P, int depth = 0) { if (depth > 40) return false; if (!busy.insert(P).second) return true; bool r = ours1(P, depth); busy.erase(P); return r; }
  bool ours1(const Value *P, int depth) { SmallVector<const Value *, 4> os; getUnderlyingObjects(P, os, nullptr, 0); for (auto *o : os) { if (isa<UndefValue>(o) || isa<ConstantPointerNull>(o)) continue;
      if (auto *A = dyn_cast<AllocaInst>(o)) { if (!temporary(A)) return false; continue; }
      if (auto *C = dyn_cast<CallBase>(o)) { Str n = callee(C); if (inside(C) && (n.compare(0, 12, "operator new") == 0 || n == "malloc" || n == "calloc" || n == "__cxa_allocate_exception" || n == "__errno_location" || (n.compare(0, 5, "std::") == 0 && argsOurs(C, depth + 1)))) continue; return false; }
      if (auto *L = dyn_cast<LoadInst>(o)) { SmallVector<const Value *, 4> bs; getUnderlyingObjects(L->getPointerOperand(), bs, nullptr, 0); for (auto *b : bs) { if (isa<CallBase>(b) && ours(b, depth + 1)) continue; auto *A = dyn_cast<AllocaInst>(b); if (!A || !temporary(A)) return false; // what was put there?
            for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isPointerTy() && getUnderlyingObject(S->getPointerOperand()) == A && !ours(S->getValueOperand(), depth + 1)) return false; } continue; }
      if (auto *G = dyn_cast<GlobalVariable>(o)) if (G->getName().starts_with("_ZGV") || guarded) { continue; }
      return false; } return true; }
  bool guarded = false; // the evaluation initialises a function-local static, once
  static Str callee(const CallBase *C) { auto *f = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); return f ? demangled(f->getName()) : ""; }
  bool argsOurs(const CallBase *C, int depth) { for (auto &a : C->args()) if (a->getType()->isPointerTy() && !C->paramHasAttr(C->getArgOperandNo(&a), Attribute::ReadOnly) && !C->paramHasAttr(C->getArgOperandNo(&a), Attribute::ReadNone)) { auto *u = getUnderlyingObject(a.get()); if (auto *G = dyn_cast<GlobalVariable>(u)) if (G->isConstant()) continue; if (!ours(a.get(), depth)) return false; } return true; }
  static bool looks(const Str &n) { // library and OS calls that only look
    static const std::set<Str> s = {"strlen", "strcmp", "strncmp", "memcmp", "memchr", "strchr", "strrchr", "strstr", "wcslen", "bcmp", "abs", "labs", "isatty", "getpagesize", "sysconf", "getpid", "gettid", "access", "stat", "fstat", "lstat", "fileno", "ferror", "feof", "ftell", "clock_gettime", "time", "pthread_self", "pthread_equal", "__errno_location", "isalpha", "isdigit", "isspace", "isprint", "toupper", "tolower", "atoi", "atof", "strtol", "strtoul", "strtod", "fcntl", "getsockname", "getpeername", "getenv", "secure_getenv", "std::terminate", "abort", "__cxa_begin_catch", "__cxa_end_catch", "__clang_call_terminate", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_allocate_exception", "__cxa_throw", "__cxa_free_exception", "__cxa_rethrow", "__cxa_bad_cast", "__dynamic_cast", "std::uncaught_exceptions", "malloc", "free", "calloc"};
    if (s.count(n)) return true; for (auto p : {"operator new", "operator delete", "std::__throw_", "std::chrono::", "std::isnan", "std::isfinite", "std::exception::", "std::bad_"}) if (n.compare(0, strlen(p), p) == 0) return true;
    return n.size() > 6 && n.compare(n.size() - 6, 6, " const") == 0; }
  void bad(const Instruction *I, const Str &m) { for (auto *B : in[I]) O.add("C25", "effect", demangled(F.getName()), where(B), "the asserted condition " + m + ", which a build without assertions does not do"); }
  void run() {
    bool any = false; for (auto &I : instructions(F)) if (isMark(&I, "verif_assert_begin")) any = true; if (!any) return;
    regions(); keepOuter(); {  }
  }
  void judge() {
    regions(); std::set<const Instruction *> begins; for (auto &I : instructions(F)) if (isMark(&I, "verif_assert_begin")) begins.insert(&I); if (begins.empty()) return; O.analysed.push_back(demangled(F.getName())); O.stats["functions_with_assertions"]++; O.stats["evaluations"] += begins.size(); for (auto *b : begins) covered.insert(where(b));
    guarded = false; for (auto &p : in) if (auto *C = dyn_cast<CallBase>(p.first)) if (callee(C) == "__cxa_guard_acquire") guarded = true;
    for (auto &I : instructions(F)) { if (!inside(&I) || inert(&I)) continue; O.stats["instructions_inside"]++;
      if (auto *S = dyn_cast<StoreInst>(&I)) { O.stats["writes_inside"]++; if (!ours(S->getPointerOperand())) bad(&I, "writes " + name(S->getPointerOperand())); continue; }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { O.stats["writes_inside"]++; if (!ours(I.getOperand(0))) bad(&I, "updates " + name(I.getOperand(0))); continue; }
      if (auto *M = dyn_cast<MemIntrinsic>(&I)) { O.stats["writes_inside"]++; if (!ours(M->getDest())) bad(&I, "overwrites " + name(M->getDest())); continue; }
      auto *C = dyn_cast<CallBase>(&I); if (!C || isa<IntrinsicInst>(C)) continue; O.stats["calls_inside"]++;
      if (C->isInlineAsm()) { if (C->mayWriteToMemory() && !C->getType()->isVoidTy()) O.undecided.push_back(demangled(F.getName()) + ": inline assembly in the assertion at " + where(*in[&I].begin())); continue; }
      if (C->onlyReadsMemory() || C->doesNotAccessMemory()) continue; auto *f = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
      if (!f) { if (virtualCall(C)) O.undecided.push_back(demangled(F.getName()) + ": virtual call in the assertion at " + where(*in[&I].begin())); else bad(&I, "calls a function given at run time"); continue; }
      if (f->onlyReadsMemory() || f->doesNotAccessMemory()) continue; Str n = demangled(f->getName()), h = headOf(n); if (looks(n) || looks(h) || looks(Str(baseName(h)))) continue;
      if (f->isDeclaration() && n.compare(0, 5, "std::") == 0 && argsOurs(C, 0)) continue; // works on temporaries only
      if (!f->isDeclaration()) { O.undecided.push_back(demangled(F.getName()) + ": the assertion at " + where(*in[&I].begin()) + " calls " + h + ", which cannot be inlined"); continue; }
      bad(&I, "calls " + h); } }
  static bool virtualCall(const CallBase *C) { auto *L = dyn_cast<LoadInst>(C->getCalledOperand()); if (!L) return false; const Value *p = L->getPointerOperand(); while (auto *G = dyn_cast<GetElementPtrInst>(p)) p = G->getPointerOperand(); auto *V = dyn_cast<LoadInst>(p); return V && C->arg_size() && getUnderlyingObject(V->getPointerOperand()) == getUnderlyingObject(C->getArgOperand(0)); }
  static Str name(const Value *P) { auto *o = getUnderlyingObject(P); if (isa<AllocaInst>(o)) return "a variable of the function"; if (auto *G = dyn_cast<GlobalVariable>(o)) return "global " + demangled(G->getName()); if (auto *A = dyn_cast<Argument>(o)) return A->getArgNo() == 0 ? "a member or argument" : "an argument's target"; return "memory that outlives it"; }
  std::set<Str> covered;
};
}
int runAssert(Module &M, Output &O, const std::vector<std::string> &args) {
  // functions whose whole evaluation matters: everything is inlined into them
  for (auto &F : M) { if (F.isDeclaration()) continue; if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone); bool rec = false; for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) { C->removeFnAttr(Attribute::NoInline); if (C->getCalledFunction() == &F) rec = true; } F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); }
  std::set<Function *> roots, need; for (auto &F : M) { bool open = false; if (F.isDeclaration()) continue; for (auto &I : instructions(F)) if (isMark(&I, "verif_assert_begin")) open = true; if (open) roots.insert(&F); }
  // only what is called while a condition is evaluated is inlined
  std::vector<Function *> wl; for (auto *F : roots) { Asrt A(*F, O); A.regions(); for (auto &I : instructions(*F)) if (A.in.count(&I)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = C->getCalledFunction()) if (!f->isDeclaration() && need.insert(f).second) wl.push_back(f); }
  while (!wl.empty()) { auto *F = wl.back(); wl.pop_back(); for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = C->getCalledFunction()) if (!f->isDeclaration() && need.insert(f).second) wl.push_back(f); }
  for (auto *F : need) { bool rec = false; for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == F) rec = true; if (!rec) F->addFnAttr(Attribute::AlwaysInline); }
  for (auto *F : roots) if (F->hasLocalLinkage() || F->hasLinkOnceLinkage()) F->setLinkage(GlobalValue::ExternalLinkage);
  runPasses(M, "always-inline"); for (auto &F : M) F.removeFnAttr(Attribute::AlwaysInline);
  std::set<Str> cov; for (auto *F : roots) { Asrt A(*F, O); A.run(); }
  runPasses(M, "function(sroa<modify-cfg>,instsimplify,adce)");
  if (!arg(args, "dump").empty()) M.print(errs(), nullptr);
  for (auto *F : roots) { Asrt A(*F, O); A.judge(); cov.insert(A.covered.begin(), A.covered.end()); }
  for (auto &c : cov) O.analysed.push_back("assert@" + c); return 0;
}
