// No hidden shared state.  Blocks run concurrently on different workers, so memory that belongs to no object (globals,
// function-local statics and what is reached through them) may be written while processing only atomically, under a
// lock that is itself shared, or during one-time initialisation; library calls that keep such state are not made.
#include "common.hpp"
#include "block.hpp"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Linker/Linker.h"
#include <tuple>
using namespace llvm;
namespace {
typedef std::string Str;
// where a pointer may point to: a global or a parameter of the function (by number), or something reached from there
struct Root { const GlobalVariable *g; int arg; bool deref; bool operator<(const Root &o) const { return std::tie(g, arg, deref) < std::tie(o.g, o.arg, o.deref); } };
typedef std::set<Root> Roots;
struct Hidden {
  Module &M; Output &O; std::map<const Function *, Roots> returns; std::map<const Function *, std::set<std::pair<int, bool>>> writes; std::map<const Function *, std::set<std::pair<int, Root>>> captures; // captures: pointers stored into what a parameter points to
  std::map<const AllocaInst *, Roots> stored; bool changed = false;
  Hidden(Module &m, Output &o) : M(m), O(o) {}
  static Str nm(const Value *V) { return demangled(V->getName()); }
  static bool candidate(const GlobalVariable &G) {
    if (G.isConstant() || G.isThreadLocal()) return false; Str n = G.getName().str(), d = demangled(n);
    if (n.compare(0, 4, "_ZGV") == 0 || n.compare(0, 5, "llvm.") == 0 || n.compare(0, 2, "__") == 0 || d.compare(0, 5, "std::") == 0 || d.compare(0, 6, "vtable") == 0 || d.compare(0, 8, "typeinfo") == 0) return false;
    if (G.hasInitializer() && G.getValueType()->isPointerTy() && G.hasLocalLinkage()) { bool st = false; for (auto *U : G.users()) if (!isa<LoadInst>(U)) st = true; auto *i = dyn_cast<GlobalVariable>(G.getInitializer()->stripPointerCasts()); if (!st && i && i->isConstant()) return false; } // names a constant, always
    static const std::set<Str> s = {"stdin", "stdout", "stderr", "environ", "errno", "optarg", "optind", "tzname"}; return !s.count(n); }
  const Function *target(const CallBase *C) { return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); }
  // ---- pointers
  Roots roots(const Value *V, std::set<const Value *> &busy) {
    if (!V->getType()->isPointerTy() && !V->getType()->isIntegerTy(64) && !V->getType()->isAggregateType()) return {};
    if (auto *G = dyn_cast<GlobalVariable>(V)) { if (candidate(*G)) return {{G, -1, false}}; return {}; }
    if (auto *A = dyn_cast<Argument>(V)) return {{nullptr, (int)A->getArgNo(), false}};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) { Roots r; for (auto &o : CE->operands()) { auto x = roots(o, busy); r.insert(x.begin(), x.end()); } return r; }
    auto *I = dyn_cast<Instruction>(V); if (!I || !busy.insert(V).second) return {};
    Roots r; auto add = [&](const Value *o) { auto x = roots(o, busy); r.insert(x.begin(), x.end()); };
    if (auto *A = dyn_cast<AllocaInst>(I)) { r = {}; (void)A; }
    else if (auto *L = dyn_cast<LoadInst>(I)) { auto *b = base(L->getPointerOperand()); if (auto *A = dyn_cast<AllocaInst>(b)) r = stored[A]; else if (L->getType()->isPointerTy()) { for (auto x : roots(L->getPointerOperand(), busy)) { x.deref = true; r.insert(x); } } }
    else if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<ExtractValueInst>(I) || isa<FreezeInst>(I)) add(I->getOperand(0));
    else if (isa<InsertValueInst>(I)) { add(I->getOperand(0)); add(I->getOperand(1)); }
    else if (auto *P = dyn_cast<PHINode>(I)) for (auto &o : P->incoming_values()) add(o);
    else if (auto *S = dyn_cast<SelectInst>(I)) { add(S->getTrueValue()); add(S->getFalseValue()); }
    else if (auto *C = dyn_cast<CallBase>(I)) { if (auto *f = target(C)) { if (!f->isDeclaration()) { for (auto &p : returns[f]) { auto x = mapped(C, p, busy); r.insert(x.begin(), x.end()); } }
        else if (C->getType()->isPointerTy()) { Str n = nm(f); if (n.compare(0, 5, "std::") == 0) for (auto &a : C->args()) if (a->getType()->isPointerTy()) add(a); } } }
    return r; }
  // what a root of the called function is for its caller
  Roots mapped(const CallBase *C, const Root &p, std::set<const Value *> &busy) { if (p.g) return {p}; if (p.arg >= (int)C->arg_size()) return {}; auto *a = C->getArgOperand(p.arg); Roots r = roots(a, busy); if (!p.deref) return r;
    Roots q; for (auto x : r) { x.deref = true; q.insert(x); } if (auto *A = dyn_cast<AllocaInst>(base(a))) q.insert(stored[A].begin(), stored[A].end()); return q; }
  Roots mapped(const CallBase *C, const Root &p) { std::set<const Value *> b; return mapped(C, p, b); }
  const Value *base(const Value *V) { for (;;) { if (auto *G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand(); else if (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0); else return V; } }
  Roots of(const Value *V) { std::set<const Value *> b; return roots(V, b); }
  // ---- locks that every instance shares, and one-time initialisation
  int held(const Instruction *I, int h) { auto *C = dyn_cast<CallBase>(I); if (!C) return h; auto *f = target(C); if (!f) return h; Str n = nm(f), H = headOf(n);
    auto shared = [&](unsigned i) { if (i >= C->arg_size()) return false; for (auto &p : of(C->getArgOperand(i))) if (p.g) return true; return false; };
    auto starts = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    if (n == "__cxa_guard_acquire") return h + 1; if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") return h ? h - 1 : 0;
    bool guard = starts("std::lock_guard<") || starts("std::unique_lock<") || starts("std::scoped_lock<");
    if (guard && n.find("::~") != Str::npos) { guards.count(base(C->getArgOperand(0))) && h ? h-- : 0; return h; }
    if (guard && (n.find(">::lock_guard(") != Str::npos || n.find(">::unique_lock(") != Str::npos || n.find(">::scoped_lock(") != Str::npos)) { if (shared(1) && n.find("defer_lock") == Str::npos && n.find("try_to_lock") == Str::npos) { guards.insert(base(C->getArgOperand(0))); return h + 1; } return h; }
    if ((starts("std::mutex::lock") || starts("std::recursive_mutex::lock") || n == "pthread_mutex_lock") && shared(0)) return h + 1;
    if ((starts("std::mutex::unlock") || starts("std::recursive_mutex::unlock") || n == "pthread_mutex_unlock") && shared(0)) return h ? h - 1 : 0;
    return h; }
  std::set<const Value *> guards;
  std::map<const BasicBlock *, int> lockState(const Function &F) { std::map<const BasicBlock *, int> at; at[&F.getEntryBlock()] = 0; std::vector<const BasicBlock *> wl{&F.getEntryBlock()}; int n = 0;
    while (!wl.empty() && n++ < 20000) { auto *B = wl.back(); wl.pop_back(); int h = at[B]; for (auto &I : *B) h = held(&I, h); for (auto *S : successors(B)) { auto it = at.find(S); if (it == at.end() || it->second > h) { at[S] = h; wl.push_back(S); } } } return at; }
  // ---- effects
  static bool synchronises(const Str &n) { for (auto p : {"std::mutex::", "std::recursive_mutex::", "std::shared_mutex::", "std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<", "std::condition_variable", "pthread_mutex_", "pthread_cond_", "pthread_rwlock_", "pthread_once", "__gthread", "__cxa_guard", "__cxa_atexit", "std::call_once", "std::once_flag", "std::atomic<", "std::__atomic_base<", "std::__shared_count", "std::__weak_count", "std::_Sp_counted"}) if (n.compare(0, strlen(p), p) == 0) return true;
    return n.compare(0, 5, "void ") == 0 && n.find(" std::call_once<") != Str::npos; }
  void touch(const Function &F, const Instruction &I, const Value *P, const Str &how) { touch(F, I, of(P), how); }
  void touch(const Function &F, const Instruction &I, const Roots &rs, const Str &how) {
    for (auto &r : rs) { if (!r.g) { if (writes[&F].insert({r.arg, r.deref}).second) changed = true; } else if (report) note(F, I, r.g, how); } }
  void keep(const Function &F, const Value *dst, const Roots &x) { if (x.empty()) return; if (auto *A = dyn_cast<AllocaInst>(base(dst))) { auto &t = stored[A]; size_t n = t.size(); t.insert(x.begin(), x.end()); if (t.size() != n) changed = true; return; }
    for (auto &d : of(dst)) if (!d.g) for (auto &r : x) if (captures[&F].insert({d.arg, r}).second) changed = true; }
  bool report = false;
  void effects(const Function &F) {
    auto at = lockState(F);
    for (auto &B : F) { if (!at.count(&B)) continue; int h = at[&B];
      for (auto &I : B) {
        int before = h; h = held(&I, h);
        if (auto *S = dyn_cast<StoreInst>(&I)) { keep(F, S->getPointerOperand(), of(S->getValueOperand())); if (isa<AllocaInst>(base(S->getPointerOperand()))) continue; }
        if (auto *X = dyn_cast<MemTransferInst>(&I)) { Roots c; if (auto *A = dyn_cast<AllocaInst>(base(X->getRawSource()))) c = stored[A]; keep(F, X->getRawDest(), c); }
        if (auto *K = dyn_cast<CallBase>(&I)) if (auto *f = target(K)) { auto cs = captures.find(f); if (cs != captures.end()) { auto copy = cs->second; for (auto &c : copy) if (c.first < (int)K->arg_size()) keep(F, K->getArgOperand(c.first), mapped(K, c.second)); } }
        if (auto *R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue()) { auto x = of(R->getReturnValue()); auto &t = returns[&F]; size_t n = t.size(); t.insert(x.begin(), x.end()); if (t.size() != n) changed = true; } continue; }
        if (before) continue;
        if (auto *S = dyn_cast<StoreInst>(&I)) { if (!S->isAtomic()) touch(F, I, S->getPointerOperand(), "writes"); continue; }
        if (auto *X = dyn_cast<MemIntrinsic>(&I)) { touch(F, I, X->getRawDest(), "overwrites"); continue; }
        auto *C = dyn_cast<CallBase>(&I); if (!C || isa<IntrinsicInst>(C)) continue; auto *f = target(C);
        if (!f) { for (auto &a : C->args()) if (a->getType()->isPointerTy() && isa<GlobalVariable>(base(a)) && report) touch(F, I, a, "hands to a function given at run time"); continue; }
        Str n = nm(f); if (report) library(F, I, n); if (synchronises(n)) continue;
        if (!f->isDeclaration()) { auto w = writes.find(f); if (w != writes.end()) { auto copy = w->second; for (auto &k : copy) touch(F, I, mapped(C, Root{nullptr, k.first, k.second}), "changes, in " + headOf(n) + ","); } continue; }
        if (C->onlyReadsMemory() || C->doesNotAccessMemory() || f->onlyReadsMemory() || (n.size() > 6 && n.compare(n.size() - 6, 6, " const") == 0)) continue;
        for (auto &a : C->args()) { unsigned k = C->getArgOperandNo(&a); if (!a->getType()->isPointerTy() || C->paramHasAttr(k, Attribute::ReadOnly) || C->paramHasAttr(k, Attribute::ReadNone) || k >= f->arg_size() || looksAt(n, k)) continue; touch(F, I, a, "lets " + headOf(n) + " change"); } } } }
  // parameters of library functions that are only read, or whose state the library itself protects
  static bool looksAt(const Str &n, unsigned k) { static const std::map<Str, unsigned> rd = {{"memcmp", 3}, {"strlen", 1}, {"strcmp", 3}, {"strncmp", 3}, {"strcpy", 2}, {"strncpy", 2}, {"memcpy", 2}, {"memmove", 2}, {"fopen", 3}, {"getenv", 1}, {"puts", 1}, {"perror", 1}, {"open", 1}, {"unlink", 1}};
    static const std::set<Str> all = {"printf", "fprintf", "fputs", "fwrite", "fread", "fflush", "fclose", "fputc", "putc", "vfprintf", "free", "__errno_location", "operator delete(void*)"}; if (all.count(n)) return true; auto i = rd.find(n); if (i == rd.end()) return false; return i->second == 2 ? k >= 1 : true; }
  void library(const Function &F, const Instruction &I, const Str &n) {
    static const std::set<Str> bad = {"strtok", "localtime", "gmtime", "asctime", "ctime", "tmpnam", "setlocale", "putenv", "setenv", "unsetenv", "ecvt", "fcvt", "gcvt", "drand48", "lrand48", "mrand48", "srand48", "erand48", "gethostbyname", "gethostbyaddr", "getservbyname", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "getlogin", "ttyname", "basename", "dirname", "inet_ntoa", "ptsname", "hcreate", "hsearch", "lgamma", "lgammaf", "mblen", "mbtowc", "wctomb", "wcstombs_", "readdir", "crypt", "dlerror", "encrypt", "l64a"};
    if (bad.count(n) && !exempt(F) && ours(F)) O.add("C34", "unsafe-call", nm(&F), loc(I), "calls " + n + ", which keeps its result or state in memory shared by all threads, without a lock that all instances share"); }
  // ---- who runs while blocks are processed: not what only constructors and destructors do
  std::set<const Function *> ex, user; bool exempt(const Function &F) const { return ex.count(&F); }
  static bool ctorDtor(const Function &F) { Str n = nm(&F), h = headOf(n); auto b = baseName(h); Str bn(b); if (bn.empty()) return false; if (bn[0] == '~') return true; auto p = h.rfind("::"); if (p == Str::npos) return false; Str cls = h.substr(0, p); auto lt = cls.find('<'); if (lt != Str::npos) cls = cls.substr(0, lt); auto q = cls.rfind("::"); if (q != Str::npos) cls = cls.substr(q + 2); return bn == cls; }
  static bool startup(const Function &F) { Str n = F.getName().str(); return n.compare(0, 8, "_GLOBAL_") == 0 || n.find("__cxx_global_var_init") != Str::npos || n.compare(0, 5, "__tls") == 0; }
  // what std::call_once runs
  std::set<Str> onceTypes; bool once(const Function &F) { Str n = nm(&F); auto p = n.find("::operator()("); return p != Str::npos && onceTypes.count(n.substr(0, p)); }
  void exemptions() { for (auto &F : M) { Str n = nm(&F); auto p = n.find("std::call_once<"); if (p != Str::npos && p <= 5) { int d = 0; Str t; for (size_t i = p + 15; i < n.size(); i++) { char c = n[i]; if (c == '<' || c == '(') d++; if (c == '>' || c == ')') { if (c == '>' && !d) break; d--; } if (c == ',' && !d) break; t += c; } while (!t.empty() && (t.back() == '&' || t.back() == ' ')) t.pop_back(); onceTypes.insert(t); } }
    for (auto &F : M) if (!F.isDeclaration()) { if (ctorDtor(F) || startup(F) || once(F)) { ex.insert(&F); continue; } bool taken = false; int n = 0; for (auto *U : F.users()) { auto *C = dyn_cast<CallBase>(U); if (!C || C->getCalledOperand() != &F) taken = true; else n++; } if (!taken && n) ex.insert(&F); }
    for (bool c = true; c;) { c = false; for (auto it = ex.begin(); it != ex.end();) { auto *F = *it; bool keep = true; if (!ctorDtor(*F) && !startup(*F) && !once(*F)) for (auto *U : F->users()) if (!ex.count(cast<CallBase>(U)->getFunction())) keep = false; if (!keep) { it = ex.erase(it); c = true; } else ++it; } } }
  static Str path(const DIScope *S) { return S ? (S->getFilename().str()) : ""; }
  static bool ours(const Function &F) { auto *S = F.getSubprogram(); if (!S) return true; Str p = path(S); return p.compare(0, 5, "/usr/") != 0; }
  static Str loc(const Instruction &I) { auto D = I.getDebugLoc(); if (!D) return "?"; auto *S = D.get(); Str f = path(cast<DIScope>(S->getScope())); for (auto k : {"/include/", "/desktop_"}) { auto p = f.rfind(k); if (p != Str::npos) { f = f.substr(p + 1); break; } } return f + ":" + std::to_string(D.getLine()); }
  void note(const Function &F, const Instruction &I, const GlobalVariable *G, const Str &how) {
    O.stats["writes_to_shared_state"]++; if (exempt(F)) { O.stats["writes_at_construction"]++; return; }
    if (!ours(F)) return; // reported where the framework calls it
    if (!arg(args, "exempt_" + G->getName().str()).empty()) return;
    O.add("C34", "hidden-state", nm(&F), loc(I), how + " " + nm(G) + ", which all instances share, neither atomically nor under a lock that all instances share"); }
  std::vector<Str> args;
  void run() {
    for (auto &G : M.globals()) if (candidate(G)) O.stats["mutable_globals"]++;
    exemptions();
    for (int n = 0; n < 50; n++) { changed = false; for (auto &F : M) if (!F.isDeclaration()) effects(F); if (!changed) break; }
    report = true; for (auto &F : M) if (!F.isDeclaration() && !startup(F)) { effects(F); if (ours(F)) { O.stats["functions"]++; O.analysed.push_back(nm(&F)); } }
  }
};
}
int runHidden(Module &M, Output &O, const std::vector<std::string> &args) {
  Linker L(M); for (size_t i = 0;; i++) { Str p = arg(args, "with" + std::to_string(i)); if (p.empty()) break; auto X = loadModule(p, M.getContext()); if (L.linkInModule(std::move(X))) { O.broken.push_back("cannot link " + p); return 0; } }
  for (auto &F : M) { F.removeFnAttr(Attribute::OptimizeNone); for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) (void)A; }
  runPasses(M, "function(sroa<modify-cfg>,simplifycfg)");
  Hidden H(M, O); H.args = args; H.run(); return 0;
}
