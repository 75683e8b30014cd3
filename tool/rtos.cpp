// Task policies: a typestate analysis of the life of tasks.  The abstract state holds what each variable may point to,
// which memory, semaphores, threads and work objects exist, and how far each task has got; the analysis follows every
// control-flow edge from the entry of each life cycle, over every failure of the kernel's calls and over the points at
// which a task may run (when started, when waited for) and may be overtaken (after it has signalled).
#include "common.hpp"
#include "block.hpp"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include <memory>
using namespace llvm;
namespace {
typedef std::string Str; typedef long long ll;
struct V { enum K { Top, Int, Ptr, Fun, Agg } k = Top; ll i = 0; int obj = -1; const Function *f = nullptr; std::vector<V> e;
  static V num(ll i) { V v; v.k = Int; v.i = i; return v; } static V ptr(int o, ll off) { V v; v.k = Ptr; v.obj = o; v.i = off; return v; } static V fun(const Function *f) { V v; v.k = Fun; v.f = f; return v; } };
struct Ob { enum K { Stack, Heap, Global, Handle } k; bool dead = false; Str what; const Instruction *site = nullptr; int frame = -1; };
struct Sem { ll count = 0; bool alive = true; };
struct Task { enum S { Pending, Running, Returning, Gone } s = Pending; bool runnable = true, signalled = false, deleted = false; const Function *entry = nullptr; std::vector<V> args; int tcb = -1, stack = -1; ll tcbOff = 0; const Instruction *site = nullptr; };
struct Frame { const Function *F; BasicBlock::const_iterator it; const BasicBlock *bb, *prev = nullptr; std::map<const Value *, V> env; std::vector<int> allocas; int task = -1, id = 0; };
typedef std::pair<int, ll> At;
struct St { std::vector<Frame> fr; std::vector<std::vector<Frame>> waiting; std::vector<Ob> obs; std::map<At, std::pair<V, int>> mem; std::set<std::tuple<int, ll, ll>> zeros; std::map<At, Sem> sems; std::vector<Task> tasks; std::set<At> works; int runs = 0, ids = 0; std::map<const Value *, int> globals; };
struct Rtos {
  Module &M; Output &O; const DataLayout &DL; Str life; std::vector<St> wl; long paths = 0, steps = 0, ends = 0; bool freertos; std::set<Str> undec;
  Rtos(Module &m, Output &o, Str l, bool fr) : M(m), O(o), DL(m.getDataLayout()), life(l), freertos(fr) {}
  Str where(const Instruction *I) { if (!I) return "?"; const DebugLoc &D = I->getDebugLoc(); if (!D) return "?"; const DILocation *L = D.get(); Str f = L->getFilename().str(); while (f.find("/include/") == Str::npos && L->getInlinedAt()) { L = L->getInlinedAt(); f = L->getFilename().str(); } auto p = f.rfind("/include/"); if (p != Str::npos) f = f.substr(p + 1); return f + ":" + std::to_string(L->getLine()); }
  // the innermost call in the framework's own source
  const Instruction *here(St &S, const Instruction *I) { for (int k = (int)S.fr.size() - 1;; k--) { auto *F = S.fr[k].F; auto *sp = F->getSubprogram(); Str f = sp ? sp->getFilename().str() : ""; if (f.find("tpolicy") != Str::npos || k == 0) return k == (int)S.fr.size() - 1 ? I : &*S.fr[k].it; if (S.fr[k].task >= 0) return I; } }
  void bad(St &S, const Instruction *I, const Str &rule, const Str &m) { auto *H = here(S, I); O.add("C14", rule, demangled(H->getFunction()->getName()), where(H), m); }
  void undecided(const Str &m) { if (undec.insert(m).second) O.undecided.push_back(life + ": " + m); }
  int fresh(St &S, Ob::K k, const Str &w, const Instruction *I) { Ob o; o.k = k; o.what = w; o.site = I; S.obs.push_back(o); return (int)S.obs.size() - 1; }
  int curTask(St &S) { for (int k = (int)S.fr.size() - 1; k >= 0; k--) if (S.fr[k].task >= 0) return S.fr[k].task; return -1; }
  // ---- values
  V val(St &S, const Value *v) {
    if (auto *C = dyn_cast<ConstantInt>(v)) return C->getBitWidth() <= 64 ? V::num(C->getSExtValue()) : V(); if (isa<ConstantPointerNull>(v)) return V::num(0);
    if (auto *F = dyn_cast<Function>(v)) return V::fun(F); if (auto *G = dyn_cast<GlobalVariable>(v)) { auto it = S.globals.find(G); if (it == S.globals.end()) it = S.globals.emplace(G, fresh(S, Ob::Global, "global " + demangled(G->getName()), nullptr)).first; return V::ptr(it->second, 0); }
    if (auto *CE = dyn_cast<ConstantExpr>(v)) { if (CE->isCast()) return val(S, CE->getOperand(0)); if (auto *G = dyn_cast<GEPOperator>(CE)) return gep(S, G); return V(); }
    if (isa<ConstantAggregateZero>(v)) return zero(v->getType()); if (isa<UndefValue>(v)) return V();
    auto &e = S.fr.back().env; auto it = e.find(v); return it == e.end() ? V() : it->second; }
  V zero(Type *T) { if (auto *ST = dyn_cast<StructType>(T)) { V v; v.k = V::Agg; for (auto *t : ST->elements()) v.e.push_back(zero(t)); return v; } if (auto *AT = dyn_cast<ArrayType>(T)) { V v; v.k = V::Agg; for (unsigned i = 0; i < AT->getNumElements() && i < 64; i++) v.e.push_back(zero(AT->getElementType())); return v; } return V::num(0); }
  V gep(St &S, const GEPOperator *G) { V b = val(S, G->getPointerOperand()); if (b.k != V::Ptr) return b.k == V::Int ? b : V(); ll off = b.i; for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { V x = val(S, gi.getOperand()); if (auto *ST = gi.getStructTypeOrNull()) { off += DL.getStructLayout(ST)->getElementOffset((unsigned)x.i); continue; } if (x.k != V::Int) return V(); off += x.i * (ll)DL.getTypeAllocSize(gi.getIndexedType()); } return V::ptr(b.obj, off); }
  // ---- memory
  bool usable(St &S, const Instruction *I, const V &p, const char *how) { if (p.k == V::Int && p.i == 0) { bad(S, I, "null", Str(how) + " through a null pointer"); return false; } if (p.k != V::Ptr) return false; auto &o = S.obs[p.obj];
    if (o.dead) { bad(S, I, "use-after-release", (curTask(S) >= 0 ? Str("the task ") : Str("")) + how + " " + o.what + " after it has been released" + (curTask(S) >= 0 && S.tasks[curTask(S)].signalled ? " by the joining side, since it had already signalled completion" : "")); return false; } return true; }
  V load(St &S, int o, ll off, Type *T) { if (auto *ST = dyn_cast<StructType>(T)) { V v; v.k = V::Agg; auto *L = DL.getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) v.e.push_back(load(S, o, off + L->getElementOffset(i), ST->getElementType(i))); return v; }
    int n = (int)DL.getTypeStoreSize(T); auto it = S.mem.find({o, off}); if (it != S.mem.end() && it->second.second == n) return it->second.first;
    if (n > 8) return V(); unsigned long long r = 0; // put together from bytes
    for (int b = 0; b < n; b++) { bool got = false; for (auto k = S.mem.lower_bound({o, off + b - 64}); k != S.mem.end() && k->first.first == o && k->first.second <= off + b; ++k) if (k->first.second + k->second.second > off + b) { ll in = off + b - k->first.second; if (k->second.first.k != V::Int) return V(); r |= (((unsigned long long)k->second.first.i >> (8 * std::min<ll>(in, 7))) & 0xFF) << (8 * b); got = true; break; }
      if (!got) { for (auto &z : S.zeros) if (std::get<0>(z) == o && std::get<1>(z) <= off + b && off + b < std::get<2>(z)) got = true; if (!got) return V(); } }
    if (n < 8 && (r >> (8 * n - 1) & 1)) r |= ~0ull << (8 * n); return V::num((ll)r); }
  void erase(St &S, int o, ll off, ll n) { for (auto k = S.mem.lower_bound({o, off - 64}); k != S.mem.end() && k->first.first == o && k->first.second < off + n;) if (k->first.second + k->second.second > off) k = S.mem.erase(k); else ++k; }
  void store(St &S, int o, ll off, Type *T, const V &v) { if (v.k == V::Agg) { auto *ST = dyn_cast<StructType>(T); auto *AT = dyn_cast<ArrayType>(T); for (unsigned i = 0; i < v.e.size(); i++) store(S, o, off + (ST ? (ll)DL.getStructLayout(ST)->getElementOffset(i) : (ll)i * (ll)DL.getTypeAllocSize(AT->getElementType())), ST ? ST->getElementType(i) : AT->getElementType(), v.e[i]); return; }
    int n = (int)DL.getTypeStoreSize(T); erase(S, o, off, n); S.mem[{o, off}] = {v, n}; }
  void copy(St &S, const V &d, const V &s, ll n) { std::vector<std::pair<ll, std::pair<V, int>>> cs; std::vector<std::pair<ll, ll>> zs; for (auto k = S.mem.lower_bound({s.obj, s.i}); k != S.mem.end() && k->first.first == s.obj && k->first.second < s.i + n; ++k) cs.push_back({k->first.second - s.i, k->second});
    for (auto &z : S.zeros) if (std::get<0>(z) == s.obj) { ll a = std::max(std::get<1>(z), s.i), b = std::min(std::get<2>(z), s.i + n); if (a < b) zs.push_back({a - s.i, b - s.i}); }
    clearRange(S, d.obj, d.i, n); for (auto &z : zs) S.zeros.insert({d.obj, d.i + z.first, d.i + z.second}); for (auto &c : cs) S.mem[{d.obj, d.i + c.first}] = c.second; }
  void clearRange(St &S, int o, ll off, ll n) { erase(S, o, off, n); std::set<std::tuple<int, ll, ll>> z2; for (auto &z : S.zeros) { if (std::get<0>(z) != o || std::get<2>(z) <= off || std::get<1>(z) >= off + n) { z2.insert(z); continue; } if (std::get<1>(z) < off) z2.insert({o, std::get<1>(z), off}); if (std::get<2>(z) > off + n) z2.insert({o, off + n, std::get<2>(z)}); } S.zeros = z2; }
  // memory is about to cease to exist
  void gone(St &S, const Instruction *I, int o) { auto &b = S.obs[o]; if (b.dead) return; const char *how = b.k == Ob::Stack ? "ends the life of" : "releases";
    for (auto &t : S.tasks) { Str made = " (task started at " + where(t.site) + ")";
      if (t.stack == o && t.s != Task::Gone) bad(S, I, "stack-in-use", Str(how) + " the stack of a task that may still be running on it" + made);
      if (t.tcb == o && t.s != Task::Gone) bad(S, I, "control-block-in-use", Str(how) + " " + b.what + ", which holds the control block of a task the kernel still knows" + made);
      else if (t.tcb == o && !t.deleted && threadx) bad(S, I, "control-block-in-use", Str(how) + " " + b.what + ", which holds the control block of a thread that has not been deleted" + made); }
    for (auto &s : S.sems) if (s.first.first == o && s.second.alive && b.k != Ob::Handle) { if (threadx) bad(S, I, "semaphore-in-use", Str(how) + " " + b.what + ", which holds a semaphore the kernel still knows"); s.second.alive = false; }
    b.dead = true; }
  bool threadx = false;
  void release(St &S, const Instruction *I, const V &p) { if (p.k == V::Int && p.i == 0) return; if (p.k != V::Ptr) { undecided("releases memory the analysis does not know at " + where(I)); return; } auto &o = S.obs[p.obj]; if (o.k != Ob::Heap) { bad(S, I, "release", "releases " + o.what + ", which was not allocated"); return; } if (o.dead) { bad(S, I, "released-twice", "releases " + o.what + " a second time"); return; } gone(S, I, p.obj); }
  // ---- semaphores
  Sem *sem(St &S, const Instruction *I, const V &p, const char *how) { if (p.k == V::Int && p.i == 0) { bad(S, I, "null", Str(how) + " a null semaphore"); return nullptr; } if (p.k != V::Ptr) { undecided(Str(how) + " an unknown semaphore at " + where(I)); return nullptr; }
    if (!usable(S, I, p, how)) return nullptr; auto it = S.sems.find({p.obj, p.i}); if (it == S.sems.end()) { bad(S, I, "semaphore", Str(how) + " memory that holds no semaphore (one is not moved by copying it)"); return nullptr; } if (!it->second.alive) { bad(S, I, "semaphore", Str(how) + " a semaphore that has been deleted"); return nullptr; } return &it->second; }
  void def(St &S, const Instruction *I, const V &v) { S.fr.back().env[I] = v; }
  // ---- control
  void enter(St &S, const BasicBlock *B) { auto &f = S.fr.back(); f.prev = f.bb; f.bb = B; f.it = B->begin(); std::vector<std::pair<const Value *, V>> ph; for (auto &P : B->phis()) ph.push_back({&P, val(S, P.getIncomingValueForBlock(f.prev))}); for (auto &p : ph) f.env[p.first] = p.second; while (isa<PHINode>(&*f.it)) ++f.it; }
  void next(St &S, const Instruction *I) { if (auto *V = dyn_cast<InvokeInst>(I)) enter(S, V->getNormalDest()); else S.fr.back().it = std::next(I->getIterator()); }
  void push(St &S, const Function *F, const std::vector<V> &args, int task) { Frame f; f.F = F; f.bb = &F->getEntryBlock(); f.it = f.bb->begin(); f.task = task; f.id = ++S.ids; unsigned i = 0; for (auto &a : F->args()) { if (i < args.size()) f.env[&a] = args[i]; i++; } S.fr.push_back(f); }
  void pop(St &S, const Instruction *I, const V *r) { Frame f = S.fr.back(); for (int a : f.allocas) gone(S, I, a); S.fr.pop_back(); if (f.task >= 0) { auto &t = S.tasks[f.task]; if (t.s == Task::Running) { t.s = Task::Returning; if (freertos) bad(S, I, "task-returns", "the task function returns without deleting the task, which FreeRTOS does not allow"); } return; } if (S.fr.empty()) return;
    auto *C = &*S.fr.back().it; if (r && !C->getType()->isVoidTy()) def(S, C, *r); next(S, C); }
  void runTask(St &S, int t) { S.tasks[t].s = Task::Running; push(S, S.tasks[t].entry, S.tasks[t].args, t); }
  void split(St S) { wl.push_back(std::move(S)); }
  // a task that has signalled may be overtaken by whoever waited
  void overtaken(St &S, const Instruction *I) { St N = S; next(N, I); int k = (int)N.fr.size() - 1; while (k >= 0 && N.fr[k].task < 0) k--; if (k <= 0) return; std::vector<Frame> fs(N.fr.begin() + k, N.fr.end()); N.fr.erase(N.fr.begin() + k, N.fr.end()); N.waiting.push_back(fs); split(N); }
  bool resume(St &S, int task) { for (size_t i = 0; i < S.waiting.size(); i++) if (task < 0 || S.waiting[i][0].task == task) { auto fs = S.waiting[i]; S.waiting.erase(S.waiting.begin() + i); S.fr.insert(S.fr.end(), fs.begin(), fs.end()); return true; } return false; }
  int taskOf(St &S, const V &p) { if (p.k == V::Ptr) for (int i = (int)S.tasks.size() - 1; i >= 0; i--) if (S.tasks[i].tcb == p.obj && S.tasks[i].tcbOff == p.i) return i; return -1; }
  void kill(St &S, int t) { for (size_t i = 0; i < S.waiting.size();) if (S.waiting[i][0].task == t) { for (auto &f : S.waiting[i]) for (int a : f.allocas) S.obs[a].dead = true; S.waiting.erase(S.waiting.begin() + i); } else i++; S.tasks[t].s = Task::Gone; }
  // wait for a signal; false: the state has been continued elsewhere
  bool wait(St &S, const Instruction *I, const V &p, bool forever, ll ok, ll timedOut) {
    auto *s = sem(S, I, p, "waits on"); if (!s) { if (!I->getType()->isVoidTy()) def(S, I, V::num(ok)); return true; }
    if (!forever) { St N = S; def(N, I, V::num(timedOut)); next(N, I); split(N); }
    if (s->count > 0) { s->count--; if (!I->getType()->isVoidTy()) def(S, I, V::num(ok)); return true; }
    bool any = false; for (size_t t = 0; t < S.tasks.size(); t++) if (S.tasks[t].s == Task::Pending && S.tasks[t].runnable) { St N = S; runTask(N, (int)t); split(N); any = true; }
    if (!S.waiting.empty()) { St N = S; resume(N, -1); split(N); any = true; }
    if (!any) bad(S, I, "never-signalled", "waits for a signal that no task will give"); return false; }
  bool startable(St &S, const Instruction *I, Task &t) { for (auto &a : t.args) if (a.k == V::Ptr && S.obs[a.obj].k == Ob::Stack) bad(S, I, "argument-on-stack", "hands the task " + S.obs[a.obj].what + ", which ends before the task does"); if (!t.entry || t.entry->isDeclaration()) { undecided("the function of the task started at " + where(I) + " is not known"); return false; } return true; }
  // ---- calls; false: the state has been continued elsewhere
  bool external(St &S, const CallBase *C, const Str &n) {
    auto a = [&](unsigned i) { return val(S, C->getArgOperand(i)); }; auto is = [&](const char *x) { return n == x; }; auto ret = [&](ll v) { def(S, C, V::num(v)); };
    auto fail = [&](ll v) { St N = S; def(N, C, V::num(v)); next(N, C); split(N); };
    if (n.compare(0, 12, "operator new") == 0 || is("malloc")) { int o = fresh(S, Ob::Heap, "what was allocated at " + where(here(S, C)), C); def(S, C, V::ptr(o, 0)); O.stats["allocations"]++; return true; }
    if (is("pvPortMalloc") || is("k_malloc")) { fail(0); int o = fresh(S, Ob::Heap, "what was allocated at " + where(here(S, C)), C); def(S, C, V::ptr(o, 0)); O.stats["allocations"]++; return true; }
    if (n.compare(0, 15, "operator delete") == 0 || is("free") || is("vPortFree") || is("k_free")) { release(S, C, a(0)); O.stats["releases"]++; return true; }
    if (n.compare(0, 3, "tx_") == 0 || n.compare(0, 2, "k_") == 0 || n.compare(0, 1, "x") == 0 || n.compare(0, 5, "vTask") == 0 || n.compare(0, 10, "vSemaphore") == 0) O.stats["kernel_calls"]++;
    // probes
    if (is("verif_work_made")) { V p = a(0); if (p.k == V::Ptr) S.works.insert({p.obj, p.i}); return true; }
    if (is("verif_work_gone")) { V p = a(0); if (p.k == V::Ptr && usable(S, C, p, "destroys") && !S.works.erase({p.obj, p.i})) bad(S, C, "destroyed-twice", "destroys a function object that does not exist (any more)"); return true; }
    if (is("verif_work_run")) { V p = a(0); if (p.k == V::Ptr && usable(S, C, p, "runs") && !S.works.count({p.obj, p.i})) bad(S, C, "run", "runs a function object that has been destroyed"); int t = curTask(S); if (t >= 0 && S.tasks[t].signalled) bad(S, C, "early-signal", "the task signals completion before its work is done"); S.runs++; O.stats["work_runs"]++; return true; }
    if (is("verif_joined")) { ends++; if (S.runs != (int)S.tasks.size()) bad(S, C, "join", S.runs < (int)S.tasks.size() ? "joining returns although the task's work has not been done" : "the work of a task is done more than once"); return true; }
    if (is("verif_end")) { for (size_t t = 0; t < S.tasks.size(); t++) if (S.tasks[t].s == Task::Pending && S.tasks[t].runnable) { runTask(S, (int)t); wl.push_back(S); return false; } if (resume(S, -1)) { wl.push_back(S); return false; }
      ends++; O.stats["life_cycles"]++; for (size_t o = 0; o < S.obs.size(); o++) if (!S.obs[o].dead && (S.obs[o].k == Ob::Heap || S.obs[o].k == Ob::Handle)) O.add("C14", "leak", S.obs[o].site ? demangled(S.obs[o].site->getFunction()->getName()) : life, where(S.obs[o].site), S.obs[o].what + " is never released (" + (S.tasks.empty() ? "starting fails" : "the task is joined") + ")"); if (!S.works.empty()) O.add("C14", "leak", life, "?", "a copy of the function object is never destroyed"); return true; }
    // FreeRTOS
    if (is("xSemaphoreCreateBinary") || is("xSemaphoreCreateCounting")) { fail(0); int o = fresh(S, Ob::Handle, "the semaphore made at " + where(here(S, C)), C); S.sems[{o, 0}].count = is("xSemaphoreCreateCounting") && a(1).k == V::Int ? a(1).i : 0; def(S, C, V::ptr(o, 0)); return true; }
    if (is("vSemaphoreDelete")) { V p = a(0); if (sem(S, C, p, "deletes")) { S.sems[{p.obj, p.i}].alive = false; S.obs[p.obj].dead = true; } return true; }
    if (is("xTaskCreate")) { fail(0); Task t; V f = a(0); t.entry = f.k == V::Fun ? f.f : nullptr; t.args = {a(3)}; t.site = here(S, C); int h = fresh(S, Ob::Stack, "the task's handle", nullptr); t.tcb = h; V hp = a(5); if (hp.k == V::Ptr && usable(S, C, hp, "writes the handle to")) store(S, hp.obj, hp.i, C->getArgOperand(5)->getType(), V::ptr(h, 0)); return started(S, C, t, 1); }
    if (is("vTaskDelete")) { V p = a(0); int t = p.k == V::Int && p.i == 0 ? -2 : taskOf(S, p); if (t == -2) { t = curTask(S); if (t < 0) { bad(S, C, "delete-caller", "deletes the calling task, which is not one of the policy's"); return true; } while (S.fr.back().task < 0) { for (int x : S.fr.back().allocas) S.obs[x].dead = true; S.fr.pop_back(); } for (int x : S.fr.back().allocas) S.obs[x].dead = true; S.fr.pop_back(); S.tasks[t].s = Task::Gone; wl.push_back(S); return false; } if (t < 0) undecided("deletes an unknown task at " + where(C)); else if (S.tasks[t].s == Task::Gone) bad(S, C, "task-deleted-twice", "deletes a task that has deleted itself"); else kill(S, t); return true; }
    if (is("xSemaphoreTake")) { V w = a(1); return wait(S, C, a(0), w.k == V::Int && (w.i & 0xFFFFFFFF) == 0xFFFFFFFF, 1, 0); }
    if (is("xSemaphoreGive")) { ret(1); return give(S, C, a(0)); }
    // threads of the C++ library, as verif_thread.h has them; a thread is its handle
    if (is("verif_thread_start")) { Task t; V f = a(0); t.entry = f.k == V::Fun ? f.f : nullptr; t.args = {a(1)}; t.site = here(S, C); return started(S, C, t, (ll)S.tasks.size() + 1); }
    if (is("verif_thread_join")) { V h = a(0); if (h.k != V::Int || h.i < 1 || h.i > (ll)S.tasks.size()) { undecided("joins an unknown thread at " + where(C)); return true; } int t = (int)h.i - 1; if (S.tasks[t].s == Task::Pending) { runTask(S, t); wl.push_back(S); return false; } S.tasks[t].s = Task::Gone; return true; }
    if (is("verif_thread_detach")) return true;
    if (is("verif_thread_misuse")) { bad(S, C, "thread", "joins or detaches no thread, or gives up a thread object whose thread has not been joined (the program is terminated)"); return true; }
    // ThreadX
    if (is("tx_semaphore_create") || is("k_sem_init")) { bool tx = is("tx_semaphore_create"); if (tx) fail(0x0C); V p = a(0); if (usable(S, C, p, "creates a semaphore in")) { auto &s = S.sems[{p.obj, p.i}]; s.alive = true; V c = a(tx ? 2 : 1); s.count = c.k == V::Int ? c.i : 0; } ret(0); return true; }
    if (is("tx_semaphore_delete")) { V p = a(0); if (auto *s = sem(S, C, p, "deletes")) { s->alive = false; } ret(0); return true; }
    if (is("tx_semaphore_get")) { V w = a(1); return wait(S, C, a(0), w.k == V::Int && (w.i & 0xFFFFFFFF) == 0xFFFFFFFF, 0, 0x0D); }
    if (is("k_sem_take")) { V w = a(1); return wait(S, C, a(0), w.k == V::Int && w.i == -1, 0, -11); }
    if (is("tx_semaphore_put")) { ret(0); return give(S, C, a(0)); } if (is("k_sem_give")) return give(S, C, a(0));
    if (is("tx_thread_create")) { fail(0x0E); Task t; V f = a(2); t.entry = f.k == V::Fun ? f.f : nullptr; t.args = {a(3)}; t.site = here(S, C); V p = a(0), st = a(4), au = a(9); if (!usable(S, C, p, "creates a thread in")) { ret(0); return true; } t.tcb = p.obj; t.tcbOff = p.i; if (st.k == V::Ptr) t.stack = st.obj; t.runnable = !(au.k == V::Int && au.i == 0); return started(S, C, t, 0); }
    if (is("k_thread_create")) { Task t; V f = a(3); t.entry = f.k == V::Fun ? f.f : nullptr; t.args = {a(4), a(5), a(6)}; t.site = here(S, C); V p = a(0), st = a(1), d = a(9); if (!usable(S, C, p, "creates a thread in")) { ret(0); return true; } t.tcb = p.obj; t.tcbOff = p.i; if (st.k == V::Ptr) t.stack = st.obj; t.runnable = !(d.k == V::Int && d.i == -1); def(S, C, p); return started(S, C, t, p.obj, true); }
    if (is("tx_thread_resume") || is("k_thread_start")) { int t = taskOf(S, a(0)); if (t >= 0) S.tasks[t].runnable = true; ret(0); return true; }
    if (is("tx_thread_terminate") || is("k_thread_abort")) { int t = taskOf(S, a(0)); ret(0); if (t < 0) { if (usable(S, C, a(0), "terminates a thread in")) bad(S, C, "thread", "terminates what is not a thread of the kernel (one is not moved by copying it)"); } else { if (S.tasks[t].s == Task::Pending || (S.tasks[t].s == Task::Running && !S.tasks[t].signalled)) bad(S, C, "terminated-early", "terminates a task whose work may not be done"); kill(S, t); } return true; }
    if (is("tx_thread_delete")) { int t = taskOf(S, a(0)); if (t < 0) { if (usable(S, C, a(0), "deletes a thread in")) bad(S, C, "thread", "deletes what is not a thread of the kernel (one is not moved by copying it)"); } else if (S.tasks[t].s != Task::Gone) bad(S, C, "deleted-early", "deletes a thread that may not have ended"); else if (S.tasks[t].deleted) bad(S, C, "task-deleted-twice", "deletes a thread a second time"); else S.tasks[t].deleted = true; ret(0); return true; }
    if (is("k_thread_join")) { int t = taskOf(S, a(0)); V w = a(1); if (t < 0) { if (usable(S, C, a(0), "joins a thread in")) bad(S, C, "thread", "joins what is not a thread of the kernel (one is not moved by copying it)"); ret(0); return true; } bool forever = w.k == V::Int && w.i == -1; if (!forever) fail(-11); if (S.tasks[t].s == Task::Pending && S.tasks[t].runnable) { runTask(S, t); wl.push_back(S); return false; } if (resume(S, t)) { wl.push_back(S); return false; } if (S.tasks[t].s == Task::Returning) S.tasks[t].s = Task::Gone; ret(0); return true; }
    static const std::set<Str> idle = {"verif_rtos_yield", "vTaskDelay", "xTaskGetTickCount", "tx_thread_relinquish", "tx_thread_sleep", "tx_time_get", "k_yield", "k_usleep", "k_msleep", "k_uptime_get", "sched_yield", "nanosleep", "clock_nanosleep", "__errno_location", "printf", "puts", "abort", "__assert_fail", "std::terminate()", "xTaskGetCurrentTaskHandle"};
    if (!idle.count(n)) for (auto &x : C->args()) if (x->getType()->isPointerTy()) { undecided("calls " + n + " at " + where(C)); break; }
    if (!C->getType()->isVoidTy()) def(S, C, V()); return true; }
  bool started(St &S, const CallBase *C, const Task &T, ll ok, bool isPtr = false) { if (!isPtr) def(S, C, V::num(ok)); Task t = T; bool can = startable(S, C, t); O.stats["tasks_started"]++; if (S.tasks.size() > 6) { undecided("more tasks than expected"); return true; } S.tasks.push_back(t); if (can && t.runnable) { St N = S; next(N, C); runTask(N, (int)N.tasks.size() - 1); split(N); } return true; }
  bool give(St &S, const CallBase *C, const V &p) { if (auto *s = sem(S, C, p, "signals")) s->count++; int t = curTask(S); if (t >= 0) { S.tasks[t].signalled = true; overtaken(S, C); } return true; }
  // the state, as text: a state that has been seen at the same place adds nothing
  Str text(const St &S) { Str r; auto n = [&](ll x) { r += std::to_string(x); r += ','; }; auto v = [&](auto &self, const V &x) -> void { n(x.k); n(x.i); n(x.obj); n((ll)(uintptr_t)x.f); for (auto &y : x.e) self(self, y); };
    auto frames = [&](const std::vector<Frame> &fs) { for (auto &f : fs) { n((ll)(uintptr_t)f.F); n((ll)(uintptr_t)&*f.it); n((ll)(uintptr_t)f.prev); n(f.task); for (auto &e : f.env) { n((ll)(uintptr_t)e.first); v(v, e.second); } for (int a : f.allocas) n(a); r += ';'; } r += '|'; };
    frames(S.fr); for (auto &w : S.waiting) frames(w); for (auto &o : S.obs) n(o.dead); for (auto &m : S.mem) { n(m.first.first); n(m.first.second); n(m.second.second); v(v, m.second.first); } r += '|'; for (auto &z : S.zeros) { n(std::get<0>(z)); n(std::get<1>(z)); n(std::get<2>(z)); } r += '|'; for (auto &m : S.sems) { n(m.first.first); n(m.first.second); n(m.second.count); n(m.second.alive); }
    for (auto &t : S.tasks) { n(t.s); n(t.runnable); n(t.signalled); n(t.deleted); } for (auto &w : S.works) { n(w.first); n(w.second); } n(S.runs); return r; }
  std::set<Str> seen; bool news(const St &S) { return S.fr.empty() || seen.insert(text(S)).second; }
  void go(const Function *F) {
    St S; push(S, F, {}, -1); split(S);
    while (!wl.empty()) { if (steps > 4000000 || paths > 60000) { undecided("too many states"); return; } St T = std::move(wl.back()); wl.pop_back(); if (!news(T)) continue; paths++; run(std::move(T)); } }
  void run(St S) {
    while (!S.fr.empty()) { if (++steps > 4000000) return; auto &f = S.fr.back(); const Instruction *I = &*f.it;
      if (auto *A = dyn_cast<AllocaInst>(I)) { int o = fresh(S, Ob::Stack, A->hasName() ? "the local variable " + A->getName().str() + " of " + demangled(f.F->getName()) : "a local variable", A); S.fr.back().allocas.push_back(o); def(S, I, V::ptr(o, 0)); next(S, I); continue; }
      if (auto *L = dyn_cast<LoadInst>(I)) { V p = val(S, L->getPointerOperand()); bool ok = usable(S, I, p, "reads"); def(S, I, ok ? load(S, p.obj, p.i, L->getType()) : V()); next(S, I); continue; }
      if (auto *X = dyn_cast<StoreInst>(I)) { V p = val(S, X->getPointerOperand()); if (usable(S, I, p, "writes")) store(S, p.obj, p.i, X->getValueOperand()->getType(), val(S, X->getValueOperand())); next(S, I); continue; }
      if (auto *X = dyn_cast<AtomicRMWInst>(I)) { V p = val(S, X->getPointerOperand()), r, w = val(S, X->getValOperand()); if (usable(S, I, p, "updates")) { r = load(S, p.obj, p.i, X->getType()); V n; if (X->getOperation() == AtomicRMWInst::Xchg) n = w; else if (r.k == V::Int && w.k == V::Int && X->getOperation() == AtomicRMWInst::Add) n = V::num(r.i + w.i); else if (r.k == V::Int && w.k == V::Int && X->getOperation() == AtomicRMWInst::Sub) n = V::num(r.i - w.i); store(S, p.obj, p.i, X->getType(), n); } def(S, I, r); next(S, I); continue; }
      if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) { V p = val(S, X->getPointerOperand()), e = val(S, X->getCompareOperand()), w = val(S, X->getNewValOperand()), r; if (usable(S, I, p, "updates")) r = load(S, p.obj, p.i, e.k == V::Top ? X->getNewValOperand()->getType() : X->getNewValOperand()->getType()); V eq = compare(ICmpInst::ICMP_EQ, r, e), agg; agg.k = V::Agg; if (eq.k == V::Int && eq.i && p.k == V::Ptr) store(S, p.obj, p.i, X->getNewValOperand()->getType(), w); agg.e = {r, eq}; def(S, I, agg); next(S, I); continue; }
      if (auto *G = dyn_cast<GEPOperator>(I)) { def(S, I, gep(S, G)); next(S, I); continue; }
      if (isa<BitCastInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<FreezeInst>(I) || isa<AddrSpaceCastInst>(I)) { V v = val(S, I->getOperand(0)); if (v.k == V::Int && isa<TruncInst>(I) && I->getType()->isIntegerTy(1)) v.i &= 1; else if (v.k == V::Int && isa<ZExtInst>(I)) { unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth(); if (w < 64) v.i &= (1ll << w) - 1; } else if (isa<TruncInst>(I) && v.k != V::Int) v = V(); def(S, I, v); next(S, I); continue; }
      if (auto *X = dyn_cast<ICmpInst>(I)) { def(S, I, compare(X->getPredicate(), val(S, X->getOperand(0)), val(S, X->getOperand(1)))); next(S, I); continue; }
      if (auto *X = dyn_cast<BinaryOperator>(I)) { V a = val(S, X->getOperand(0)), b = val(S, X->getOperand(1)), r; if (a.k == V::Int && b.k == V::Int) { switch (X->getOpcode()) { case Instruction::Add: r = V::num(a.i + b.i); break; case Instruction::Sub: r = V::num(a.i - b.i); break; case Instruction::Mul: r = V::num(a.i * b.i); break; case Instruction::And: r = V::num(a.i & b.i); break; case Instruction::Or: r = V::num(a.i | b.i); break; case Instruction::Xor: r = V::num(I->getType()->isIntegerTy(1) ? ((a.i ^ b.i) & 1) : a.i ^ b.i); break; default:; } } def(S, I, r); next(S, I); continue; }
      if (auto *X = dyn_cast<SelectInst>(I)) { V c = val(S, X->getCondition()); if (c.k == V::Int) { def(S, I, val(S, c.i & 1 ? X->getTrueValue() : X->getFalseValue())); next(S, I); continue; } St N = S; def(N, I, val(N, X->getFalseValue())); next(N, I); split(N); def(S, I, val(S, X->getTrueValue())); next(S, I); continue; }
      if (auto *X = dyn_cast<ExtractValueInst>(I)) { V v = val(S, X->getAggregateOperand()); for (unsigned i : X->indices()) v = v.k == V::Agg && i < v.e.size() ? V(v.e[i]) : V(); def(S, I, v); next(S, I); continue; }
      if (auto *X = dyn_cast<InsertValueInst>(I)) { V v = val(S, X->getAggregateOperand()); if (v.k != V::Agg) { v = V(); v.k = V::Agg; } unsigned i = X->getIndices()[0]; if (v.e.size() <= i) v.e.resize(i + 1); if (X->getNumIndices() == 1) v.e[i] = val(S, X->getInsertedValueOperand()); def(S, I, v); next(S, I); continue; }
      if (auto *X = dyn_cast<BranchInst>(I)) { if (X->isUnconditional()) { enter(S, X->getSuccessor(0)); continue; } V c = val(S, X->getCondition()); if (c.k == V::Int) { enter(S, X->getSuccessor(c.i & 1 ? 0 : 1)); continue; } if (!news(S)) return; St N = S; enter(N, X->getSuccessor(1)); split(N); enter(S, X->getSuccessor(0)); continue; }
      if (auto *X = dyn_cast<SwitchInst>(I)) { V c = val(S, X->getCondition()); if (c.k == V::Int) { const BasicBlock *to = X->getDefaultDest(); for (auto &k : X->cases()) if (k.getCaseValue()->getSExtValue() == c.i) to = k.getCaseSuccessor(); enter(S, to); continue; } for (auto &k : X->cases()) { St N = S; enter(N, k.getCaseSuccessor()); split(N); } enter(S, X->getDefaultDest()); continue; }
      if (auto *X = dyn_cast<ReturnInst>(I)) { V r; if (X->getReturnValue()) r = val(S, X->getReturnValue()); pop(S, I, &r); continue; }
      if (isa<UnreachableInst>(I)) return;
      if (auto *C = dyn_cast<CallBase>(I)) {
        if (auto *II = dyn_cast<IntrinsicInst>(C)) { auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_end) { V p = val(S, C->getArgOperand(1)); if (p.k == V::Ptr && S.obs[p.obj].k == Ob::Stack) gone(S, I, p.obj); }
          else if (id == Intrinsic::lifetime_start) { V p = val(S, C->getArgOperand(1)); if (p.k == V::Ptr && S.obs[p.obj].k == Ob::Stack) { if (S.obs[p.obj].dead) { int o = p.obj; clearRange(S, o, 0, 1 << 20); S.obs[o].dead = false; for (auto it = S.sems.begin(); it != S.sems.end();) if (it->first.first == o) it = S.sems.erase(it); else ++it; } } }
          else if (auto *X = dyn_cast<MemTransferInst>(C)) { V d = val(S, X->getRawDest()), s = val(S, X->getRawSource()), n = val(S, X->getLength()); if (usable(S, I, d, "writes") & usable(S, I, s, "reads")) { if (n.k == V::Int) copy(S, d, s, n.i); else undecided("copies an unknown number of bytes at " + where(I)); } }
          else if (auto *X = dyn_cast<MemSetInst>(C)) { V d = val(S, X->getRawDest()), n = val(S, X->getLength()), v = val(S, X->getValue()); if (usable(S, I, d, "writes") && n.k == V::Int) { clearRange(S, d.obj, d.i, n.i); if (v.k == V::Int && v.i == 0) S.zeros.insert({d.obj, d.i, d.i + n.i}); } }
          else if (id == Intrinsic::expect) def(S, I, val(S, C->getArgOperand(0))); else if (!I->getType()->isVoidTy()) def(S, I, V());
          next(S, I); continue; }
        if (C->isInlineAsm()) { if (!C->getType()->isVoidTy()) def(S, I, V()); next(S, I); continue; }
        V t = val(S, C->getCalledOperand()); if (t.k != V::Fun) { if (t.k == V::Int && t.i == 0) bad(S, I, "null", "calls through a null pointer"); else undecided("calls an unknown function at " + where(I)); if (!I->getType()->isVoidTy()) def(S, I, V()); next(S, I); continue; }
        if (!t.f->isDeclaration()) { if (S.fr.size() > 120) { undecided("recursion at " + where(I)); return; } std::vector<V> as; for (auto &a : C->args()) as.push_back(val(S, a)); unsigned k = 0; for (auto &a : C->args()) { if (C->isByValArgument(k) && as[k].k == V::Ptr) { int o = fresh(S, Ob::Stack, "a parameter passed by value", I); copy(S, V::ptr(o, 0), as[k], 1 << 16); as[k] = V::ptr(o, 0); } k++; } push(S, t.f, as, -1); O.stats["calls_followed"]++; continue; }
        if (!external(S, C, demangled(t.f->getName()))) return;
        if (C->doesNotReturn()) return; next(S, I); continue; }
      undecided("instruction " + Str(I->getOpcodeName()) + " at " + where(I)); if (!I->getType()->isVoidTy()) def(S, I, V()); if (I->isTerminator()) return; next(S, I); } }
  V compare(CmpInst::Predicate p, const V &a, const V &b) { if (a.k == V::Int && b.k == V::Int) switch (p) { case ICmpInst::ICMP_EQ: return V::num(a.i == b.i); case ICmpInst::ICMP_NE: return V::num(a.i != b.i); case ICmpInst::ICMP_SGT: return V::num(a.i > b.i); case ICmpInst::ICMP_SLT: return V::num(a.i < b.i); case ICmpInst::ICMP_SGE: return V::num(a.i >= b.i); case ICmpInst::ICMP_SLE: return V::num(a.i <= b.i); case ICmpInst::ICMP_UGT: return V::num((unsigned long long)a.i > (unsigned long long)b.i); case ICmpInst::ICMP_ULT: return V::num((unsigned long long)a.i < (unsigned long long)b.i); case ICmpInst::ICMP_UGE: return V::num((unsigned long long)a.i >= (unsigned long long)b.i); case ICmpInst::ICMP_ULE: return V::num((unsigned long long)a.i <= (unsigned long long)b.i); default: return V(); }
    bool ap = a.k == V::Ptr || a.k == V::Fun, bp = b.k == V::Ptr || b.k == V::Fun; int eq = -1; if (ap && b.k == V::Int && b.i == 0) eq = 0; if (bp && a.k == V::Int && a.i == 0) eq = 0; if (ap && bp) eq = a.k == b.k && a.obj == b.obj && a.i == b.i && a.f == b.f; if (eq >= 0 && p == ICmpInst::ICMP_EQ) return V::num(eq); if (eq >= 0 && p == ICmpInst::ICMP_NE) return V::num(!eq); return V(); }
};
}
int runRtos(Module &M, Output &O, const std::vector<std::string> &args) {
  Str set = arg(args, "set"); int n = 0;
  for (auto &F : M) { Str f = F.getName().str(); if (F.isDeclaration() || f.compare(0, 5, "life_")) continue; n++; Rtos R(M, O, set + " " + f, set == "FREERTOS"); R.threadx = set == "THREADX"; R.go(&F); O.stats["states"] += R.paths; O.stats["steps"] += R.steps; O.analysed.push_back(set + " " + f); if (!R.ends) O.broken.push_back(set + " " + f + ": the end is not reached"); }
  if (n < 6) O.broken.push_back("only " + std::to_string(n) + " life cycles found"); return 0;
}
