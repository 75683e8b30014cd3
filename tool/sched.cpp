// Scheduler checker: C08-C13, C15 on FlowGraph's launch, stop and worker code.
#include "common.hpp"
#include "llvm/IR/InstIterator.h"
using namespace llvm;

namespace {
struct Fld { std::string name; i64 off = -1; int kind; };          // 0 int64, 1 bool byte, 2 double, 3 int32
struct Meta {
  int N = 0; i64 objsize = 0, flag = -1, cb = -1, ctx = -1, stats = -1, stSize = 0, cfgSize = 0;
  std::vector<Fld> cfg; std::map<std::string, i64> st;
  bool inStats(i64 o) const { return o >= stats && o < stats + stSize * N; }
};
// a value whose meaning survives from the launching code to the task
struct Sym { enum K { Const, Cfg, FG, Unknown } k = Unknown; i64 c = 0; int f = -1; bool operator==(const Sym &o) const { return k == o.k && c == o.c && f == o.f; } };
struct Task { int id; Function *fn = nullptr; std::map<i64, std::pair<Sym, unsigned>> clo; bool seen = false; };
struct Access { i64 off; unsigned size; bool write, atomic; std::string who, loc; };
struct Snap { bool mixed = false; std::map<i64, std::pair<Sym, unsigned>> fg; bool seen = false; std::map<int, Task> tasks; std::vector<Access> late; };

// declared array bounds along the address computation of an access
static bool indexCheck(Engine &E, Instruction *I, State &S, std::string *msg) {
  const Value *P = nullptr; if (auto *L = dyn_cast<LoadInst>(I)) P = L->getPointerOperand(); else if (auto *T = dyn_cast<StoreInst>(I)) P = T->getPointerOperand(); else if (auto *R = dyn_cast<AtomicRMWInst>(I)) P = R->getPointerOperand(); else return true;
  for (int d = 0; P && d < 12; d++) { auto *G = dyn_cast<GEPOperator>(P); if (!G) break;
    Type *T = G->getSourceElementType(); for (unsigned i = 2; i < G->getNumOperands(); i++) { Value *op = G->getOperand(i);
      if (auto *ST = dyn_cast<StructType>(T)) { T = ST->getElementType((unsigned)cast<ConstantInt>(op)->getZExtValue()); continue; }
      auto *AT = dyn_cast<ArrayType>(T); if (!AT) break; T = AT->getElementType(); i64 n = (i64)AT->getNumElements(); Lin x; auto iv = S.env.find(op); if (auto *C = dyn_cast<ConstantInt>(op)) x = Lin(C->getSExtValue()); else if (iv != S.env.end() && iv->second.k == Val::Num) x = iv->second.l; else continue;
      E.count("table_accesses"); if (n > 0 && !(S.P.entailsGe(x) && S.P.entailsGe(Lin(n - 1) - x))) { *msg = "index not shown to lie below the table's " + std::to_string(n) + " entries"; return false; } }
    P = G->getPointerOperand(); }
  return true;
}
struct Base : Client {
  Meta &m; Output &O; int fg = -1; Base(Meta &m, Output &O) : m(m), O(O) {}
  unsigned maxPartitions() override { return 3000; }
  bool isFG(const Val &p) { return p.k == Val::Ptr && p.base == fg; }
  Val cfgVal(Engine &E, State &S, const Fld &f, std::map<int, int> &var, const std::map<std::string, i64> &fix, int idx) {
    auto it = fix.find(f.name); if (it != fix.end()) return Val::num(Lin(it->second));
    if (!var.count(idx)) var[idx] = E.fresh("cfg_" + f.name, f.kind == 2); Lin v = Lin::var(var[idx]);
    S.P.addGe(v); if (f.kind == 1) S.P.addGe(Lin(1) - v); if (f.name == "max_calls_per_tick") S.P.addGe(v - Lin(1));
    auto lo = fix.find(">" + f.name); if (lo != fix.end()) S.P.addGe(v - Lin(lo->second)); return Val::num(v); }
  static unsigned fsize(int k) { return k == 1 ? 1 : k == 3 ? 4 : 8; }
  static bool clock(const std::string &n) { return n.find("clock::now") != std::string::npos || n == "clock_gettime" || n == "gettimeofday" || n == "time" || n == "clock"; }
};
// ------------------------------------------------------------------ launching, stopping
struct Launch : Base {
  std::string scen; std::map<std::string, i64> fix; Snap &snap; std::map<int, int> var; int p1 = -1; bool ended = false; std::map<i64, std::pair<i64, unsigned>> *born = nullptr; bool seed = false;
  Launch(Meta &m, Output &O, const std::string &s, const std::map<std::string, i64> &fx, Snap &sn) : Base(m, O), scen(s), fix(fx), snap(sn) {}
  bool keyEnv(const Value *) override { return true; }
  bool keyCell(int b, i64 o) override { return b == fg && !m.inStats(o); }
  void init(Engine &E, State &S) override {
    if (E.objKey.count("param:0")) { fg = E.objKey["param:0"]; E.objs[fg].maybeNull = false; }
    if (seed && born) for (auto &b : *born) if (b.first != m.cb && b.first != m.ctx && !m.inStats(b.first)) S.mem[{fg, b.first}] = {Val::num(Lin(b.second.first)), b.second.second};
    if (E.objKey.count("param:1")) { p1 = E.objKey["param:1"]; E.objs[p1].maybeNull = false; int i = 0; for (auto &f : m.cfg) S.mem[{p1, f.off}] = {cfgVal(E, S, f, var, fix, i++), fsize(f.kind)}; } }
  Sym sym(Engine &E, State &S, const Val &v) { Sym r; if (v.k == Val::Ptr && v.base == fg && v.l.isConst()) { r.k = Sym::FG; r.c = v.l.c; return r; }
    if (v.k == Val::Ptr && v.base == 0 && v.l.isConst()) { r.k = Sym::Const; r.c = v.l.c; return r; }
    if (v.k == Val::Bool) { int t = E.truth(S, v.c); if (t >= 0) { r.k = Sym::Const; r.c = t; return r; } }
    if (v.k == Val::Num) { if (auto c = S.P.constOf(v.l)) { r.k = Sym::Const; r.c = *c; return r; } for (auto &p : var) if (S.P.entailsEq(v.l - Lin::var(p.second))) { r.k = Sym::Cfg; r.f = p.first; return r; } } return r; }
  void meet(Engine &E, State &S, int base, i64 lo, i64 hi, bool &seen, std::map<i64, std::pair<Sym, unsigned>> &into) {
    std::map<i64, std::pair<Sym, unsigned>> now; for (auto it = S.mem.lower_bound({base, lo}); it != S.mem.end() && it->first.first == base && it->first.second < hi; ++it) { Sym s = sym(E, S, it->second.v); if (s.k != Sym::Unknown) now[it->first.second - lo] = {s, it->second.size}; }
    if (!seen) { into = now; seen = true; return; }
    for (auto it = into.begin(); it != into.end();) { auto j = now.find(it->first); if (j == now.end() || !(j->second == it->second)) it = into.erase(it); else ++it; } }
  int live(State &S) { int n = 0; for (auto &p : S.d) if (p.second && p.first.compare(0, 5, "live:") == 0) n++; return n; }
  void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) override {
    if (!isFG(p)) return; std::string msg; if (!indexCheck(E, I, S, &msg)) E.report("C10:table-bounds", I, msg);
    E.count("flowgraph_accesses"); if (!(S.P.entailsGe(p.l) && S.P.entailsGe(Lin(m.objsize) - p.l - len))) E.report("C10:table-bounds", I, "access not shown to stay inside the flowgraph's tables");
    if (w && E.reporting && S.d["ncreate"] > 0 && !S.d["ran"] && live(S) && p.l.isConst() && len.isConst() && scen == "run_stop") snap.late.push_back({p.l.c, (unsigned)len.c, true, I->isAtomic(), "launcher", E.loc(I)}); }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override {
    if (p.k != Val::Ptr || !L->isAtomic()) return false;
    if (isFG(p) && p.l.isConst() && p.l.c == m.flag) { Val v = E.freshOf(L->getType(), "flag", S); S.env[L] = v; out.push_back(std::move(S)); return true; }
    S.env[L] = E.loadCell(S, p.base, p.l, L->getType(), L); out.push_back(std::move(S)); return true; }
  bool onStore(Engine &E, StoreInst *T, const Val &p, const Val &v, State &S, std::vector<State> &out) override {
    if (isFG(p) && p.l.isConst() && p.l.c == m.flag && T->isAtomic()) { Lin x = E.numOf(S, v); flagStore(E, T, x, S); }
    return false; }
  void flagStore(Engine &E, Instruction *I, const Lin &x, State &S) { auto c = S.P.constOf(x); S.d["flag"] = c ? (*c ? 2 : 1) : 3; E.count("stop_flag_stores");
    if (!(c && *c) && live(S)) E.report("C11,C08:lost-stop", I, "the stop request may be cleared while started tasks are running"); }
  bool onRMW(Engine &E, Instruction *I, const Val &p, State &S, std::vector<State> &out) override {
    if (isFG(p) && p.l.isConst() && p.l.c == m.flag) if (auto *R = dyn_cast<AtomicRMWInst>(I)) { Lin x = E.numOf(S, E.eval(S, R->getValOperand())); if (R->getOperation() == AtomicRMWInst::Xchg) { flagStore(E, I, x, S); Val old = E.freshOf(I->getType(), "flag", S); E.storeCell(S, p.base, p.l, 1, Val::num(x)); S.env[I] = old; out.push_back(std::move(S)); return true; } }
    return false; }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); };
    if (n == "sp_create") {
      E.count("task_starts"); if (S.d["flag"] != 1) E.report("C11:start-cleared", CB, "a task is started before the stop request is known to be cleared");
      int id = ++S.d["ncreate"]; S.d["live:" + std::to_string(id)] = 1;
      if (E.reporting && scen == "run_stop") { Task &t = snap.tasks[id]; t.id = id; Val f = A(0), c = A(1); if (f.k != Val::Fn || c.k != Val::Ptr || !c.l.isConst()) O.broken.push_back("task body not recognised"); else { if (t.fn && t.fn != f.fn) { snap.mixed = true; O.undecided.push_back("launch: several bodies for one task"); } t.fn = const_cast<Function *>(f.fn); meet(E, S, c.base, c.l.c, c.l.c + 4096, t.seen, t.clo); } }
      S.env[CB] = Val::num(Lin(id)); out.push_back(std::move(S)); return true; }
    if (n == "sp_join") { E.count("task_joins"); { auto &nj = S.d["njoin"]; if (nj < 200) nj++; } /* the joins of a loop stay apart */ Val v = A(0); auto c = v.k == Val::Num ? S.P.constOf(v.l) : std::nullopt;
      if (!c || *c < 1 || *c > S.d["ncreate"]) E.report("C11:join-unknown", CB, "joins a task that was not started by the latest run");
      else { if (S.d["flag"] != 2) E.report("C11:join-before-stop", CB, "waits for a task before the stop request is set"); S.d.erase("live:" + std::to_string(*c)); }
      out.push_back(std::move(S)); return true; }
    if (n == "sp_born") { Val p = A(0); if (E.reporting && born && p.k == Val::Ptr && p.l.isConst()) for (auto &c : S.mem) if (c.first.first == p.base && c.second.v.k == Val::Num && c.second.v.l.isConst() && c.second.size <= 8) (*born)[c.first.second - p.l.c] = {c.second.v.l.c, c.second.size}; out.push_back(std::move(S)); return true; }
    if (n == "sp_ran") { if (E.reporting && scen == "run_stop") meet(E, S, fg, 0, m.objsize, snap.seen, snap.fg); S.d["ran"] = 1; out.push_back(std::move(S)); return true; }
    if (n == "sp_end") { ended = true; E.count("lifecycle_ends"); if (live(S)) E.report("C11:left-running", CB, scen + ": " + std::to_string(live(S)) + " started task(s) are never joined"); if (scen != "none" && S.d["flag"] != 2) E.report("C11:stop-requested", CB, scen + ": the stop request is not set at the end"); out.push_back(std::move(S)); return true; }
    if (n.compare(0, 3, "sp_") == 0) { out.push_back(std::move(S)); return true; }
    if (n.find("EmbeddableString") != std::string::npos) { if (!CB->getType()->isVoidTy()) S.env[CB] = A(0); out.push_back(std::move(S)); return true; }
    if (clock(n)) { S.env[CB] = E.freshOf(CB->getType(), "now", S); out.push_back(std::move(S)); return true; }
    return false; }
};
// ------------------------------------------------------------------ one worker
struct Worker : Base {
  Snap &snap; Task &t; std::map<std::string, i64> fix; std::map<int, int> var; std::set<int> own; std::vector<Access> acc; std::map<int, std::string> procLoc; bool collect, adaptive; bool ret = false, lost = false; Lin thr, mx; i64 fatalFrom = -1;
  std::string who;
  bool keyEnv(const Value *v) override { return v->getType()->isIntegerTy(1) || v->getType()->isIntegerTy(8); }
  Worker(Meta &m, Output &O, Snap &s, Task &t, const std::map<std::string, i64> &fx) : Base(m, O), snap(s), t(t), fix(fx) { collect = fix["collect_detailed_stats"]; adaptive = fix["adaptive_sleep"]; who = "worker " + std::to_string(t.id); }
  bool keyCell(int b, i64 o) override { return b == fg && !m.inStats(o); }
  i64 st(int blk, const char *f) { return m.stats + m.stSize * blk + m.st[f]; }
  Val val(Engine &E, State &S, const Sym &s, unsigned size) { if (s.k == Sym::Const) return Val::num(Lin(s.c)); if (s.k == Sym::FG) return Val::ptr(fg, Lin(s.c)); return cfgVal(E, S, m.cfg[s.f], var, fix, s.f); }
  void init(Engine &E, State &S) override {
    int clo = E.objKey["param:0"]; E.objs[clo].maybeNull = false; fg = E.obj("flowgraph", "extern", false); VT();
    for (auto &p : t.clo) { Val v = val(E, S, p.second.first, p.second.second); S.mem[{clo, p.first}] = {v, p.second.second}; }
    for (auto &p : snap.fg) if (p.first != m.flag) S.mem[{fg, p.first}] = {val(E, S, p.second.first, p.second.second), p.second.second};
    for (size_t i = 0; i < m.cfg.size(); i++) { Val v = cfgVal(E, S, m.cfg[i], var, fix, (int)i); if (m.cfg[i].name == "adaptive_sleep_fail_threshold") thr = v.l; if (m.cfg[i].name == "adaptive_sleep_max_us") mx = v.l; }
    S.g["thr"] = thr; S.g["mx"] = mx;
    for (int b = 0; b < m.N; b++) { std::string s = std::to_string(b); int c = E.fresh("fails"), f = E.fresh("cf"), z = E.fresh("sleep", true); S.P.addGe(Lin::var(c)); S.P.addGe(Lin::var(f) - Lin::var(c)); S.P.addGe(Lin::var(z));
      if (adaptive) { S.mem[{fg, st(b, "consecutive_fails")}] = {Val::num(Lin::var(c)), 8}; S.mem[{fg, st(b, "current_adaptive_sleep_us")}] = {Val::num(Lin::var(z)), 8}; S.g["cf:" + s] = Lin::var(f); }
      if (collect) { S.g["ok:" + s] = Lin(0); S.g["er:" + s] = Lin(0); for (const char *f : {"successful_procedures", "failed_procedures"}) { Val v = E.loadCell(S, fg, Lin(st(b, f)), Type::getInt64Ty(E.M->getContext()), nullptr); if (v.k == Val::Num && v.l.isVar()) S.P.addGe(v.l); } } }
    S.d["idle"] = 0; S.d["last"] = 0;
  }
  void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) override {
    if (!isFG(p)) return; std::string msg; if (!indexCheck(E, I, S, &msg)) E.report("C10:table-bounds", I, msg);
    E.count("flowgraph_accesses"); if (!(S.P.entailsGe(p.l) && S.P.entailsGe(Lin(m.objsize) - p.l - len))) { E.report("C10:table-bounds", I, "access not shown to stay inside the flowgraph's tables"); return; }
    auto o = S.P.constOf(p.l); if (!o || !len.isConst()) { if (E.reporting) O.undecided.push_back(who + ": access at an unknown position, " + E.loc(I)); return; }
    bool at = I->isAtomic(); if (E.reporting) acc.push_back({*o, (unsigned)len.c, w, at, who, E.loc(I)});
    if (!at && *o <= m.flag && *o + len.c > m.flag) E.report("C15,C08:flag-atomic", I, "the stop request is accessed without synchronisation");
    if (w && m.inStats(*o)) { i64 f = (*o - m.stats) % m.stSize; if (!collect && (f == m.st["successful_procedures"] || f == m.st["failed_procedures"])) E.report("C13:disabled", I, "counts processing calls although statistics are disabled");
      if (!adaptive && (f == m.st["current_adaptive_sleep_us"] || f == m.st["consecutive_fails"])) E.report("C12:disabled", I, "changes adaptive-sleep state although adaptive sleep is disabled"); }
  }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override {
    if (p.k != Val::Ptr || !L->isAtomic()) return false;
    if (isFG(p) && p.l.isConst() && p.l.c == m.flag) { E.count("stop_checks");
      State T = S; if (S.d["stop"]) { int k = S.d["post"]; if (k <= 6 + 3 * m.N) T.d["post"] = k + 1; else if (E.reporting) E.report("C15,C11:never-leaves", L, "the worker keeps checking the stop request without leaving after it was set"); } T.d["stop"] = 1; T.d["chk"] = 0; T.env[L] = Val::num(Lin(1));
      if (!S.d["stop"]) { S.d["chk"] = 1; int id = S.d["idle"]; if (id < 9) S.d["idle"] = id + 1; if (id >= 8 && !own.empty() && E.reporting) E.report("C09:starved", L, "the worker can go round without calling any of its blocks"); S.env[L] = Val::num(Lin(0)); out.push_back(std::move(S)); }
      out.push_back(std::move(T)); return true; }
    S.env[L] = E.loadCell(S, p.base, p.l, L->getType(), L); out.push_back(std::move(S)); return true; }
  bool onStore(Engine &E, StoreInst *T, const Val &p, const Val &v, State &S, std::vector<State> &out) override { if (isFG(p) && p.l.isConst() && p.l.c == m.flag) { setFlag(E, T, E.numOf(S, v), S); out.push_back(std::move(S)); return true; } return false; }
  void setFlag(Engine &E, Instruction *I, const Lin &x, State &S) { E.count("stop_flag_stores"); auto c = S.P.constOf(x);
    if (!c || *c == 0) { E.report("C08,C11:lost-stop", I, "a worker may clear the stop request"); return; }
    if (!S.d["fatal"]) E.report("C09:spurious-stop", I, "the flowgraph is marked stopped although no fatal error occurred");
    S.d["stop"] = 1; S.d["set"] = 1; }
  bool onRMW(Engine &E, Instruction *I, const Val &p, State &S, std::vector<State> &out) override {
    if (!isFG(p)) return false; auto *R = dyn_cast<AtomicRMWInst>(I);
    if (p.l.isConst() && p.l.c == m.flag) { if (R && (R->getOperation() == AtomicRMWInst::Xchg || R->getOperation() == AtomicRMWInst::Or)) { Val old = E.freshOf(I->getType(), "flag", S); if (S.d["stop"]) old = Val::num(Lin(1)); setFlag(E, I, E.numOf(S, E.eval(S, R->getValOperand())), S); S.env[I] = old; out.push_back(std::move(S)); return true; } if (E.reporting) O.undecided.push_back(who + ": unusual update of the stop request"); return false; }
    onAccess(E, I, p, Lin(8), true, S);
    if (R && (R->getOperation() == AtomicRMWInst::Add || R->getOperation() == AtomicRMWInst::Sub || R->getOperation() == AtomicRMWInst::Xchg) && I->getType()->isIntegerTy(64)) {
      Val old = E.loadCell(S, p.base, p.l, I->getType(), I); Lin o = E.numOf(S, old), d = E.numOf(S, E.eval(S, R->getValOperand())); Lin nv = R->getOperation() == AtomicRMWInst::Add ? o + d : R->getOperation() == AtomicRMWInst::Sub ? o - d : d; E.storeCell(S, p.base, p.l, 8, Val::num(nv)); S.env[I] = Val::num(o); out.push_back(std::move(S)); return true; }
    return false; }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); };
    if (n == "sp_proc") {
      E.count("procedure_calls"); Lin bi = E.numOf(S, A(0)), T = E.numOf(S, A(2)); if (!bi.isConst() || !T.isConst()) { O.broken.push_back("block call not recognised"); out.push_back(std::move(S)); return true; } int b = (int)bi.c; std::string s = std::to_string(b); own.insert(b); if (E.reporting) procLoc[b] = E.loc(CB);
      if (S.d["fatal"]) E.report("C08:call-after-fatal", CB, "a processing call may follow a fatal error on the same worker");
      if (!S.d["chk"]) E.report("C15:stop-check", CB, "a processing call is not preceded by a check of the stop request since the previous one");
      S.d["chk"] = 0; S.d["idle"] = 0;
      if (S.d["last"] != b + 1) for (int o : own) if (o != b) { std::string k = "sw:" + std::to_string(o); int c = S.d[k]; if (c <= 2 * m.N) S.d[k] = c + 1; if (E.reporting && S.d[k] > 2 * (int)own.size()) E.report("C09:starved", CB, "block " + std::to_string(o) + " may never be called again while the worker keeps calling other blocks"); }
      S.d["last"] = b + 1; S.d.erase("sw:" + s);
      { State U = S; if (collect) U.g["ok:" + s] = U.g["ok:" + s] + Lin(1); if (adaptive) U.g["cf:" + s] = Lin(0); U.env[CB] = Val::num(Lin(-1)); out.push_back(std::move(U)); }
      for (int f = 0; f < 2; f++) { State U = S; int e = E.fresh("err"); if (f) { U.P.addGe(Lin::var(e) - T); U.P.addGe(T + Lin(63) - Lin::var(e)); } else { U.P.addGe(Lin::var(e)); U.P.addGe(T - Lin(1) - Lin::var(e)); } if (collect) U.g["er:" + s] = U.g["er:" + s] + Lin(1); if (adaptive) U.g["cf:" + s] = U.g["cf:" + s] + Lin(1); if (f) U.d["fatal"] = 1; U.env[CB] = Val::num(Lin::var(e)); out.push_back(std::move(U)); }
      return true; }
    if (n == "sp_sleep") { E.count("adaptive_sleeps");
      if (!adaptive) E.report("C12:disabled", CB, "an adaptive delay although adaptive sleep is disabled");
      else { Val u = A(0); Lin us = E.numOf(S, u); int b = S.d["last"] - 1; if (b < 0) E.report("C12:threshold", CB, "a delay before any processing call"); else if (!S.P.entailsGe(S.g["cf:" + std::to_string(b)] - S.g["thr"] - Lin(1))) E.report("C12:threshold", CB, "a delay without more consecutive failures of that block than the threshold");
        if (!S.P.entailsGe(S.g["mx"] - us)) E.report("C12:maximum", CB, "the delay is not shown to stay within the configured maximum"); }
      out.push_back(std::move(S)); return true; }
    if (n.compare(0, 3, "sp_") == 0) { out.push_back(std::move(S)); return true; }
    if (n.find("EmbeddableString") != std::string::npos) { if (!CB->getType()->isVoidTy()) S.env[CB] = A(0); out.push_back(std::move(S)); return true; }
    if (clock(n)) { E.count("clock_reads"); if (!collect) E.report("C13:disabled", CB, "reads a clock although statistics are disabled"); S.env[CB] = E.freshOf(CB->getType(), "now", S); out.push_back(std::move(S)); return true; }
    if (!CB->getCalledFunction() && !CB->isInlineAsm()) { Val f = E.eval(S, CB->getCalledOperand()); std::string want = "init:" + std::to_string(fg) + ":" + std::to_string(m.cb) + ":";
      if (f.k == Val::Ptr && E.objs[f.base].name.compare(0, want.size(), want) == 0) { E.count("callback_calls");
        if (!S.d["fatal"]) E.report("C09:spurious-callback", CB, "the termination callback is invoked without a fatal error");
        if (!S.d["set"]) E.report("C08:callback-order", CB, "the termination callback runs before the flowgraph is marked stopped");
        if (S.d["cb"]) E.report("C08:callback-once", CB, "the termination callback may be invoked twice for one error");
        Val c = CB->arg_size() ? A(0) : Val(); std::string wc = "init:" + std::to_string(fg) + ":" + std::to_string(m.ctx) + ":"; if (!(c.k == Val::Ptr && E.objs[c.base].name.compare(0, wc.size(), wc) == 0 && c.l.isConst() && c.l.c == 0)) E.report("C08:callback-context", CB, "the termination callback is not given the registered context");
        if (E.truth(S, cNull(f.base)) != 0) { E.report("C08:callback-null", CB, "the termination callback may be null"); }
        S.d["cb"] = 1; out.push_back(std::move(S)); return true; }
      if (E.reporting) O.undecided.push_back(who + ": indirect call not understood at " + E.loc(CB)); lost = true; return true; }
    return false; }
  void onReturn(Engine &E, ReturnInst *R, const Val *, State &S) override {
    ret = true; E.count("worker_exits");
    if (!S.d["stop"]) E.report("C09:early-exit", R, "the worker leaves although no stop was requested");
    if (S.d["fatal"]) { if (!S.d["set"]) E.report("C08:not-stopped", R, "after a fatal error the worker leaves without marking the flowgraph stopped");
      if (!S.d["cb"]) { std::string k = "init:" + std::to_string(fg) + ":" + std::to_string(m.cb) + ":0"; auto it = E.objKey.find(k); if (it == E.objKey.end() || E.truth(S, cNull(it->second)) != 1) E.report("C08:callback-missing", R, "after a fatal error the registered termination callback may not be invoked"); } }
    if (collect) for (int b : own) { std::string s = std::to_string(b); for (int k = 0; k < 2; k++) { Val v = E.loadCell(S, fg, Lin(st(b, k ? "failed_procedures" : "successful_procedures")), Type::getInt64Ty(E.M->getContext()), R); E.count("statistics_checked"); Lin want = S.g[(k ? "er:" : "ok:") + s];
        if (v.k != Val::Num || !S.P.entailsEq(v.l - want)) E.report("C13:count", R, std::string("the block's ") + (k ? "failure" : "success") + " count is not shown to equal the number of such calls in this run"); } }
  }
};
}

int runSched(Module &M, Output &O, const std::vector<std::string> &args) {
  int onlyN = atoi(arg(args, "n", "0").c_str()); std::string deep = arg(args, "deep", "1"), onlyScen = arg(args, "scen"); bool trace = arg(args, "trace") == "1"; int onlyW = atoi(arg(args, "w", "-1").c_str());
  inlineAll(M, [&](const std::string &n, Function &F) { return (F.hasExternalLinkage() && !F.hasLinkOnceODRLinkage()) || n.find("sp_body<") != std::string::npos || n.find("EmbeddableString") != std::string::npos; });
  runPasses(M, "function(loop-simplify,loop-mssa(loop-rotate),loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup>,adce)");
  auto cst = [&](const std::string &n) -> i64 { auto *G = M.getGlobalVariable(n); return G && G->hasInitializer() ? cast<ConstantInt>(G->getInitializer())->getSExtValue() : -1; };
  struct Addr : Client { i64 off = -1; bool atom = false; std::set<i64> loads; void onReturn(Engine &E, ReturnInst *, const Val *v, State &S) override { if (v && v->k == Val::Ptr && v->base == E.objKey["param:0"]) if (auto c = S.P.constOf(v->l)) off = *c; } void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &, bool, State &S) override { if (p.k == Val::Ptr && p.base == E.objKey["param:0"] && p.l.isConst()) { loads.insert(p.l.c); atom = I->isAtomic(); } } };
  auto addr = [&](const std::string &fn, bool load, bool *atom = nullptr) -> i64 { Function *F = M.getFunction(fn); if (!F || F->isDeclaration()) return -1; Addr a; Engine E(F, &a); E.run(); if (atom) *atom = a.atom; if (load) return a.loads.size() == 1 ? *a.loads.begin() : -1; return a.off; };
  Meta base; base.stSize = cst("stats_size"); base.cfgSize = cst("cfg_size");
  for (auto &p : std::vector<std::pair<const char *, int>>{{"scheduler", 3}, {"num_workers", 0}, {"adaptive_sleep", 1}, {"adaptive_sleep_multiplier", 2}, {"adaptive_sleep_max_us", 2}, {"adaptive_sleep_fail_threshold", 0}, {"collect_detailed_stats", 1}, {"max_calls_per_tick", 0}, {"pin_workers", 1}}) { Fld f; f.name = p.first; f.kind = p.second; f.off = addr(std::string("adr__cfg_") + p.first, false); base.cfg.push_back(f); if (f.off < 0) O.broken.push_back("configuration field not found: " + f.name); }
  for (auto *s : {"successful_procedures", "failed_procedures", "current_adaptive_sleep_us", "consecutive_fails"}) if ((base.st[s] = addr(std::string("adr__st_") + s, false)) < 0) O.broken.push_back(std::string("statistics field not found: ") + s);
  std::set<int> Ns; for (auto &F : M) if (F.getName().starts_with("life__none__")) Ns.insert(atoi(F.getName().str().c_str() + 12));
  for (int N : Ns) {
    if (onlyN && N != onlyN) continue; Meta m = base; m.N = N; std::string ns = std::to_string(N); bool at = false;
    m.objsize = cst("objsize_" + ns); m.flag = addr("acc__flag__" + ns, true, &at); m.cb = addr("acc__cb__" + ns, true); m.ctx = addr("acc__ctx__" + ns, true); m.stats = addr("adr__stats__" + ns, false);
    if (m.flag < 0 || m.stats < 0 || m.cb < 0 || m.ctx < 0) { O.broken.push_back("flowgraph fields not recognised for " + ns + " blocks"); continue; }
    if (!at) { O.add("C15,C08", "flag-atomic", "is_stopped", "include/cler.hpp", "the stop request is not an atomic variable"); continue; }
    std::map<i64, std::pair<i64, unsigned>> born; // a new flowgraph: used only when an arbitrary earlier state is too much to follow
    auto life = [&](const std::string &sc, const std::map<std::string, i64> &fix, Snap &sn) { Function *F = M.getFunction("life__" + sc + "__" + ns); if (!F) { O.broken.push_back("scenario missing " + sc); return; }
      for (int seed = 0; seed < 2; seed++) { Snap s0; Launch L(m, O, sc, fix, s0); L.born = &born; L.seed = seed; Engine E(F, &L); E.trace = trace; E.run(); if (E.aborted && !seed && !born.empty()) { O.stats["launches_from_new_flowgraphs_only"]++; continue; } sn = s0; std::string nm = sc + "<" + ns + " blocks"; for (auto &f : fix) nm += "," + f.first + "=" + std::to_string(f.second); nm += ">"; O.take(E, nm); O.analysed.push_back(nm); if (!L.ended && !E.aborted) O.broken.push_back(nm + ": end never reached"); break; } };
    { Snap s; life("none", {}, s); }
    for (int W = 0; W <= N + 1; W++) { // W==0: thread per block, W==N+1: pool with more workers than blocks
      if (onlyW >= 0 && W != onlyW) continue;
      for (int col = 0; col < 2; col++) {
        if (deep == "0" && col) continue;
        std::map<std::string, i64> fix; fix["scheduler"] = W ? 1 : 0; if (W == N + 1) fix[">num_workers"] = N + 1; else if (W) fix["num_workers"] = W; fix["collect_detailed_stats"] = col;
        Snap sn; for (auto *sc : {"run_stop", "run_stop_stop", "run_destroy", "run_stop_run_stop", "run_for"}) { if (!onlyScen.empty() && onlyScen != sc && std::string(sc) != "run_stop") continue; if (deep == "0" && std::string(sc) != "run_stop") continue; Snap tmp; life(sc, fix, std::string(sc) == "run_stop" ? sn : tmp); }
        if (sn.mixed || !sn.seen || sn.tasks.empty()) { O.undecided.push_back("launch of " + ns + " blocks not resolved"); continue; }
        O.stats["launches"]++;
        for (int ad = 0; ad < 2; ad++) { if (deep == "0" && ad) continue;
          auto fx = fix; fx["adaptive_sleep"] = ad; std::vector<Access> acc; std::map<int, std::vector<int>> owners; std::map<int, std::string> loc; bool ok = true;
          for (auto &tp : sn.tasks) { Task &t = tp.second; if (!t.fn) { ok = false; continue; } std::string nm = "worker " + std::to_string(t.id) + "<" + ns + " blocks" + (W == 0 ? ",thread per block" : W == N + 1 ? ",pool>blocks" : ",pool of " + std::to_string(W)) + (col ? ",stats" : "") + (ad ? ",adaptive" : "") + ">";
            Worker Wk(m, O, sn, t, fx); Engine E(t.fn, &Wk); E.trace = trace; E.run(); O.take(E, nm); O.analysed.push_back(nm); O.stats["workers"]++; if (E.aborted) { ok = false; continue; } if (Wk.lost) { ok = false; continue; } if (!Wk.ret) O.add("C11,C15", "never-leaves", nm, "include/cler.hpp", "the worker cannot leave its loop after a stop request");
            for (int b : Wk.own) { owners[b].push_back(t.id); loc[b] = Wk.procLoc[b]; } for (auto &a : Wk.acc) acc.push_back(a); }
          if (!ok) continue; std::string cfgn = ns + " blocks, " + (W == 0 ? std::string("thread per block") : W == N + 1 ? "pool with more workers" : std::to_string(W) + " pool workers");
          for (int b = 0; b < N; b++) { O.stats["block_assignments"]++; if (owners[b].empty()) O.add("C10,C09", "unassigned", "FlowGraph", "include/cler.hpp", "with " + cfgn + ": block " + std::to_string(b) + " is run by no worker"); if (owners[b].size() > 1) O.add("C10", "shared", "FlowGraph", loc[b], "with " + cfgn + ": block " + std::to_string(b) + " is run by more than one worker"); }
          std::map<std::pair<i64, unsigned>, std::vector<Access>> by; std::set<std::string> dup; for (auto &a : acc) if (dup.insert(std::to_string(a.off) + a.who + (a.write ? "w" : "r") + (a.atomic ? "a" : "n")).second) by[{a.off / 8, 0}].push_back(a);
          for (auto &p : by) for (auto &a : p.second) { if (!a.write) continue; for (auto &b : p.second) { if (a.who == b.who || (a.atomic && b.atomic)) continue; if (a.off >= b.off + b.size || b.off >= a.off + a.size) continue; O.stats["shared_accesses_compared"]++; O.add(m.inStats(a.off) ? "C13" : "C10", "race", a.who + " / " + b.who, a.loc, "two workers access the same scheduler data without synchronisation (" + b.loc + ")"); } }
          // atomics of another block's statistics
          for (auto &p : by) for (auto &a : p.second) if (a.write && a.atomic && m.inStats(a.off)) for (auto &b : p.second) if (b.who != a.who && b.write) O.add("C13", "race", a.who + " / " + b.who, a.loc, "two workers write the same block's statistics");
          for (auto &l : sn.late) for (auto &a : acc) if (!(l.atomic && a.atomic) && l.off < a.off + (i64)a.size && a.off < l.off + (i64)l.size) O.add("C10,C11", "late-write", "FlowGraph", l.loc, "the launching code still writes data that started tasks use (" + a.loc + ")");
        } } }
  }
  return 0;
}
