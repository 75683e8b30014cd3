// Queue checker: C01-C05, C07 on every channel operation.
#include "common.hpp"
#include "llvm/IR/InstIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
using namespace llvm;

struct FieldAcc { i64 off; unsigned size; bool atomic, write; char side; std::string op, loc; };
struct QMeta {
  std::string var; i64 sz = 0, objsize = 0; i64 W = -1, R = -1; bool heap = true; i64 K = 0; std::set<i64> bufField;
  std::map<i64, i64> capCoef; i64 capC = 0; std::map<i64, i64> capEq, capEqSz, constF;
  std::set<i64> pCache, cCache; std::vector<FieldAcc> acc; std::set<i64> dropped;
};
static bool isFieldPtr(const Val &p) { return p.k == Val::Ptr && p.base == 1; }

// ------------------------------------------------------------------ discovery
struct Disc : Client {
  QMeta &m; char side; std::string op; std::map<int, i64> loadVar; std::map<i64, int> stores; std::map<i64, int> kvotes; std::set<i64> ptrField; Lin ret; bool haveRet = false; int p0 = -1;
  Disc(QMeta &m, char s, std::string o) : m(m), side(s), op(o) {}
  void init(Engine &E, State &S) override { p0 = E.objKey["param:0"]; E.objs[p0].maybeNull = false; for (auto &p : S.env) if (p.second.k == Val::Num) S.P.addGe(p.second.l); }
  void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) override {
    if (p.k != Val::Ptr) return;
    if (p.base == p0) {
      if (p.l.isConst() && len.isConst()) { bool at = false; if (auto *L = dyn_cast<LoadInst>(I)) at = L->isAtomic(); else if (auto *T = dyn_cast<StoreInst>(I)) at = T->isAtomic(); else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) at = true;
        if (E.reporting) m.acc.push_back({p.l.c, (unsigned)len.c, at, w, side, op, E.loc(I)});
        if (at && w) stores[p.l.c]++; }
      else slot(S, p.l);
    } else if (E.objs[p.base].name.compare(0, 7, "init:" + std::to_string(p0) + ":") == 0) ptrField.insert(atoll(E.objs[p.base].name.c_str() + 7));
  }
  void slot(State &S, const Lin &off0) { Lin off = S.P.norm(off0); for (auto &v : loadVar) { Lin d = S.P.norm(off - Lin::var(v.first) * m.sz); if (d.isConst()) kvotes[d.c]++; } }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override {
    if (p.k == Val::Ptr && p.base == p0 && L->isAtomic() && p.l.isConst()) { Val v = E.freshOf(L->getType(), "a", S); if (v.k == Val::Num) { S.P.addGe(v.l); loadVar[v.l.t[0].first] = p.l.c; } S.env[L] = v; out.push_back(std::move(S)); return true; }
    return false; }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    if (n.compare(0, 5, "Opq::") == 0) { for (unsigned i = 0; i < CB->arg_size(); i++) { Val p = E.eval(S, CB->getArgOperand(i)); if (p.k == Val::Ptr) onAccess(E, CB, p, Lin(m.sz), i == 0, S); } S.env[CB] = E.eval(S, CB->getArgOperand(0)); out.push_back(std::move(S)); return true; }
    return false; }
  void onReturn(Engine &E, ReturnInst *, const Val *v, State &S) override { if (v && v->k == Val::Num && E.reporting) { Lin r = S.P.norm(v->l); for (auto &t : r.t) if (VT().imprecise[t.first]) return; ret = r; haveRet = true; } }
};

// ------------------------------------------------------------------ one operation
struct QOp : Client {
  QMeta &m; char side; std::string op; unsigned cacheCase; int p0 = 0; std::map<int, std::pair<int, Lin>> origin; bool query, commit; Lin count; bool hasCount = false; int srcObj = 0;
  std::set<i64> own; bool assumeInv;
  QOp(QMeta &m, char s, std::string o, unsigned cc, bool q, bool inv) : m(m), side(s), op(o), cacheCase(cc), query(q), assumeInv(inv) { commit = o.compare(0, 6, "commit") == 0; own = s == 'P' ? m.pCache : m.cCache; for (i64 d : m.dropped) own.erase(d); }
  i64 ownOff() { return side == 'P' ? m.W : m.R; } i64 oppOff() { return side == 'P' ? m.R : m.W; }
  void init(Engine &E, State &S) override {
    p0 = E.objKey["param:0"]; E.objs[p0].maybeNull = false;
    for (auto &A : E.F->args()) { Val v = S.env[&A]; if (v.k == Val::Num) { S.P.addGe(v.l); count = v.l; hasCount = true; } else if (v.k == Val::Ptr) E.objs[v.base].maybeNull = false; }
    if (E.F->arg_size() > 1) srcObj = E.objKey.count("param:1") ? E.objKey["param:1"] : 0;
    Lin cap(m.capC); for (auto &p : m.capCoef) { int v = cellVar(E, S, p.first, "cap"); cap = cap.addmul(Lin::var(v), p.second); }
    S.P.addGe(cap - Lin(2));
    for (auto &p : m.capEq) S.P.addEq(Lin::var(cellVar(E, S, p.first, "capcopy")) - cap - Lin(p.second));
    for (auto &p : m.capEqSz) S.P.addEq(Lin::var(cellVar(E, S, p.first, "capbytes")) - cap * m.sz - Lin(p.second));
    for (auto &p : m.constF) S.P.addEq(Lin::var(cellVar(E, S, p.first, "const")) - Lin(p.second));
    int w = E.fresh("own"), f = E.fresh("F"); S.P.addGe(Lin::var(w)); S.P.addGe(cap - Lin(1) - Lin::var(w)); S.P.addGe(Lin::var(f)); S.P.addGe(cap - Lin(1) - Lin::var(f));
    S.g["own"] = Lin::var(w); S.g["Fu"] = S.g["Fs"] = Lin::var(f); S.g["wr"] = Lin(0); S.g["done"] = Lin(0); S.g["cap"] = cap; if (hasCount) S.g["count"] = count; S.g["pa"] = S.g["pb"] = Lin(0);
    unsigned k = 0;
    if (assumeInv) for (i64 o : own) { Lin x = Lin::var(cellVar(E, S, o, "cache")); S.P.addGe(x); S.P.addGe(cap - Lin(1) - x); bool hi = cacheCase >> k & 1; k++;
      Lin fr = caseFree(S, x, hi); S.P.addGe(Lin::var(f) - fr); S.d["hi"] = hi; if (commit) S.P.addGe(fr - count); }
    if (commit) { S.P.addGe(Lin::var(f) - count); S.g["wr"] = count * m.sz; }
  }
  // hi: (producer) x > own, (consumer) x >= own ; returns free/available computed from x, adding the case condition
  Lin caseFree(State &S, const Lin &x, bool hi) { Lin own = S.g["own"], cap = S.g["cap"];
    if (side == 'P') { if (hi) { S.P.addGe(x - own - Lin(1)); return x - own - Lin(1); } S.P.addGe(own - x); return cap - own + x - Lin(1); }
    if (hi) { S.P.addGe(x - own); return x - own; } S.P.addGe(own - x - Lin(1)); return cap - own + x; }
  int cellVar(Engine &E, State &S, i64 off, const char *n) { auto key = std::make_pair(p0, std::make_pair(off, 0)); auto it = E.initCell.find(key); if (it != E.initCell.end()) return it->second.l.t[0].first; int v = E.fresh(n); E.initCell[key] = Val::num(Lin::var(v)); S.mem[{p0, off}] = {Val::num(Lin::var(v)), 8}; S.P.addGe(Lin::var(v)); return v; }
  bool isSlot(Engine &E, const Val &p, Lin *rel) {
    if (p.k != Val::Ptr) return false;
    if (m.heap) { const std::string &n = E.objs[p.base].name; std::string pre = "init:" + std::to_string(p0) + ":"; if (n.compare(0, pre.size(), pre)) return false; *rel = p.l; return true; }
    if (p.base != p0) return false; if (p.l.isConst() && (p.l.c < m.K || p.l.c >= m.K + (m.capC)*m.sz)) return false; *rel = p.l - Lin(m.K); return true;
  }
  // 1: linear part, 2: wrapped part
  int where(State &S, const Lin &off, const Lin &len, const char *F, Lin *p) {
    Lin own = S.g["own"] * m.sz, cap = S.g["cap"] * m.sz, lim = own + S.g[F] * m.sz;
    if (S.P.entailsGe(off - own) && S.P.entailsGe(lim - off - len) && S.P.entailsGe(cap - off - len)) { *p = off - own; return 1; }
    if (S.P.entailsGe(off) && S.P.entailsGe(lim - cap - off - len)) { *p = off - own + cap; return 2; }
    return 0;
  }
  void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) override {
    Lin rel;
    if (isSlot(E, p, &rel)) {
      E.count("slot_accesses"); if (side == 'C' || w) S.d["relf"] = 0; if (S.P.entailsEq(len)) return; Lin pos;
      if (where(S, rel, len, "Fu", &pos)) return;
      std::string what = side == 'P' ? "writes an item slot" : "reads an item slot";
      if (where(S, rel, len, "Fs", &pos)) E.report("C01:acquire", I, op + ": " + what + " relying on the other side's position obtained without an acquire ordering");
      else E.report("C01,C03,C04:slot-region", I, op + ": cannot show that the storage accessed lies in the region this side owns (" + std::string(side == 'P' ? "free" : "filled") + " slots, inside the ring)");
      return;
    }
    if (srcObj && p.k == Val::Ptr && p.base == srcObj && xfer()) { E.count("user_buffer_accesses"); Lin lim = hasCount ? S.g["count"] * m.sz : Lin(m.sz);
      if (!S.P.entailsEq(len) && !(S.P.entailsGe(p.l) && S.P.entailsGe(lim - p.l - len))) E.report("C04:user-bounds", I, op + ": cannot show that the access stays inside the caller's buffer"); }
  }
  bool xfer() { return op.find("push") != std::string::npos || op.find("pop") != std::string::npos || op == "writeN" || op == "readN"; }
  // an item range at logical byte position p was transferred, user offset u
  void transfer(Engine &E, Instruction *I, State &S, const Lin &p, const Lin &u, const Lin &len) {
    if (S.P.entailsEq(len)) return;
    E.count("transfers");
    if (!S.P.entailsEq(u - p - S.g["done"] * m.sz)) { E.report("C04:mapping", I, op + ": item positions in the ring and in the caller's buffer do not correspond"); return; }
    Lin wr = S.g["wr"], pa = S.g["pa"], pb = S.g["pb"]; bool pend = S.d["pend"];
    if (S.P.entailsEq(p - wr)) { S.g["wr"] = wr + len; if (pend && S.P.entailsEq(pa - S.g["wr"])) { S.g["wr"] = pb; S.d["pend"] = 0; S.g["pa"] = S.g["pb"] = Lin(0); } return; }
    if (!pend) { S.d["pend"] = 1; S.g["pa"] = p; S.g["pb"] = p + len; return; }
    if (S.P.entailsEq(p - pb)) { S.g["pb"] = p + len; return; }
    if (S.P.entailsEq(p + len - pa)) { S.g["pa"] = p; return; }
    if (S.P.entailsGe(p) && S.P.entailsGe(wr - p - len)) return; // written again
    E.report("C04:coverage", I, op + ": transferred ranges leave a gap");
  }
  void moved(Engine &E, Instruction *I, State &S, const Val &dst, int sb, const Lin &so, const Lin &len) {
    Lin rel, pos; 
    if (isSlot(E, dst, &rel)) { if (side == 'P') { if (!where(S, rel, len, "Fs", &pos)) return; if (sb == srcObj && srcObj) transfer(E, I, S, pos, so, len); else if (!S.P.entailsEq(len)) E.report("C04:foreign-item", I, op + ": stores something other than the caller's item into the ring"); } return; }
    if (side == 'C' && dst.k == Val::Ptr && dst.base == srcObj && xfer()) { Val sp = Val::ptr(sb, so); if (isSlot(E, sp, &rel)) { if (where(S, rel, len, "Fs", &pos)) transfer(E, I, S, pos, dst.l, len); } else if (!S.P.entailsEq(len)) E.report("C04:foreign-item", I, op + ": hands the caller something other than a queued item"); return; }
    if (dst.k == Val::Ptr && E.objs[dst.base].kind == "alloca") { S.g["ao:" + std::to_string(dst.base)] = so - dst.l; S.d["ab:" + std::to_string(dst.base)] = sb; }
  }
  void onCopy(Engine &E, Instruction *I, const Val &d, const Val &s, const Lin &len, State &S) override {
    if (s.k == Val::Ptr && E.objs[s.base].kind == "alloca") { auto it = S.d.find("ab:" + std::to_string(s.base)); if (it != S.d.end() && it->second) { moved(E, I, S, d, it->second, S.g["ao:" + std::to_string(s.base)] + s.l, len); return; } }
    moved(E, I, S, d, s.base, s.l, len);
  }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    if (n.compare(0, 5, "Opq::") == 0) {
      E.count("item_operations");
      Val a = E.eval(S, CB->getArgOperand(0));
      if (CB->arg_size() == 2) { Val b = E.eval(S, CB->getArgOperand(1)); if (b.k == Val::Ptr) onAccess(E, CB, b, Lin(m.sz), false, S); if (a.k == Val::Ptr) onAccess(E, CB, a, Lin(m.sz), true, S); if (a.k == Val::Ptr && b.k == Val::Ptr) onCopy(E, CB, a, b, Lin(m.sz), S); }
      if (!CB->getType()->isVoidTy()) S.env[CB] = a; out.push_back(std::move(S)); return true; }
    if (n == "verif_filled") { Lin k = E.numOf(S, E.eval(S, CB->getArgOperand(0))); S.g["wr"] = k * m.sz; out.push_back(std::move(S)); return true; }
    return false;
  }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override {
    if (p.k != Val::Ptr) return false; Lin rel;
    if (p.base == p0 && L->isAtomic() && p.l.isConst()) {
      if (p.l.c == ownOff()) { S.env[L] = Val::num(S.g["own"]); E.count("index_loads"); out.push_back(std::move(S)); return true; }
      if (p.l.c == oppOff()) {
        E.count("index_loads"); bool acq = L->getOrdering() == AtomicOrdering::Acquire || L->getOrdering() == AtomicOrdering::SequentiallyConsistent;
        for (int hi = 0; hi < 2; hi++) { State T = S; Lin x = Lin::var(E.fresh(side == 'P' ? "r" : "w")); T.P.addGe(x); T.P.addGe(T.g["cap"] - Lin(1) - x); Lin f = caseFree(T, x, hi); T.P.addGe(f - T.g["Fs"]);
          if (T.P.isBot()) continue; T.g["Fs"] = f; if (acq) T.g["Fu"] = f; int n = T.d["ld"]; if (n < 3) T.d["ld"] = n + 1; T.g["F" + std::to_string(n + 1)] = f; T.d["hi"] = hi; T.env[L] = Val::num(x); out.push_back(std::move(T)); }
        return true; }
    }
    bool slot = isSlot(E, p, &rel);
    if ((slot && side == 'C') || (srcObj && p.base == srcObj && side == 'P' && xfer())) { Type *T = L->getType(); if (T->isIntegerTy() || T->isFloatingPointTy()) { int v = E.fresh("data", T->isFloatingPointTy()); origin[v] = {p.base, p.l}; S.env[L] = Val::num(Lin::var(v)); out.push_back(std::move(S)); return true; } }
    return false;
  }
  bool onStore(Engine &E, StoreInst *T, const Val &p, const Val &v, State &S, std::vector<State> &out) override {
    if (p.k != Val::Ptr) return false; Lin rel; unsigned sz = (unsigned)E.DL->getTypeStoreSize(T->getValueOperand()->getType()).getFixedValue();
    if (p.base == p0 && T->isAtomic() && p.l.isConst()) {
      if (p.l.c == ownOff()) { publish(E, T, E.numOf(S, v), T->getOrdering(), S); out.push_back(std::move(S)); return true; }
      E.report("C02:ownership", T, op + ": stores an index that belongs to the other side"); out.push_back(std::move(S)); return true; }
    bool slot = isSlot(E, p, &rel);
    if (slot || (side == 'C' && p.base == srcObj && xfer())) {
      int sb = -1; Lin so; if (v.k == Val::Num && v.l.isVar()) { auto it = origin.find(v.l.t[0].first); if (it != origin.end()) { sb = it->second.first; so = it->second.second; } }
      if (sb >= 0) moved(E, T, S, p, sb, so, Lin(sz)); else if (slot && side == 'P') E.report("C04:foreign-item", T, op + ": stores something other than the caller's item into the ring"); else if (!slot) E.report("C04:foreign-item", T, op + ": hands the caller something other than a queued item");
      out.push_back(std::move(S)); return true; }
    if (E.objs[p.base].kind == "alloca") { S.d.erase("ab:" + std::to_string(p.base)); }
    return false;
  }
  bool onRMW(Engine &E, Instruction *I, const Val &p, State &S, std::vector<State> &out) override {
    if (isFieldPtr(p) && p.l.isConst() && (p.l.c == m.W || p.l.c == m.R)) {
      if (auto *R = dyn_cast<AtomicRMWInst>(I)) { if (p.l.c == ownOff() && R->getOperation() == AtomicRMWInst::Xchg) { Lin old = S.g["own"]; publish(E, I, E.numOf(S, E.eval(S, R->getValOperand())), R->getOrdering(), S); S.env[I] = Val::num(old); out.push_back(std::move(S)); return true; } }
      E.report("C02:ownership", I, op + ": read-modify-write on a queue index"); }
    return false;
  }
  void publish(Engine &E, Instruction *I, const Lin &v, AtomicOrdering ord, State &S) {
    E.count("publications"); if (query) { E.report("C02:ownership", I, op + ": a query changes a queue index"); return; }
    bool rel = ord == AtomicOrdering::Release || ord == AtomicOrdering::AcquireRelease || ord == AtomicOrdering::SequentiallyConsistent || S.d["relf"];
    if (!rel) E.report("C01:release", I, op + ": publishes its position without release ordering");
    Lin own = S.g["own"], cap = S.g["cap"], wr = S.g["wr"];
    if (!(S.P.entailsGe(v) && S.P.entailsGe(cap - Lin(1) - v))) E.report("C04:index-range", I, op + ": published position may lie outside the ring");
    Lin n; bool ok = false;
    if (!S.d["pend"]) { if (S.P.entailsEq((v - own) * m.sz - wr)) { n = v - own; ok = true; } else if (S.P.entailsEq((v - own + cap) * m.sz - wr)) { n = v - own + cap; ok = true; } }
    if (!ok) { E.report("C04,C01,C03:advance", I, op + ": published position does not advance by exactly the items completely " + std::string(side == 'P' ? "written" : "read")); n = Lin::var(E.fresh("n")); }
    if (ok && !S.P.entailsGe(S.g["Fu"] - n)) E.report(S.P.entailsGe(S.g["Fs"] - n) ? "C01:acquire" : "C03,C01:capacity", I, op + ": may " + std::string(side == 'P' ? "fill more slots than are free" : "release more items than are queued"));
    S.g["own"] = v; S.g["Fu"] = S.g["Fu"] - n; S.g["Fs"] = S.g["Fs"] - n; S.g["wr"] = Lin(0); S.g["done"] = S.g["done"] + n;
  }
  void onFence(Engine &E, FenceInst *F, State &S) override { auto o = F->getOrdering(); bool sc = o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; if (F->getSyncScopeID() == SyncScope::SingleThread) return;
    if (sc || o == AtomicOrdering::Release) S.d["relf"] = 1; if (sc || o == AtomicOrdering::Acquire) S.g["Fu"] = S.g["Fs"]; }
  void onReturn(Engine &E, ReturnInst *R, const Val *v, State &S0) override {
    E.count("return_states");
    // invariants of the cached positions
    if (!query) for (i64 o : own) { if (!S0.mem.count({p0, o})) continue; State S = S0; Val c = E.loadCell(S, p0, Lin(o), Type::getInt64Ty(E.M->getContext()), R); Lin x = E.numOf(S, c);
      bool ok = S.P.entailsGe(x) && S.P.entailsGe(S.g["cap"] - Lin(1) - x);
      for (int hi = 0; hi < 2 && ok; hi++) { State T = S; Lin f = caseFree(T, x, hi); if (T.P.isBot()) continue; if (!T.P.entailsGe(T.g["Fu"] - f)) ok = false; }
      if (!ok) E.report("C01,C03:cache", R, op + ": the cached copy of the other side's position (field +" + std::to_string(o) + ") may promise more than that side really published"); }
    if (S0.d["pend"] || (!S0.P.entailsEq(S0.g["wr"]) && xfer() )) { if (op != "commit") E.report("C04:unpublished", R, op + ": returns with items transferred but not published"); }
    auto lastSeen = [&](State &S, const Lin &val) { for (int i = 1; i <= S.d["ld"]; i++) { auto it = S.g.find("F" + std::to_string(i)); if (it != S.g.end() && S.P.entailsEq(val - it->second)) return true; } return false; };
    auto split = [&](const Val &b, std::function<void(State &, bool)> f) { CondP c; { State T = S0; c = E.condOf(T, b); for (int t = 0; t < 2; t++) { std::vector<State> o; E.assume(T, c, t, o); for (auto &s : o) f(s, t); } } };
    if (op == "try_push" || op == "try_pop" || op == "try_pushmv") split(*v, [&](State &S, bool t) {
      E.count("refusal_checks");
      if (!S.P.entailsEq(S.g["done"] - Lin(t))) E.report("C04:result", R, op + (t ? ": reports success without transferring exactly one item" : ": reports failure after transferring an item"));
      if (!t && !(S.d["ld"] && S.P.entailsEq(S.g["Fs"]))) E.report("C03:refusal", R, op + ": may refuse although there is " + (side == 'P' ? "room" : "an item")); });
    else if (op == "push" || op == "pushmv" || op == "pop") { if (!S0.P.entailsEq(S0.g["done"] - Lin(1))) E.report("C04:result", R, op + ": returns without having transferred exactly one item"); }
    else if (op == "writeN" || op == "readN") { State S = S0; Lin r = E.numOf(S, *v); E.count("refusal_checks");
      if (!S.P.entailsEq(r - S.g["done"])) E.report("C04:result", R, op + ": reported count differs from the items transferred");
      Lin count = S.g["count"]; if (!S.P.entailsGe(count - r)) E.report("C04:result", R, op + ": transfers more than asked");
      S.P.addGe(count - r - Lin(1)); if (!S.P.isBot() && !(S.d["ld"] && S.P.entailsEq(S.g["Fs"]))) E.report("C03:refusal", R, op + ": may transfer fewer items than asked although " + (side == 'P' ? "room" : "items") + " remained"); }
    else if (op == "commitw" || op == "commitr" || op.find("commit") != std::string::npos) { State S = S0; bool z = S.P.entailsEq(S.g["wr"]); if (!z) E.report("C04:result", R, op + ": the committed count is not reflected in the published position"); }
    else if (op == "size" || op == "space") { State S = S0; Lin r = E.numOf(S, *v); E.count("occupancy_checks"); Lin f = (side == 'P') == (op == "space") ? r : S.g["cap"] - Lin(1) - r; // free seen by producer / available seen by consumer
      if (!lastSeen(S, f)) E.report("C03:occupancy", R, op + ": the reported value is not the exact occupancy seen from the " + (side == 'P' ? "producer" : "consumer") + " side"); }
    else if (op == "empty") split(*v, [&](State &S, bool t) { E.count("occupancy_checks"); bool ok = false; for (int i = 1; i <= S.d["ld"]; i++) { Lin f = S.g["F" + std::to_string(i)]; Lin e = side == 'P' ? S.g["cap"] - Lin(1) - f : f; if (t ? S.P.entailsEq(e) : S.P.entailsGe(e - Lin(1))) ok = true; } if (!ok) E.report("C03:occupancy", R, "empty: answer does not match the occupancy"); });
    else if (op == "capacity") { State S = S0; if (!S.P.entailsEq(E.numOf(S, *v) - S.g["cap"] + Lin(1))) E.report("C03:occupancy", R, "capacity: not the ring length less one"); }
    else if (op == "peekw" || op == "peekr") { State S = S0; Type *PT = PointerType::get(E.M->getContext(), 0), *IT = Type::getInt64Ty(E.M->getContext()); auto out = [&](int i, Type *T) { return E.loadCell(S, E.objKey["param:" + std::to_string(i)], Lin(0), T, R); };
      E.count("window_checks"); Val a = out(1, PT), b = out(3, PT); Lin x = E.numOf(S, out(2, IT)), y = E.numOf(S, out(4, IT)), r = E.numOf(S, *v);
      if (!S.P.entailsEq(r - S.g["Fs"]) || !S.d["ld"]) E.report("C03:refusal", R, op + ": the offered total is not exactly what is available");
      if (!S.P.entailsEq(r - S.g["Fu"]) && S.P.entailsEq(r - S.g["Fs"])) E.report("C01:acquire", R, op + ": offers a window relying on the other side's position obtained without an acquire ordering");
      if (!S.P.entailsEq(x + y - r)) E.report("C04:window", R, op + ": the two windows do not add up to the returned total");
      window(E, R, S, a, Lin(0), x, false); window(E, R, S, b, x, y, false); }
    else if (op == "dbf") { Type *PT = PointerType::get(E.M->getContext(), 0), *IT = Type::getInt64Ty(E.M->getContext()); State S1 = S0; auto out = [&](int i, Type *T) { return E.loadCell(S1, E.objKey["param:" + std::to_string(i)], Lin(0), T, R); };
      E.count("window_checks"); Val a = out(1, PT); Lin x = E.numOf(S1, out(2, IT)); Lin mp = E.numOf(S1, out(3, Type::getInt8Ty(E.M->getContext())));
      for (int t = 0; t < 2; t++) { std::vector<State> o; E.assume(S1, cEq(mp), !t, o); for (auto &S : o) {
        if (!t) { if (!S.P.entailsEq(x)) E.report("C05:gate", R, op + std::string(side == 'P' ? " (write)" : " (read)") + ": offers a contiguous window although the ring is not doubly mapped"); continue; }
        if (!S.d["ld"] || !S.P.entailsEq(x - S.g["Fs"])) E.report("C03:refusal", R, op + ": the offered window is not exactly what is available");
        else if (!S.P.entailsEq(x - S.g["Fu"])) E.report("C01:acquire", R, op + ": offers a window relying on the other side's position obtained without an acquire ordering");
        window(E, R, S, a, Lin(0), x, true); } } }
  }
  void window(Engine &E, Instruction *R, State S, const Val &p, const Lin &start, const Lin &len, bool mapped) {
    S.P.addGe(len - Lin(1)); if (S.P.isBot()) return; Lin rel; Lin own = S.g["own"], cap = S.g["cap"];
    if (!isSlot(E, p, &rel)) { E.report("C04:window", R, op + ": a non-empty window does not point into the ring"); return; }
    bool lin = S.P.entailsEq(rel - (own + start) * m.sz), wrp = S.P.entailsEq(rel - (own + start - cap) * m.sz);
    if (!lin && !wrp) { E.report("C04:window", R, op + ": a window does not start at the next item in order"); return; }
    if (!mapped && !S.P.entailsGe(cap * m.sz - rel - len * m.sz)) E.report("C04:window", R, op + ": a window runs past the end of the ring");
    if (!S.P.entailsGe(rel) || (mapped && !S.P.entailsGe(cap * m.sz - rel - Lin(1)))) E.report("C04:window", R, op + ": a window starts outside the ring");
  }
};

// ------------------------------------------------------------------ construction
struct QCtor : Client {
  QMeta &m; Output &O; struct Map { int obj; }; int p0 = 0; long done = 0; bool learn; std::map<i64, Lin> dummy;
  std::set<i64> offs; std::map<i64, int> eqCap, eqCapSz; std::map<i64, i64> shift, shiftSz, cst; std::set<i64> bad;
  QCtor(QMeta &m, Output &O, bool learn) : m(m), O(O), learn(learn) {}
  void init(Engine &E, State &S) override { p0 = E.objKey["param:0"]; E.objs[p0].maybeNull = false; for (auto &A : E.F->args()) { Val v = S.env[&A]; if (v.k == Val::Num) S.P.addGe(v.l - Lin(1)); } }
  Lin psize(Engine &E, State &S) { int &v = pv; if (v < 0) v = E.fresh("pages"); S.P.addGe(Lin::var(v) - Lin(1)); return Lin::var(v) * 4096; } int pv = -1, hv = -1;
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    auto ret = [&](State T, const Val &v) { if (!CB->getType()->isVoidTy()) T.env[CB] = v; out.push_back(std::move(T)); };
    auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); };
    if (n.find("get_page_size") != std::string::npos) { ret(S, Val::num(psize(E, S))); return true; }
    if (n.find("supports_doubly_mapped") != std::string::npos) { // one answer for the life of the process: property C29
      if (sup < 0) sup = E.fresh("supported"); S.P.addGe(Lin::var(sup)); S.P.addGe(Lin(1) - Lin::var(sup)); ret(S, Val::boolean(cGe(Lin::var(sup) - Lin(1)))); return true; }
    if (n == "mmap") {
      E.count("mappings_modelled"); Val a = A(0); Lin len = E.numOf(S, A(1)); Lin flags = E.numOf(S, A(3)); bool fixed = flags.isConst() && (flags.c & 0x10);
      // MAP_FAILED or success
      ret(S, Val::ptr(0, Lin(-1)));
      State T = S;
      if (fixed && a.k == Val::Ptr) { std::string k = "map:" + std::to_string(a.base); int cnt = T.d[k]; if (cnt < 4) T.d[k] = cnt + 1; T.g[k + ":o" + std::to_string(cnt)] = a.l; T.g[k + ":l" + std::to_string(cnt)] = len;
        Lin off = E.numOf(T, A(5)); T.g[k + ":f" + std::to_string(cnt)] = off; ret(T, a); return true; }
      int o = E.obj("map:" + std::to_string((size_t)CB), "heap", false, CB); T.g["ext:" + std::to_string(o)] = len; ret(T, Val::ptr(o, Lin(0))); return true; }
    if (n.compare(0, 12, "operator new") == 0 || n == "malloc") { if (CB->arg_size() >= 1 && n.find("void*") == std::string::npos) { Lin len = E.numOf(S, A(0)); int o = E.obj("new:" + std::to_string((size_t)CB), "heap", false, CB); S.g["ext:" + std::to_string(o)] = len; ret(S, Val::ptr(o, Lin(0))); return true; } }
    if (n.compare(0, 5, "Opq::") == 0) { if (!CB->getType()->isVoidTy()) ret(S, A(0)); else out.push_back(S); return true; }
    if (n == "verif_ctor_done") { check(E, CB, S); out.push_back(S); return true; }
    return false;
  }
  int sup = -1;
  // nobody else can see the queue while it is being constructed: atomic accesses are ordinary ones
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override { if (p.k != Val::Ptr || !L->isAtomic()) return false; S.env[L] = E.loadCell(S, p.base, p.l, L->getType(), L); out.push_back(std::move(S)); return true; }
  void check(Engine &E, CallBase *CB, State &S0) {
    if (!E.reporting) return; done++; E.count("construction_states"); State S = S0; auto N = [&](unsigned i) { return E.numOf(S, E.eval(S, CB->getArgOperand(i))); };
    Val self = E.eval(S, CB->getArgOperand(0)); Lin req = N(1), capc = N(2), cur = N(4); Lin mp = N(3); Lin ring = capc + Lin(1); Type *IT = Type::getInt64Ty(E.M->getContext()), *PT = PointerType::get(E.M->getContext(), 0);
    if (self.k != Val::Ptr) { O.broken.push_back("ctor: object not tracked"); return; }
    auto cell = [&](i64 o, Type *T) { return E.loadCell(S, self.base, self.l + Lin(o), T, CB); };
    if (learn) { for (i64 o : offs) { if (bad.count(o)) continue; if (!S.mem.count({self.base, self.l.c + o})) { bad.insert(o); continue; } Val v = cell(o, IT); if (v.k != Val::Num) { bad.insert(o); continue; }
        Lin x = v.l; auto upd = [&](std::map<i64, i64> &mm, std::optional<i64> c) { if (!c) { mm.erase(o); return false; } auto it = mm.find(o); if (it == mm.end()) { if (seen.count(o)) return false; mm[o] = *c; return true; } if (it->second != *c) { mm.erase(it); return false; } return true; };
        upd(cst, S.P.constOf(x)); upd(shift, S.P.constOf(x - ring)); upd(shiftSz, S.P.constOf(x - ring * m.sz)); seen.insert(o); }
      return; }
    if (!S.P.entailsEq(cur)) E.report("C03:construct", CB, "a new queue does not report being empty");
    for (i64 o : {m.W, m.R}) { Lin x = E.numOf(S, cell(o, IT)); if (!(S.P.entailsGe(x) && S.P.entailsGe(ring - Lin(1) - x))) E.report("C04:construct", CB, "an initial position lies outside the ring"); }
    { Lin w = E.numOf(S, cell(m.W, IT)), r = E.numOf(S, cell(m.R, IT)); if (!S.P.entailsEq(w - r)) E.report("C03:construct", CB, "a new queue starts with different read and write positions");
      for (i64 o : m.pCache) { Lin x = E.numOf(S, cell(o, IT)); if (!(S.P.entailsGe(x) && S.P.entailsGe(ring - Lin(1) - x))) E.report("C03:construct", CB, "an initial cached position lies outside the ring"); }
      for (i64 o : m.cCache) { Lin x = E.numOf(S, cell(o, IT)); if (!S.P.entailsEq(x - w)) E.report("C03,C01:construct", CB, "the reader's initial cached write position promises items that were never written"); } }
    for (int t = 0; t < 2; t++) { std::vector<State> os; E.assume(S, cEq(mp), !t, os); for (auto &T : os) {
      if (!(T.P.entailsGe(capc - req))) E.report("C03:construct", CB, "the queue's capacity may be smaller than requested");
      if (!m.heap && !T.P.entailsEq(capc - req)) E.report("C03:construct", CB, "the capacity of a fixed-size queue differs from its declaration");
      if (!m.heap) { if (t) E.report("C05:construct", CB, "a queue with in-object storage claims to be doubly mapped"); continue; }
      for (i64 o : m.bufField) { Val b = E.loadCell(T, self.base, self.l + Lin(o), PT, CB); if (b.k != Val::Ptr || b.base == 0) { E.report("C05,C04:construct", CB, "no storage after construction"); continue; }
        auto ext = T.g.find("ext:" + std::to_string(b.base)); if (ext == T.g.end()) { E.report("C05,C04:construct", CB, "storage of unknown origin after construction"); continue; }
        E.count("storage_checks"); if (!(T.P.entailsGe(b.l) && T.P.entailsGe(ext->second - b.l - ring * m.sz))) E.report("C05,C04:construct", CB, "the storage allocated may be smaller than the ring");
        if (t) { E.count("mirror_checks"); std::string k = "map:" + std::to_string(b.base); int n = T.d[k]; bool a0 = false, a1 = false;
          for (int i = 0; i < n; i++) { Lin o1 = T.g[k + ":o" + std::to_string(i)], l1 = T.g[k + ":l" + std::to_string(i)], f1 = T.g[k + ":f" + std::to_string(i)]; if (!T.P.entailsEq(f1)) continue;
            if (T.P.entailsEq(o1 - b.l) && T.P.entailsEq(l1 - ring * m.sz)) a0 = true; if (T.P.entailsEq(o1 - b.l - ring * m.sz) && T.P.entailsEq(l1 - ring * m.sz)) a1 = true; }
          if (!a0 || !a1) E.report("C05:mirror", CB, "the ring is declared doubly mapped but the second mapping is not shown to start exactly one ring length after the first (item size " + std::to_string(m.sz) + ")"); } } } }
  }
  std::set<i64> seen;
};

// ------------------------------------------------------------------ effects (C07)
static void effects(Function &F, const std::string &op, bool waiting, Output &O, const std::string &fn) {
  DominatorTree DT(F); LoopInfo LI(DT); Engine loc(&F, nullptr); TargetLibraryInfoImpl TI(Triple(F.getParent()->getTargetTriple())); TargetLibraryInfo TL(TI); AssumptionCache AC(F); ScalarEvolution SE(F, TL, AC, DT, LI);
  for (auto &B : F) for (auto &I : B) {
    if (auto *CB = dyn_cast<CallBase>(&I)) { if (isa<IntrinsicInst>(CB)) continue; O.stats["effect_sites"]++;
      Function *f = CB->getCalledFunction(); std::string n = f ? demangled(f->getName()) : "an indirect call"; if (CB->isInlineAsm()) n = "inline assembly";
      if (n.compare(0, 5, "Opq::") == 0 || n.compare(0, 6, "verif_") == 0 || n == "memcpy" || n == "memmove" || n == "memset") continue;
      if (CB->isInlineAsm()) { auto *A = cast<InlineAsm>(CB->getCalledOperand()); std::string a = A->getAsmString(); if (a.empty() || a == "pause" || a == "yield") continue; }
      if (n == "__assert_fail" || n == "__clang_call_terminate" || n == "std::terminate()" || n == "__cxa_begin_catch") continue;
      O.add("C07", "effects", fn, loc.loc(&I), op + ": calls " + n + " on the data path"); }
    if (isa<ResumeInst>(I)) O.add("C07", "effects", fn, loc.loc(&I), op + ": may propagate an exception");
    if (isa<LoadInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { bool at = I.isAtomic() || I.isVolatile(); if (at && !waiting) if (Loop *L = LI.getLoopFor(&B)) { if (!isa<SCEVCouldNotCompute>(SE.getSymbolicMaxBackedgeTakenCount(L))) continue; // a bounded number of attempts
      O.add("C07", "waits", fn, loc.loc(&I), op + ": polls shared state in a loop, so it may wait for the other side"); } }
  }
  for (auto &B : F) for (auto &I : B) for (auto &o : I.operands()) if (auto *G = dyn_cast<GlobalVariable>(o.get()->stripPointerCasts())) if (!G->isConstant() && (isa<StoreInst>(I) || isa<LoadInst>(I)) && !I.isAtomic()) O.add("C02", "global-state", fn, loc.loc(&I), op + ": uses unsynchronised global state");
}

int runQueue(Module &M, Output &O, const std::vector<std::string> &args) {
  std::string only = arg(args, "variant"), onlyOp = arg(args, "op"); bool trace = arg(args, "trace") == "1";
  inlineAll(M, [&](const std::string &n, Function &F) { return F.hasExternalLinkage() || n.find("get_page_size") != std::string::npos || n.find("supports_doubly_mapped") != std::string::npos || n.find("get_huge_page_size") != std::string::npos || n.find("create_shared_memory") != std::string::npos; });
  std::map<std::string, std::map<std::string, Function *>> V;
  for (auto &F : M) { if (F.isDeclaration()) continue; std::string n = F.getName().str(); auto p = n.rfind("__"); if (p == std::string::npos || p == 0) continue; std::string pre = n.substr(0, p), var = n.substr(p + 2); if (pre == "ctor" || (pre.size() > 2 && pre[1] == '_' && strchr("PCN", pre[0]))) V[var][pre] = &F; }
  if (V.size() < 4) O.broken.push_back("probe operations missing");
  auto cst = [&](const std::string &n) -> i64 { auto *G = M.getGlobalVariable(n); return G && G->hasInitializer() ? cast<ConstantInt>(G->getInitializer())->getSExtValue() : -1; };
  for (auto &pv : V) {
    QMeta m; m.var = pv.first; if (!only.empty() && only != m.var) continue; m.sz = cst("meta_" + m.var); m.objsize = cst("objsize_" + m.var);
    // ---- discovery
    std::map<i64, int> sw, sr, kv; std::set<i64> pf; bool capOk = false;
    for (auto &of : pv.second) { if (of.first == "ctor") continue; Disc D(m, of.first[0], of.first.substr(2)); Engine E(of.second, &D); E.tracePart = true; E.run();
      if (of.first[0] == 'P') for (auto &s : D.stores) sw[s.first]++; if (of.first[0] == 'C') for (auto &s : D.stores) sr[s.first]++; for (auto &k : D.kvotes) kv[k.first] += k.second; for (i64 p : D.ptrField) pf.insert(p);
      if (of.first == "N_capacity" && D.haveRet) { Lin r = D.ret + Lin(1); capOk = true; m.capC = r.c; for (auto &t : r.t) { bool f = false; for (auto &ic : E.initCell) if (ic.second.k == Val::Num && ic.second.l.isVar() && ic.second.l.t[0].first == t.first && ic.first.first == D.p0) { m.capCoef[ic.first.second.first] = t.second; f = true; } if (!f) capOk = false; } } }
    auto top = [](const std::map<i64, int> &mm) { i64 b = -1; int n = 0; for (auto &p : mm) if (p.second > n) { n = p.second; b = p.first; } return b; };
    m.W = top(sw); m.R = top(sr); m.bufField = pf; m.heap = !pf.empty(); if (!m.heap) m.K = kv.empty() ? -1 : top(kv);
    if (m.W < 0 || m.R < 0 || !capOk) { O.broken.push_back(m.var + ": queue roles not recognised"); continue; }
    if (m.W == m.R) { O.add("C02", "ownership", m.var, "include/cler_spsc-queue.hpp", "producer and consumer operations publish the same position"); continue; }
    for (auto &p : sw) if (p.first == m.R) for (auto &a : m.acc) if (a.side == 'P' && a.write && a.off == m.R) O.add("C02", "ownership", a.op, a.loc, "producer-side operation advances the read position");
    for (auto &p : sr) if (p.first == m.W) for (auto &a : m.acc) if (a.side == 'C' && a.write && a.off == m.W) O.add("C02", "ownership", a.op, a.loc, "consumer-side operation advances the write position");
    // ---- C02: race analysis on fields
    std::map<i64, std::vector<FieldAcc>> by; for (auto &a : m.acc) by[a.off].push_back(a);
    for (auto &p : by) { bool slotArea = !m.heap && p.first >= m.K && p.first < m.K + m.capC * m.sz; if (slotArea) continue; O.stats["fields_classified"]++;
      for (auto &a : p.second) if (a.write && a.side == 'N') O.add("C02", "query-writes", a.op, a.loc, "an occupancy query modifies queue state (field +" + std::to_string(p.first) + ")");
      for (auto &a : p.second) for (auto &b : p.second) { O.stats["field_access_pairs"]++; if (a.write && a.side != b.side && !(a.atomic && b.atomic)) O.add("C02", "race", a.op + " / " + b.op, a.loc, "field +" + std::to_string(p.first) + " is written by " + a.op + " and accessed by " + b.op + " without synchronisation (" + b.loc + ")"); }
      for (auto &a : p.second) if (a.write && !a.atomic && a.size == 8) { if (a.side == 'P') m.pCache.insert(p.first); if (a.side == 'C') m.cCache.insert(p.first); } }
    if (!m.heap) { i64 hi = m.K + m.capC * m.sz; O.stats["storage_checks"]++; if (m.K < 0 || hi > m.objsize) O.add("C04,C05", "storage", m.var, "include/cler_spsc-queue.hpp", "ring storage exceeds the object"); 
      std::set<i64> wf; for (auto &a : m.acc) if (a.atomic || a.write) wf.insert(a.off); for (i64 o : {m.W, m.R}) if (o + 8 > m.K && o < hi) O.add("C04", "storage", m.var, "include/cler_spsc-queue.hpp", "ring storage overlaps the queue's positions"); }
    // ---- constructor: learn what the immutable fields hold, then check
    auto ct = pv.second.find("ctor"); if (ct == pv.second.end()) { O.broken.push_back(m.var + ": no constructor"); continue; }
    { QCtor L(m, O, true); for (auto &p : by) { bool wr = false; for (auto &a : p.second) if (a.write) wr = true; if (!wr && p.second[0].size == 8 && !m.capCoef.count(p.first) && !m.bufField.count(p.first)) L.offs.insert(p.first); }
      Engine E(ct->second, &L); E.trace = trace && onlyOp == "ctor"; E.tracePart = true; E.run(); if (!L.done) O.broken.push_back(m.var + ": constructor not understood " + E.abortWhy);
      for (auto &p : L.shift) if (!L.bad.count(p.first)) m.capEq[p.first] = p.second; for (auto &p : L.shiftSz) if (!L.bad.count(p.first) && m.sz > 1) m.capEqSz[p.first] = p.second; for (auto &p : L.cst) if (!L.bad.count(p.first)) m.constF[p.first] = p.second; }
    { QCtor L(m, O, false); Engine E(ct->second, &L); E.tracePart = true; E.run(); O.take(E, "ctor__" + m.var); O.analysed.push_back("ctor__" + m.var); }
    // ---- operations
    for (int round = 0; round < 2; round++) {
      Output R; 
      for (auto &of : pv.second) { if (of.first == "ctor" || of.first == "N_mapped") continue; if (!onlyOp.empty() && of.first != onlyOp) continue; std::string sides = of.first[0] == 'N' ? "PC" : std::string(1, of.first[0]);
        for (char sd : sides) { QOp probe(m, sd, of.first.substr(2), 0, of.first[0] == 'N', true); unsigned nc = 1u << probe.own.size();
          for (unsigned c = 0; c < nc; c++) { QOp Q(m, sd, of.first.substr(2), c, of.first[0] == 'N', true); Engine E(of.second, &Q); E.trace = trace; E.tracePart = E.phasePart = true; E.run(); R.take(E, of.first + "__" + m.var); } }
        R.analysed.push_back(of.first + "__" + m.var); }
      bool cacheFail = false, others = false; for (auto &f : R.findings) (f.rule == "cache" ? cacheFail : others) = true;
      if (round == 0 && cacheFail && !others) { // the cached copy may be irrelevant: try without relying on it
        std::set<i64> all = m.pCache; all.insert(m.cCache.begin(), m.cCache.end()); QMeta sv = m; m.dropped = all; Output first = R; (void)sv;
        Output R2; for (auto &of : pv.second) { if (of.first == "ctor" || of.first == "N_mapped") continue; std::string sides = of.first[0] == 'N' ? "PC" : std::string(1, of.first[0]); for (char sd : sides) { QOp Q(m, sd, of.first.substr(2), 0, of.first[0] == 'N', true); Engine E(of.second, &Q); E.tracePart = E.phasePart = true; E.run(); R2.take(E, of.first + "__" + m.var); } R2.analysed.push_back(of.first + "__" + m.var); }
        if (R2.findings.empty()) R = R2; }
      for (auto &f : R.findings) O.add(f.props, f.rule, f.func, f.loc, f.msg); for (auto &s : R.stats) O.stats[s.first] += s.second; for (auto &a : R.analysed) O.analysed.push_back(a); for (auto &u : R.undecided) O.undecided.push_back(u);
      break;
    }
    for (auto &of : pv.second) if (of.first != "ctor") { std::string op = of.first.substr(2); effects(*of.second, op, op == "push" || op == "pop" || op == "pushmv", O, of.first + "__" + m.var); }
    O.stats["variants"]++;
  }
  return 0;
}
