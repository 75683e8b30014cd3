#include "engine.hpp"
#include "llvm/ADT/APFloat.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/Constants.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

static CondP mk(Cond c) { return std::make_shared<const Cond>(std::move(c)); }
CondP cTrue() { static CondP c = mk(Cond{Cond::True}); return c; }
CondP cFalse() { static CondP c = mk(Cond{Cond::False}); return c; }
CondP cGe(const Lin &l) { if (l.isConst()) return l.c >= 0 ? cTrue() : cFalse(); Cond c{Cond::Ge}; c.l = l; return mk(c); }
CondP cEq(const Lin &l) { if (l.isConst()) return l.c == 0 ? cTrue() : cFalse(); Cond c{Cond::Eq}; c.l = l; return mk(c); }
CondP cNull(int o) { Cond c{Cond::Null}; c.obj = o; return mk(c); }
CondP cNot(CondP a) { if (a->k == Cond::True) return cFalse(); if (a->k == Cond::False) return cTrue(); if (a->k == Cond::Not) return a->a; Cond c{Cond::Not}; c.a = a; return mk(c); }
CondP cAnd(CondP a, CondP b) { if (a->k == Cond::False || b->k == Cond::False) return cFalse(); if (a->k == Cond::True) return b; if (b->k == Cond::True) return a; Cond c{Cond::And}; c.a = a; c.b = b; return mk(c); }
CondP cOr(CondP a, CondP b) { if (a->k == Cond::True || b->k == Cond::True) return cTrue(); if (a->k == Cond::False) return b; if (b->k == Cond::False) return a; Cond c{Cond::Or}; c.a = a; c.b = b; return mk(c); }

static bool isReal(const Lin &l) { for (auto &p : l.t) if (VT().real[p.first]) return true; return false; }
static void condVars(const CondP &c, std::set<int> &s) { if (!c) return; for (auto &p : c->l.t) s.insert(p.first); condVars(c->a, s); condVars(c->b, s); }
static void valVars(const Val &v, std::set<int> &s) { for (auto &p : v.l.t) s.insert(p.first); condVars(v.c, s); for (auto &e : v.e) valVars(e, s); }
static void condAtoms(const CondP &c, std::set<Lin> &s) { if (!c) return; if ((c->k == Cond::Ge || c->k == Cond::Eq) && c->l.t.size() <= 3 && !isReal(c->l)) s.insert(c->l); condAtoms(c->a, s); condAtoms(c->b, s); }
static std::string condStr(const CondP &c) {
  if (!c) return "?";
  switch (c->k) { case Cond::True: return "T"; case Cond::False: return "F"; case Cond::Ge: return c->l.str() + ">=0"; case Cond::Eq: return c->l.str() + "==0";
    case Cond::Null: return "null" + std::to_string(c->obj); case Cond::And: return "(" + condStr(c->a) + "&" + condStr(c->b) + ")"; case Cond::Or: return "(" + condStr(c->a) + "|" + condStr(c->b) + ")"; case Cond::Not: return "!" + condStr(c->a); }
  return "?";
}
static Lin substLin(const Lin &l, const std::map<int, int> &m) {
  bool hit = false; for (auto &p : l.t) if (m.count(p.first)) hit = true; if (!hit) return l;
  Lin r(l.c); for (auto &p : l.t) { auto it = m.find(p.first); r = r.addmul(Lin::var(it == m.end() ? p.first : it->second), p.second); } return r;
}
static CondP substCond(const CondP &c, const std::map<int, int> &m) { if (!c) return c; Cond r = *c; r.l = substLin(c->l, m); r.a = substCond(c->a, m); r.b = substCond(c->b, m); return mk(r); }
static void substVal(Val &v, const std::map<int, int> &m) { v.l = substLin(v.l, m); if (v.c) v.c = substCond(v.c, m); for (auto &e : v.e) substVal(e, m); }
static void substState(State &S, const std::map<int, int> &m) {
  if (m.empty()) return;
  for (auto &p : S.env) substVal(p.second, m); for (auto &p : S.mem) substVal(p.second.v, m); for (auto &p : S.g) p.second = substLin(p.second, m);
  Poly P; P.bot = S.P.bot; P.feasKnown = S.P.feasKnown;
  for (auto &p : S.P.eq) { auto it = m.find(p.first); P.eq[it == m.end() ? p.first : it->second] = substLin(p.second, m); }
  for (auto &l : S.P.ge) P.ge.insert(substLin(l, m)); S.P = P;
}
std::string demangled(StringRef n) { return llvm::demangle(n.str()); }

Engine::Engine(Function *f, Client *c) : F(f), C(c) {
  M = f->getParent(); DL = &M->getDataLayout();
  objs.push_back(Obj{"null", "null"}); objKey["null"] = 0;
}
std::string Engine::loc(const Instruction *I) {
  if (!I) return "?";
  DebugLoc d = I->getDebugLoc();
  if (!d) { // nearest following/preceding location in the block
    for (auto &J : *I->getParent()) if (J.getDebugLoc()) { d = J.getDebugLoc(); break; } }
  if (!d) return "?";
  const DILocation *L = d.get();
  // innermost location that lies in the repository
  for (const DILocation *q = L; q; q = q->getInlinedAt()) { std::string f = (q->getDirectory() + "/" + q->getFilename()).str(); if (q->getFilename().starts_with("/")) f = q->getFilename().str();
    if (f.find("/repo/") != std::string::npos) { auto p = f.find("/repo/"); return f.substr(p + 6) + ":" + std::to_string(q->getLine()) + " (" + q->getScope()->getSubprogram()->getName().str() + ")"; } }
  return (L->getFilename() + ":" + Twine(L->getLine())).str();
}
// an unsigned difference that is only ever added to: its wrapping around is undone there
static bool mayWrap(const Value *v) { auto *B = dyn_cast<BinaryOperator>(v); if (!B || B->getOpcode() != Instruction::Sub || B->hasNoSignedWrap() || B->hasNoUnsignedWrap() || !B->getType()->isIntegerTy(64) || B->use_empty()) return false; for (auto *U : B->users()) { auto *A = dyn_cast<BinaryOperator>(U); if (!A || A->getOpcode() != Instruction::Add) return false; } return true; }
void Engine::report(const std::string &rule, Instruction *I, const std::string &msg) {
  if (!reporting) return; std::string lo = loc(I);
  if (!seen.insert(rule + "|" + lo + "|" + msg.substr(0, 60)).second) return;
  reports.push_back({rule, F->getName().str(), msg, lo});
}
int Engine::obj(const std::string &key, const std::string &kind, bool maybeNull, const Value *site) {
  auto it = objKey.find(key); if (it != objKey.end()) return it->second;
  Obj o; o.name = key; o.kind = kind; o.maybeNull = maybeNull; o.site = site; objs.push_back(o); return objKey[key] = (int)objs.size() - 1;
}
std::string Engine::calleeName(const CallBase *CB) { const Function *f = CB->getCalledFunction(); if (!f) return ""; return demangled(f->getName()); }

Val Engine::freshOf(Type *T, const std::string &nm, State &S, const std::string &okey) {
  if (T->isIntegerTy(1)) { int v = fresh(nm); S.P.addGe(Lin::var(v)); S.P.addGe(Lin(1) - Lin::var(v)); return Val::boolean(cGe(Lin::var(v) - Lin(1))); }
  if (T->isIntegerTy()) { int v = fresh(nm); static const std::set<std::string> vague{"ovf", "mul", "div", "shl", "shr", "bits", "tr", "zx", "sx", "ld", "part", "x", "pdiff", "bsum", "xv", "cast", "rmw"}; if (vague.count(nm)) VT().imprecise[v] = 1; return Val::num(Lin::var(v)); }
  if (T->isFloatingPointTy()) { int v = fresh(nm, true); if (nm == "f" || nm == "fp" || nm == "x") VT().imprecise[v] = 1; return Val::num(Lin::var(v)); }
  if (T->isPointerTy()) { int o = obj(okey.empty() ? "ptr:" + nm + "#" + std::to_string(objs.size()) : okey, "deref", true); return Val::ptr(o, Lin(0)); }
  if (auto *ST = dyn_cast<StructType>(T)) { Val v; v.k = Val::Agg; for (unsigned i = 0; i < ST->getNumElements(); i++) v.e.push_back(freshOf(ST->getElementType(i), nm + "." + std::to_string(i), S, okey.empty() ? okey : okey + "." + std::to_string(i))); return v; }
  return Val();
}
Val Engine::eval(State &S, const Value *V) {
  auto it = S.env.find(V); if (it != S.env.end()) return it->second;
  if (auto *CI = dyn_cast<ConstantInt>(V)) { if (CI->getType()->isIntegerTy(1)) return Val::boolean(CI->isOne() ? cTrue() : cFalse()); if (CI->getBitWidth() > 64) return Val(); return Val::num(Lin(CI->getSExtValue())); }
  if (isa<ConstantPointerNull>(V)) return Val::ptr(0, Lin(0));
  if (auto *f = dyn_cast<Function>(V)) { Val v; v.k = Val::Fn; v.fn = f; return v; }
  if (auto *G = dyn_cast<GlobalVariable>(V)) return Val::ptr(obj("global:" + G->getName().str(), "global", false, G), Lin(0));
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    double d = CF->getValueAPF().convertToDouble(); if (d == (double)(i64)d && d < 1e15 && d > -1e15) return Val::num(Lin((i64)d));
    auto f = fpMemo.find(d); int v = f == fpMemo.end() ? fpMemo[d] = fresh("fp", true) : f->second;
    // v = n / 2^k when exact with a small k
    for (int k = 1; k <= 20; k++) { double m = d * (double)(1ll << k); if (m == (double)(i64)m && m < 1e12 && m > -1e12) { S.P.addEq(Lin::var(v) * (i64)(1ll << k) - Lin((i64)m)); return Val::num(Lin::var(v)); } }
    if (d < 1e12 && d > -1e12) { i64 lo = (i64)(d * 1000) - 1; S.P.addGe(Lin::var(v) * 1000 - Lin(lo)); S.P.addGe(Lin(lo + 2) - Lin::var(v) * 1000); }
    return Val::num(Lin::var(v));
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) { APInt off(64, 0); Val b = eval(S, GO->getPointerOperand()); if (b.k == Val::Ptr && GO->accumulateConstantOffset(*DL, off)) return Val::ptr(b.base, b.l + Lin(off.getSExtValue())); }
    if (CE->isCast()) { Val v = eval(S, CE->getOperand(0)); if (CE->getType()->isPointerTy() && v.k == Val::Num && v.l.isConst()) return Val::ptr(0, v.l); return v; }
    return Val();
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) { Val v; v.k = Val::Agg; for (auto &o : CA->operands()) v.e.push_back(eval(S, o.get())); return v; }
  if (auto *CZ = dyn_cast<ConstantAggregateZero>(V)) { Val v; v.k = Val::Agg; if (auto *ST = dyn_cast<StructType>(CZ->getType())) { for (unsigned i = 0; i < ST->getNumElements(); i++) v.e.push_back(eval(S, CZ->getStructElement(i))); return v; } return Val(); }
  if (isa<UndefValue>(V)) { if (auto *ST = dyn_cast<StructType>(V->getType())) { Val v; v.k = Val::Agg; v.e.resize(ST->getNumElements()); return v; } return Val(); }
  return Val();
}
Lin Engine::numOf(State &S, const Val &v, const std::string &nm) {
  if (v.k == Val::Num) return v.l;
  if (v.k == Val::Bool) { if (v.c->k == Cond::True) return Lin(1); if (v.c->k == Cond::False) return Lin(0);
    if (v.c->k == Cond::Ge && v.c->l.t.size() == 1 && v.c->l.t[0].second == 1 && v.c->l.c == -1) return Lin::var(v.c->l.t[0].first);
    int t = truth(S, v.c); if (t >= 0) return Lin(t); int x = fresh(nm); S.P.addGe(Lin::var(x)); S.P.addGe(Lin(1) - Lin::var(x)); return Lin::var(x); }
  return Lin::var(fresh(nm));
}
CondP Engine::condOf(State &S, const Val &v) {
  if (v.k == Val::Bool) return v.c;
  if (v.k == Val::Num) { if (v.l.isConst()) return v.l.c ? cTrue() : cFalse(); return cNot(cEq(v.l)); }
  int x = fresh("b"); S.P.addGe(Lin::var(x)); S.P.addGe(Lin(1) - Lin::var(x)); return cGe(Lin::var(x) - Lin(1));
}
int Engine::truth(State &S, CondP c) {
  switch (c->k) {
  case Cond::True: return 1; case Cond::False: return 0;
  case Cond::Not: { int t = truth(S, c->a); return t < 0 ? t : !t; }
  case Cond::And: { int a = truth(S, c->a), b = truth(S, c->b); if (a == 0 || b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
  case Cond::Or: { int a = truth(S, c->a), b = truth(S, c->b); if (a == 1 || b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
  case Cond::Null: { if (!c->obj) return 1; if (!objs[c->obj].maybeNull) return 0; auto it = S.nul.find(c->obj); return it == S.nul.end() ? -1 : it->second == 1; }
  case Cond::Ge: if (S.P.entailsGe(c->l)) return 1; if (S.P.entailsGe(isReal(c->l) ? -c->l : -c->l - Lin(1))) { if (isReal(c->l)) { auto M = S.P.maxOf(c->l); if (!M || !(*M < Q(0))) return -1; } return 0; } return -1;
  case Cond::Eq: if (S.P.entailsEq(c->l)) return 1; { if (S.P.entailsGe(c->l - Lin(1)) && !isReal(c->l)) return 0; if (S.P.entailsGe(-c->l - Lin(1)) && !isReal(c->l)) return 0; } return -1;
  }
  return -1;
}
void Engine::assume(State S, CondP c, bool t, std::vector<State> &out) {
  switch (c->k) {
  case Cond::True: if (t) out.push_back(std::move(S)); return;
  case Cond::False: if (!t) out.push_back(std::move(S)); return;
  case Cond::Not: assume(std::move(S), c->a, !t, out); return;
  case Cond::And: case Cond::Or: {
    bool conj = (c->k == Cond::And) == t;
    if (conj) { std::vector<State> m; assume(std::move(S), c->a, t, m); for (auto &s : m) assume(std::move(s), c->b, t, out); }
    else { assume(S, c->a, t, out); std::vector<State> m; assume(std::move(S), c->a, !t, m); for (auto &s : m) assume(std::move(s), c->b, t, out); }
    return; }
  case Cond::Null: { int tr = truth(S, c); if (tr >= 0) { if (tr == (int)t) out.push_back(std::move(S)); return; } S.nul[c->obj] = t ? 1 : 2; out.push_back(std::move(S)); return; }
  case Cond::Ge: S.P.addGe(t ? c->l : (isReal(c->l) ? -c->l : -c->l - Lin(1))); if (!S.P.isBot()) out.push_back(std::move(S)); return;
  case Cond::Eq: if (t) { S.P.addEq(c->l); if (!S.P.isBot()) out.push_back(std::move(S)); }
    else if (isReal(c->l)) out.push_back(std::move(S));
    else { State T = S; T.P.addGe(c->l - Lin(1)); if (!T.P.isBot()) out.push_back(std::move(T)); S.P.addGe(-c->l - Lin(1)); if (!S.P.isBot()) out.push_back(std::move(S)); }
    return;
  }
}
// ---------------------------------------------------------------- memory
static unsigned tsize(const DataLayout *DL, Type *T) { return (unsigned)DL->getTypeStoreSize(T).getFixedValue(); }
Val Engine::loadCell(State &S, int base, const Lin &off0, Type *T, const Instruction *I) {
  unsigned sz = tsize(DL, T); Lin off = off0;
  if (!off.isConst()) if (auto c = S.P.constOf(off)) off = Lin(*c);
  if (off.isConst()) {
    auto it = S.mem.find({base, off.c});
    if (it != S.mem.end() && it->second.size == sz) { const Val &v = it->second.v; 
      bool wantPtr = T->isPointerTy(), isPtr = v.k == Val::Ptr || v.k == Val::Fn;
      if (v.k == Val::Num && v.l.isConst() && v.l.c == 0 && wantPtr) return Val::ptr(0, Lin(0));
      if (v.k != Val::Unknown && (wantPtr == isPtr)) return v;
      if (T->isIntegerTy(64) && isPtr) return v; }
    // part of a larger zero cell (memset)
    bool overlap = false;
    for (auto j = S.mem.lower_bound({base, off.c - 4096}); j != S.mem.end() && j->first.first == base && j->first.second < off.c + sz; ++j)
      if (j->first.second + (i64)j->second.size > off.c) { overlap = true; if (j->first.second <= off.c && j->first.second + (i64)j->second.size >= off.c + (i64)sz && j->second.v.k == Val::Num && j->second.v.l.isConst() && j->second.v.l.c == 0) { if (T->isPointerTy()) return Val::ptr(0, Lin(0)); if (T->isIntegerTy() || T->isFloatingPointTy()) return Val::num(Lin(0)); } }
    if (overlap) { // sub-part of an integer cell or mixed: unknown
      auto it2 = S.mem.find({base, off.c});
      if (it2 != S.mem.end() && it2->second.size > sz && it2->second.v.k == Val::Num && T->isIntegerTy()) {
        // low part
        const Lin &l = it2->second.v.l; if (l.isConst()) { u_int64_t m = sz >= 8 ? ~0ull : ((1ull << (8 * sz)) - 1); return Val::num(Lin((i64)((u_int64_t)l.c & m))); }
        i64 M = sz >= 8 ? 0 : (i64)1 << (8 * sz); if (M) { Lin rest(l.c % M); for (auto &p : l.t) if (p.second % M) rest = rest.addmul(Lin::var(p.first), p.second); if (S.P.entailsGe(rest) && S.P.entailsGe(Lin(M - 1) - rest)) return Val::num(rest); }
      }
      return freshOf(T, "part", S, "part:" + std::to_string((size_t)I));
    }
    if (objs[base].kind == "alloca" && !S.ver.count(base)) { Val v = freshOf(T, "uninit", S, "uninit:" + std::to_string((size_t)I)); S.mem[{base, off.c}] = {v, sz}; return v; }
    if (objs[base].kind == "global") if (auto *G = dyn_cast_or_null<GlobalVariable>(objs[base].site)) if (G->isConstant() && G->hasInitializer()) {
      if (auto *Cn = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), T, APInt(64, (u_int64_t)off.c), *DL)) { Val v = eval(S, Cn); if (v.k != Val::Unknown) return v; } }
    if (T->isPointerTy() && objs[base].kind == "heap") { auto ex = S.g.find("ext:" + std::to_string(base)); if (ex != S.g.end() && !ex->second.isConst()) return freshOf(T, "ld", S, "ld:" + std::to_string((size_t)I)); } // an element of an array of unknown length
    int ver = S.ver.count(base) ? S.ver[base] : 0; auto key = std::make_pair(base, std::make_pair(off.c, ver));
    auto ic = initCell.find(key); Val v;
    std::string nm = objs[base].name.size() > 24 ? objs[base].name.substr(0, 24) : objs[base].name;
    if (ic != initCell.end()) v = ic->second; else { v = freshOf(T, nm + "+" + std::to_string(off.c), S, T->isPointerTy() || T->isStructTy() ? "init:" + std::to_string(base) + ":" + std::to_string(off.c) + ":" + std::to_string(ver) : ""); initCell[key] = v; }
    if (T->isIntegerTy(8)) { std::string n; (void)n; }
    S.mem[{base, off.c}] = {v, sz}; return v;
  }
  return freshOf(T, "ld", S, "ld:" + std::to_string((size_t)I));
}
void Engine::killRange(State &S, int base, const Lin &off, const Lin &len) {
  Lin end = off + len;
  for (auto it = S.mem.lower_bound({base, INT64_MIN}); it != S.mem.end() && it->first.first == base;) {
    i64 a = it->first.second, b = a + it->second.size; bool disjoint;
    if (off.isConst() && len.isConst()) disjoint = end.c <= a || off.c >= b;
    else disjoint = S.P.entailsGe(Lin(a) - end) || S.P.entailsGe(off - Lin(b));
    if (!disjoint) it = S.mem.erase(it); else ++it;
  }
}
static int &verCounter() { static int n = 1000; return n; }
void Engine::storeCell(State &S, int base, const Lin &off0, unsigned sz, const Val &v) {
  Lin off = off0; if (!off.isConst()) if (auto c = S.P.constOf(off)) off = Lin(*c);
  killRange(S, base, off, Lin(sz));
  if (v.k == Val::Ptr && objs[base].kind == "heap" && objs[v.base].name.compare(0, 11, "global:_ZTV") == 0) return; // the dynamic type of heap elements is not tracked
  if (off.isConst()) S.mem[{base, off.c}] = {v, sz};
  else if (objs[base].kind != "heap" && objs[base].kind != "span") {
    // unknown position: untouched unmaterialised cells may also change
    auto lo = S.P.minOf(off); auto hi = S.P.maxOf(off); (void)lo; (void)hi;
    // cells that are not materialised keep their version only if the range is provably elsewhere; be conservative
    // by materialising nothing and bumping the version while keeping the provably disjoint cells.
    S.ver[base] = ++verCounter();
  }
}
void Engine::havocObj(State &S, int base) {
  for (auto it = S.mem.lower_bound({base, INT64_MIN}); it != S.mem.end() && it->first.first == base;) it = S.mem.erase(it);
  S.ver[base] = ++verCounter();
}
void Engine::havocArg(State &S, const Val &p0, const Value *V) {
  Val p = p0; if (p.k != Val::Ptr || p.base == 0) return;
  // a base-class part at a run-time offset stays inside the member it was computed from
  if (!p.l.isConst() && !S.P.constOf(p.l)) if (auto *G = dyn_cast_or_null<GetElementPtrInst>(V)) { Val b = eval(S, const_cast<Value *>(G->getPointerOperand())); if (b.k == Val::Ptr && b.base == p.base && b.l.isConst() && b.l.c > 0) p = b; }
  const Obj &o = objs[p.base]; if (o.kind == "global") { auto *G = dyn_cast_or_null<GlobalVariable>(o.site); if (G && G->isConstant()) return; }
  Lin off = p.l; if (!off.isConst()) if (auto c = S.P.constOf(off)) off = Lin(*c);
  if (off.isConst() && off.c > 0 && o.hint) if (auto *ST = dyn_cast<StructType>(o.hint)) if (!ST->isOpaque()) {
    // the outermost member that starts exactly here
    i64 k = off.c, basek = 0; StructType *cur = ST;
    while (cur && !cur->isOpaque()) {
      const StructLayout *SL = DL->getStructLayout(cur); if (k - basek >= (i64)SL->getSizeInBytes()) break;
      unsigned ix = SL->getElementContainingOffset((u_int64_t)(k - basek)); i64 s = basek + (i64)SL->getElementOffset(ix); Type *ET = cur->getElementType(ix);
      if (s == k) { killRange(S, p.base, Lin(k), Lin((i64)DL->getTypeAllocSize(ET).getFixedValue()));
        // unmaterialised cells in range: materialise as unknown by storing an Unknown cell of that size
        S.mem[{p.base, k}] = {Val(), (unsigned)DL->getTypeAllocSize(ET).getFixedValue()}; return; }
      basek = s; cur = dyn_cast<StructType>(ET);
    }
  }
  havocObj(S, p.base);
}
Lin Engine::mul(State &S, const Lin &a0, const Lin &b0) {
  Lin a = a0, b = b0; if (a.isConst()) return b * a.c; if (b.isConst()) return a * b.c;
  if (auto c = S.P.constOf(a)) return b * *c; if (auto c = S.P.constOf(b)) return a * *c;
  Lin na = S.P.norm(a), nb = S.P.norm(b); if (nb < na) std::swap(na, nb);
  auto it = prodMemo.find({na, nb}); int v; if (it != prodMemo.end()) v = it->second; else { bool r = isReal(na) || isReal(nb); v = fresh("prod", r); prodMemo[{na, nb}] = v; }
  if (!VT().real[v] && S.P.entailsGe(na) && S.P.entailsGe(nb)) { S.P.addGe(Lin::var(v));
    if (S.P.entailsGe(na - Lin(1))) S.P.addGe(Lin::var(v) - nb); if (S.P.entailsGe(nb - Lin(1))) S.P.addGe(Lin::var(v) - na); }
  return Lin::var(v);
}
Lin Engine::udivBy(State &S, const Lin &x, const Lin &d0, Lin *rem) {
  Lin d = d0; if (!d.isConst()) if (auto c = S.P.constOf(d)) d = Lin(*c);
  if (x.isConst() && d.isConst() && d.c) { if (rem) *rem = Lin(x.c % d.c); return Lin(x.c / d.c); }
  Lin nx = S.P.norm(x); auto key = std::make_pair(nx, S.P.norm(d)); auto it = divMemo.find(key); int q; if (it == divMemo.end()) { q = fresh("quot"); divMemo[key] = q; } else q = it->second;
  Lin qv = Lin::var(q), m = d.isConst() ? qv * d.c : mul(S, qv, d);
  S.P.addGe(qv); S.P.addGe(x - m); S.P.addGe(m + d - Lin(1) - x); if (!d.isConst()) { S.P.addGe(m); S.P.addGe(x - qv); }
  if (rem) *rem = x - m; return qv;
}
void Engine::urem(State &S, const Lin &x, const Lin &d, std::vector<std::pair<State, Lin>> &out) {
  if (x.isConst() && d.isConst() && d.c) { out.push_back({S, Lin(x.c % d.c)}); return; }
  if (S.P.entailsGe(x) && S.P.entailsGe(d - Lin(1))) {
    if (S.P.entailsGe(d - Lin(1) - x)) { out.push_back({S, x}); return; }
    if (S.P.entailsGe(d * 2 - Lin(1) - x)) {
      State A = S; A.P.addGe(d - Lin(1) - x); if (!A.P.isBot()) out.push_back({A, x});
      State B = S; B.P.addGe(x - d); if (!B.P.isBot()) out.push_back({B, x - d}); return;
    }
  }
  Lin r; State T = S; udivBy(T, x, d, &r); out.push_back({T, r});
}
// ---------------------------------------------------------------- transfer
static bool nonneg(Engine &E, State &S, const Lin &l) {
  if (l.isConst()) return l.c >= 0; if (S.P.entailsGe(l)) return true;
  if (l.isVar() && !VT().real[l.t[0].first]) { S.P.addGe(l); return true; } // an unsigned use of an unconstrained input
  return false;
}
static bool excSub(const std::string &t, const std::string &c) {
  if (t == c || c == "_ZTISt9exception") return t.compare(0, 6, "_ZTISt") == 0 || t == c;
  static const std::map<std::string, std::string> up = {{"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  auto it = up.find(t); return it != up.end() && excSub(it->second, c);
}
bool Engine::mulReal(State &S, const Lin &a, const Lin &b, Lin &r) {
  try { if (C->product(*this, S, a, b, r)) return true; if (a.isConst() || b.isConst()) { r = a.isConst() ? b * a.c : a * b.c; return true; } } catch (Overflow &) {} return false; }
void Engine::step(Instruction *I, State &S, std::vector<State> &out) {
  auto done = [&](const Val &v) { S.env[I] = v; out.push_back(std::move(S)); };
  switch (I->getOpcode()) {
  case Instruction::Alloca: { auto *A = cast<AllocaInst>(I); int o = obj("alloca:" + std::to_string((size_t)I), "alloca", false, I); objs[o].hint = A->getAllocatedType();
    Lin n = numOf(S, eval(S, A->getArraySize())); Lin ext = n * (i64)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); S.g["ext:" + std::to_string(o)] = ext;
    S.g["wr:" + std::to_string(o)] = Lin(0); if (!n.isConst()) for (auto it = S.mem.lower_bound({o, INT64_MIN}); it != S.mem.end() && it->first.first == o;) it = S.mem.erase(it);
    done(Val::ptr(o, Lin(0))); return; }
  case Instruction::GetElementPtr: {
    auto *G = cast<GetElementPtrInst>(I); Val b = eval(S, G->getPointerOperand());
    if (b.k != Val::Ptr) { done(freshOf(I->getType(), "gep", S, "gep:" + std::to_string((size_t)I))); return; }
    if (b.l.isConst() && b.l.c == 0 && isa<StructType>(G->getSourceElementType())) { Type *&h = objs[b.base].hint; if (!h || (h->isSized() && DL->getTypeAllocSize(G->getSourceElementType()) > DL->getTypeAllocSize(h))) h = G->getSourceElementType(); }
    Lin off = b.l;
    try {
      for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        if (StructType *ST = it.getStructTypeOrNull()) off = off + Lin((i64)DL->getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(it.getOperand())->getZExtValue()));
        else { i64 sc = (i64)it.getSequentialElementStride(*DL).getFixedValue(); Val iv = eval(S, it.getOperand()); off = off + numOf(S, iv, "idx") * sc; }
      }
    } catch (Overflow &) { off = Lin::var(fresh("off")); }
    done(Val::ptr(b.base, off)); return; }
  case Instruction::Load: {
    auto *L = cast<LoadInst>(I); Val p = eval(S, L->getPointerOperand());
    if (p.k == Val::Ptr) C->onAccess(*this, I, p, Lin(tsize(DL, I->getType())), false, S);
    if (C->onLoad(*this, L, p, S, out)) return;
    if (p.k != Val::Ptr || L->isAtomic() || L->isVolatile()) { done(freshOf(I->getType(), "ld", S, "ld:" + std::to_string((size_t)I))); return; }
    Val v = loadCell(S, p.base, p.l, I->getType(), I); C->afterLoad(*this, L, p, v, S);
    done(v); return; }
  case Instruction::Store: {
    auto *T = cast<StoreInst>(I); Val p = eval(S, T->getPointerOperand()), v = eval(S, T->getValueOperand()); unsigned sz = tsize(DL, T->getValueOperand()->getType());
    if (p.k == Val::Ptr) C->onAccess(*this, I, p, Lin(sz), true, S);
    if (C->onStore(*this, T, p, v, S, out)) return;
    if (v.k == Val::Bool) { Val n = Val::num(numOf(S, v)); if (v.c->k != Cond::True && v.c->k != Cond::False && truth(S, v.c) < 0 && !(v.c->k == Cond::Ge && v.c->l.t.size() == 1)) { // split to keep the relation
        std::vector<State> a, b; assume(S, v.c, true, a); assume(S, v.c, false, b);
        for (auto &s : a) { if (p.k == Val::Ptr) storeCell(s, p.base, p.l, sz, Val::num(Lin(1))); out.push_back(std::move(s)); }
        for (auto &s : b) { if (p.k == Val::Ptr) storeCell(s, p.base, p.l, sz, Val::num(Lin(0))); out.push_back(std::move(s)); } return; }
      v = n; }
    if (p.k == Val::Ptr) { if (v.k == Val::Agg) { killRange(S, p.base, p.l, Lin(sz)); if (auto *ST = dyn_cast<StructType>(T->getValueOperand()->getType())) for (unsigned i = 0; i < ST->getNumElements() && i < v.e.size(); i++) storeCell(S, p.base, p.l + Lin((i64)DL->getStructLayout(ST)->getElementOffset(i)), tsize(DL, ST->getElementType(i)), v.e[i]); }
      else storeCell(S, p.base, p.l, sz, v); }
    out.push_back(std::move(S)); return; }
  case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
    Val p = eval(S, I->getOperand(0)); if (C->onRMW(*this, I, p, S, out)) return;
    if (p.k == Val::Ptr) { Lin o = p.l; killRange(S, p.base, o, Lin(8)); }
    done(freshOf(I->getType(), "rmw", S, "rmw:" + std::to_string((size_t)I))); return; }
  case Instruction::Fence: C->onFence(*this, cast<FenceInst>(I), S); out.push_back(std::move(S)); return;
  case Instruction::Add: case Instruction::Sub: {
    auto *O = cast<BinaryOperator>(I); Val a = eval(S, O->getOperand(0)), b = eval(S, O->getOperand(1));
    bool sub = I->getOpcode() == Instruction::Sub;
    if (a.k == Val::Ptr && b.k == Val::Ptr && sub) { if (a.base == b.base) { done(Val::num(a.l - b.l)); return; } done(freshOf(I->getType(), "pdiff", S)); return; }
    if (a.k == Val::Ptr && b.k == Val::Num) { done(Val::ptr(a.base, sub ? a.l - b.l : a.l + b.l)); return; }
    if (a.k == Val::Bool && b.k == Val::Bool) { done(freshOf(I->getType(), "bsum", S)); return; }
    try {
      Lin x = numOf(S, a), y = numOf(S, b);
      if (!sub && y.isConst() && y.c < 0 && !O->hasNoSignedWrap()) { sub = true; y = -y; }
      bool late = !sub && (mayWrap(O->getOperand(0)) || mayWrap(O->getOperand(1)));
      if (!sub && !late) { done(Val::num(x + y)); return; }
      Lin r = late ? x + y : x - y;
      if (O->hasNoSignedWrap() || O->hasNoUnsignedWrap() || S.P.entailsGe(r)) { done(Val::num(r)); return; }
      State A = S; A.P.addGe(r); bool fa = !A.P.isBot(); State B = S; B.P.addGe(-r - Lin(1)); bool fb = !B.P.isBot();
      if (fa) { A.env[I] = Val::num(r); out.push_back(std::move(A)); }
      if (fb && !late && mayWrap(I)) { B.env[I] = Val::num(r); out.push_back(std::move(B)); } // taken up again where it is added to
      else if (fb) { int w = fresh("wrap"); VT().imprecise[w] = 1; B.P.addGe(Lin::var(w) - Lin((i64)1 << (I->getType()->getIntegerBitWidth() > 32 ? 40 : 30))); B.env[I] = Val::num(Lin::var(w)); out.push_back(std::move(B)); }
      return;
    } catch (Overflow &) {}
    done(freshOf(I->getType(), "ovf", S)); return; }
  case Instruction::Mul: { Val a = eval(S, I->getOperand(0)), b = eval(S, I->getOperand(1)); try { Lin r = mul(S, numOf(S, a), numOf(S, b)); done(Val::num(r)); } catch (Overflow &) { done(freshOf(I->getType(), "mul", S)); } return; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Lin x = numOf(S, eval(S, I->getOperand(0))), d = numOf(S, eval(S, I->getOperand(1))); bool rem = I->getOpcode() == Instruction::URem || I->getOpcode() == Instruction::SRem;
    bool sg = I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem;
    bool ok = sg ? S.P.entailsGe(x) : nonneg(*this, S, x); bool okd = S.P.entailsGe(d - Lin(1)); if (!okd && !sg && nonneg(*this, S, d)) { S.P.addGe(d - Lin(1)); okd = !S.P.isBot(); if (!okd) return; } // a zero divisor ends the run
    try {
      if (ok && okd) { if (rem) { std::vector<std::pair<State, Lin>> r; urem(S, x, d, r); for (auto &p : r) { p.first.env[I] = Val::num(p.second); out.push_back(std::move(p.first)); } return; }
        Lin q = udivBy(S, x, d, nullptr); done(Val::num(q)); return; }
    } catch (Overflow &) {}
    done(freshOf(I->getType(), "div", S)); return; }
  case Instruction::Shl: { Val b = eval(S, I->getOperand(1)); Lin x = numOf(S, eval(S, I->getOperand(0))); try { if (b.k == Val::Num && b.l.isConst() && b.l.c >= 0 && b.l.c < 62) { done(Val::num(x * ((i64)1 << b.l.c))); return; } } catch (Overflow &) {} done(freshOf(I->getType(), "shl", S)); return; }
  case Instruction::LShr: case Instruction::AShr: { Val b = eval(S, I->getOperand(1)); Lin x = numOf(S, eval(S, I->getOperand(0)));
    try { if (b.k == Val::Num && b.l.isConst() && b.l.c >= 0 && b.l.c < 62) { i64 K = (i64)1 << b.l.c;
      Lin hi(x.c - ((x.c % K) + K) % K), lo(((x.c % K) + K) % K); for (auto &p : x.t) { if (p.second % K == 0) hi = hi.addmul(Lin::var(p.first), p.second); else lo = lo.addmul(Lin::var(p.first), p.second); }
      if (S.P.entailsGe(lo) && S.P.entailsGe(Lin(K - 1) - lo)) { Lin q(hi.c / K); for (auto &p : hi.t) q = q.addmul(Lin::var(p.first), p.second / K); done(Val::num(q)); return; }
      if (nonneg(*this, S, x)) { done(Val::num(udivBy(S, x, Lin(K), nullptr))); return; } } } catch (Overflow &) {}
    done(freshOf(I->getType(), "shr", S)); return; }
  case Instruction::And: case Instruction::Or: case Instruction::Xor: {
    Val a = eval(S, I->getOperand(0)), b = eval(S, I->getOperand(1)); unsigned op = I->getOpcode();
    if (I->getType()->isIntegerTy(1)) { CondP x = condOf(S, a), y = condOf(S, b); if (op == Instruction::And) done(Val::boolean(cAnd(x, y))); else if (op == Instruction::Or) done(Val::boolean(cOr(x, y))); else done(Val::boolean(cOr(cAnd(x, cNot(y)), cAnd(cNot(x), y)))); return; }
    if (op == Instruction::And) for (int sw = 0; sw < 2; sw++) { // rounding to a symbolic power of two
      auto *R = dyn_cast<BinaryOperator>(I->getOperand(1 - sw)); if (!R) continue; auto isC = [](Value *V, i64 c) { auto *K = dyn_cast<ConstantInt>(V); return K && K->getSExtValue() == c; };
      auto less = [&](Value *V) -> Value * { auto *Q = dyn_cast<BinaryOperator>(V); return Q && (Q->getOpcode() == Instruction::Add && isC(Q->getOperand(1), -1) || Q->getOpcode() == Instruction::Sub && isC(Q->getOperand(1), 1)) ? Q->getOperand(0) : nullptr; };
      Value *pv = less(R); bool low = pv != nullptr; if (!pv && R->getOpcode() == Instruction::Sub && isC(R->getOperand(0), 0)) pv = R->getOperand(1); if (!pv && R->getOpcode() == Instruction::Xor && isC(R->getOperand(1), -1)) pv = less(R->getOperand(0));
      if (!pv || !S.env.count(pv)) continue; Lin d = numOf(S, eval(S, pv)), x = numOf(S, eval(S, I->getOperand(sw))); if (!C->powerOfTwo(d) || !nonneg(*this, S, x) || !S.P.entailsGe(d - Lin(1))) continue;
      try { std::vector<std::pair<State, Lin>> r; urem(S, x, d, r); for (auto &p : r) { p.first.env[I] = Val::num(low ? p.second : x - p.second); out.push_back(std::move(p.first)); } return; } catch (Overflow &) {} }
    try {
      Lin x = numOf(S, a), y = numOf(S, b); if (x.isConst() && !y.isConst()) std::swap(x, y);
      if (x.isConst() && y.isConst()) { done(Val::num(Lin(op == Instruction::And ? x.c & y.c : op == Instruction::Or ? x.c | y.c : x.c ^ y.c))); return; }
      if (op == Instruction::And && y.isConst()) {
        i64 m = y.c; if (m == 0) { done(Val::num(Lin(0))); return; }
        if (m > 0 && (m & (m + 1)) == 0) { i64 K = m + 1; // low bits
          Lin lo(((x.c % K) + K) % K); for (auto &p : x.t) if (p.second % K) lo = lo.addmul(Lin::var(p.first), p.second);
          if (S.P.entailsGe(lo) && S.P.entailsGe(Lin(K - 1) - lo)) { done(Val::num(lo)); return; }
          if (nonneg(*this, S, x)) { Lin r; udivBy(S, x, Lin(K), &r); done(Val::num(r)); return; } }
        i64 K = -m; if (K > 0 && (K & (K - 1)) == 0) { // clear low bits
          Lin hi(x.c - ((x.c % K) + K) % K), lo(((x.c % K) + K) % K); for (auto &p : x.t) { if (p.second % K == 0) hi = hi.addmul(Lin::var(p.first), p.second); else lo = lo.addmul(Lin::var(p.first), p.second); }
          if (S.P.entailsGe(lo) && S.P.entailsGe(Lin(K - 1) - lo)) { done(Val::num(hi)); return; }
          if (nonneg(*this, S, x)) { Lin r; udivBy(S, x, Lin(K), &r); done(Val::num(x - r)); return; } }
      }
      if (op == Instruction::Or) { if (y.isConst() && y.c == 0) { done(Val::num(x)); return; }
        for (int sw = 0; sw < 2; sw++) { Lin hi = sw ? x : y, lo = sw ? y : x; i64 g = hi.c < 0 ? -hi.c : hi.c; for (auto &p : hi.t) g = gcd64(g, p.second); if (g == 0) continue; i64 K = g & -g; if (S.P.entailsGe(lo) && S.P.entailsGe(Lin(K - 1) - lo)) { done(Val::num(hi + lo)); return; } } }
      int v = fresh("bits"); if (op == Instruction::And) { if (S.P.entailsGe(x) && S.P.entailsGe(y)) { S.P.addGe(Lin::var(v)); S.P.addGe(x - Lin::var(v)); S.P.addGe(y - Lin::var(v)); } else if (y.isConst() && y.c >= 0) { S.P.addGe(Lin::var(v)); S.P.addGe(y - Lin::var(v)); } }
      done(Val::num(Lin::var(v))); return;
    } catch (Overflow &) {}
    done(freshOf(I->getType(), "bits", S)); return; }
  case Instruction::ICmp: {
    auto *Cm = cast<ICmpInst>(I); Val a = eval(S, Cm->getOperand(0)), b = eval(S, Cm->getOperand(1)); auto P = Cm->getPredicate();
    if (a.k == Val::Ptr || b.k == Val::Ptr || a.k == Val::Fn || b.k == Val::Fn) {
      if (a.k == Val::Num && a.l.isConst()) a = Val::ptr(0, a.l); if (b.k == Val::Num && b.l.isConst()) b = Val::ptr(0, b.l);
      if (a.k == Val::Ptr && b.k == Val::Ptr) {
        if (a.base == b.base) { Lin d = a.l - b.l; CondP c; switch (P) { case CmpInst::ICMP_EQ: c = cEq(d); break; case CmpInst::ICMP_NE: c = cNot(cEq(d)); break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: c = cGe(-d - Lin(1)); break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: c = cGe(-d); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: c = cGe(d - Lin(1)); break; default: c = cGe(d); } done(Val::boolean(c)); return; }
        if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
          CondP c; if (a.base == 0 || b.base == 0) { int o = a.base ? a.base : b.base; const Lin &zo = a.base ? b.l : a.l; if (zo.isConst() && zo.c != 0) c = cFalse(); else
              c = objs[o].maybeNull ? cNull(o) : cFalse(); }
          else { bool u = (objs[a.base].kind == "deref" || objs[a.base].kind == "extern") && (objs[b.base].kind == "deref" || objs[b.base].kind == "extern"); if (u) { done(freshOf(I->getType(), "peq", S)); return; } c = cFalse(); }
          done(Val::boolean(P == CmpInst::ICMP_EQ ? c : cNot(c))); return; }
      }
      if ((a.k == Val::Fn && b.k == Val::Fn) && (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE)) { bool eq = a.fn == b.fn; done(Val::boolean(eq == (P == CmpInst::ICMP_EQ) ? cTrue() : cFalse())); return; }
      if ((a.k == Val::Fn && b.k == Val::Ptr && b.base == 0) || (b.k == Val::Fn && a.k == Val::Ptr && a.base == 0)) { done(Val::boolean(P == CmpInst::ICMP_EQ ? cFalse() : cTrue())); return; }
      done(freshOf(I->getType(), "pcmp", S)); return;
    }
    if (a.k == Val::Bool && b.k == Val::Bool) { CondP e = cOr(cAnd(a.c, b.c), cAnd(cNot(a.c), cNot(b.c))); done(Val::boolean(P == CmpInst::ICMP_EQ ? e : cNot(e))); return; }
    if (a.k == Val::Unknown || b.k == Val::Unknown) { done(freshOf(I->getType(), "cmp", S)); return; }
    try {
      Lin x = numOf(S, a), y = numOf(S, b), d = x - y; CondP c;
      if (Cm->isUnsigned()) { bool nx = nonneg(*this, S, x), ny = nonneg(*this, S, y);
        if (y.isConst() && y.c < 0 && nx) { c = (P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE) ? cTrue() : cFalse(); done(Val::boolean(c)); return; }
        if (x.isConst() && x.c < 0 && ny) { c = (P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE) ? cTrue() : cFalse(); done(Val::boolean(c)); return; }
        if (!nx || !ny) { done(freshOf(I->getType(), "ucmp", S)); return; } }
      switch (P) {
      case CmpInst::ICMP_EQ: c = cEq(d); break; case CmpInst::ICMP_NE: c = cNot(cEq(d)); break;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: c = cGe(-d - Lin(1)); break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: c = cGe(-d); break;
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: c = cGe(d - Lin(1)); break; default: c = cGe(d); }
      done(Val::boolean(c)); return;
    } catch (Overflow &) {}
    done(freshOf(I->getType(), "cmp", S)); return; }
  case Instruction::FCmp: {
    auto *Cm = cast<FCmpInst>(I); Val a = eval(S, Cm->getOperand(0)), b = eval(S, Cm->getOperand(1));
    if (a.k == Val::Num && b.k == Val::Num) try { Lin d = a.l - b.l; CondP c; bool rl = isReal(d);
      switch (Cm->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: c = cEq(d); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: c = cNot(cEq(d)); break;
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: c = rl ? cGe(-d) : cGe(-d - Lin(1)); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: c = cGe(-d); break;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: c = rl ? cGe(d) : cGe(d - Lin(1)); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: c = cGe(d); break; default: c = nullptr; }
      if (c) { done(Val::boolean(c)); return; } } catch (Overflow &) {}
    done(freshOf(I->getType(), "fcmp", S)); return; }
  case Instruction::FAdd: case Instruction::FSub: { Val a = eval(S, I->getOperand(0)), b = eval(S, I->getOperand(1)); if (a.k == Val::Num && b.k == Val::Num) try { Lin r = I->getOpcode() == Instruction::FAdd ? a.l + b.l : a.l - b.l; if (r.t.size() < 4) { done(Val::num(r)); return; } } catch (Overflow &) {} done(freshOf(I->getType(), "f", S)); return; }
  case Instruction::FMul: { Val a = eval(S, I->getOperand(0)), b = eval(S, I->getOperand(1)); Lin r; if (a.k == Val::Num && b.k == Val::Num && mulReal(S, a.l, b.l, r)) { done(Val::num(r)); return; } done(freshOf(I->getType(), "f", S)); return; }
  case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: done(freshOf(I->getType(), "f", S)); return;
  case Instruction::SExt: { Val a = eval(S, I->getOperand(0)); if (a.k == Val::Bool) { done(Val::num(-numOf(S, a))); return; } if (a.k == Val::Num) { done(a); return; } done(freshOf(I->getType(), "sx", S)); return; }
  case Instruction::ZExt: { Val a = eval(S, I->getOperand(0));
    if (a.k == Val::Bool) { int t = truth(S, a.c); if (t >= 0) { done(Val::num(Lin(t))); return; }
      if (a.c->k == Cond::Ge && a.c->l.t.size() == 1 && a.c->l.t[0].second == 1 && a.c->l.c == -1) { Lin v = Lin::var(a.c->l.t[0].first); if (S.P.entailsGe(v) && S.P.entailsGe(Lin(1) - v)) { done(Val::num(v)); return; } }
      std::vector<State> x, y; assume(S, a.c, true, x); assume(S, a.c, false, y); for (auto &s : x) { s.env[I] = Val::num(Lin(1)); out.push_back(std::move(s)); } for (auto &s : y) { s.env[I] = Val::num(Lin(0)); out.push_back(std::move(s)); } return; }
    if (a.k == Val::Num) { unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth(); if (a.l.isConst()) { done(Val::num(Lin(w >= 64 ? a.l.c : (i64)((u_int64_t)a.l.c & ((1ull << w) - 1))))); return; } if (nonneg(*this, S, a.l)) { if (a.l.isVar() && w <= 32) S.P.addGe(Lin(((i64)1 << w) - 1) - a.l); done(a); return; } int v = fresh("zx"); S.P.addGe(Lin::var(v)); done(Val::num(Lin::var(v))); return; }
    done(freshOf(I->getType(), "zx", S)); return; }
  case Instruction::Trunc: { Val a = eval(S, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth();
    if (a.k != Val::Num) { done(freshOf(I->getType(), "tr", S)); return; }
    if (w == 1) { if (a.l.isConst()) { done(Val::boolean((a.l.c & 1) ? cTrue() : cFalse())); return; } if (a.l.isVar()) { S.P.addGe(a.l); S.P.addGe(Lin(1) - a.l); } else { Lin lo(a.l.c & 1); for (auto &p : a.l.t) if (p.second % 2) lo = lo.addmul(Lin::var(p.first), p.second); if (S.P.entailsGe(lo) && S.P.entailsGe(Lin(1) - lo)) { done(Val::boolean(cGe(lo - Lin(1)))); return; } } if (S.P.isBot()) return; done(Val::boolean(cGe(a.l - Lin(1)))); return; }
    if (w >= 62) { done(a); return; }
    i64 K = (i64)1 << w; if (a.l.isConst()) { i64 c = ((a.l.c % K) + K) % K; if (c >= K / 2) c -= K; done(Val::num(Lin(c))); return; }
    try { Lin lo(((a.l.c % K) + K) % K); if (lo.c > K / 2) lo.c -= K; for (auto &p : a.l.t) if (p.second % K) lo = lo.addmul(Lin::var(p.first), p.second);
      if (lo.isConst() || (S.P.entailsGe(lo + Lin(K / 2)) && S.P.entailsGe(Lin(K - 1) - lo))) { done(Val::num(lo)); return; } if (lo.isVar() && lo == a.l && w >= 32) { done(Val::num(lo)); return; } } catch (Overflow &) {}
    done(freshOf(I->getType(), "tr", S)); return; }
  case Instruction::FPToUI: case Instruction::FPToSI: { Val a = eval(S, I->getOperand(0)); int v = fresh("fptoi"); if (a.k == Val::Num) { if (I->getOpcode() == Instruction::FPToUI || S.P.entailsGe(a.l)) { S.P.addGe(Lin::var(v)); S.P.addGe(a.l - Lin::var(v)); S.P.addGe(Lin::var(v) + Lin(1) - a.l); } } done(Val::num(Lin::var(v))); return; }
  case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc: { Val a = eval(S, I->getOperand(0)); if (a.k == Val::Num) { done(a); return; } done(freshOf(I->getType(), "fp", S)); return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { Val a = eval(S, I->getOperand(0)); if (I->getOpcode() == Instruction::IntToPtr && a.k == Val::Num) { if (a.l.isConst()) { done(Val::ptr(0, a.l)); return; } done(freshOf(I->getType(), "i2p", S, "i2p:" + std::to_string((size_t)I))); return; } if (a.k == Val::Unknown) { done(freshOf(I->getType(), "cast", S, "cast:" + std::to_string((size_t)I))); return; } done(a); return; }
  case Instruction::Select: {
    auto *Se = cast<SelectInst>(I); Val cv = eval(S, Se->getCondition()); CondP c = condOf(S, cv); int t = truth(S, c);
    Val a = eval(S, Se->getTrueValue()), b = eval(S, Se->getFalseValue());
    if (t == 1) { done(a); return; } if (t == 0) { done(b); return; }
    if (I->getType()->isIntegerTy(1)) { CondP x = condOf(S, a), y = condOf(S, b); done(Val::boolean(cOr(cAnd(c, x), cAnd(cNot(c), y)))); return; }
    std::vector<State> x, y; assume(S, c, true, x); assume(S, c, false, y);
    for (auto &s : x) { phaseMark(s, I, true); s.env[I] = a; out.push_back(std::move(s)); } for (auto &s : y) { phaseMark(s, I, false); s.env[I] = b; out.push_back(std::move(s)); } return; }
  case Instruction::ExtractValue: { auto *E = cast<ExtractValueInst>(I); Val a = eval(S, E->getAggregateOperand()); for (unsigned ix : E->indices()) { if (a.k == Val::Agg && ix < a.e.size()) { Val t = a.e[ix]; a = t; } else { a = Val(); break; } } if (a.k == Val::Unknown) a = freshOf(I->getType(), "xv", S, "xv:" + std::to_string((size_t)I)); done(a); return; }
  case Instruction::InsertValue: { auto *E = cast<InsertValueInst>(I); Val a = eval(S, E->getAggregateOperand()), v = eval(S, E->getInsertedValueOperand()); if (a.k != Val::Agg) { a = Val(); a.k = Val::Agg; if (auto *ST = dyn_cast<StructType>(I->getType())) a.e.resize(ST->getNumElements()); } if (E->getNumIndices() == 1 && E->getIndices()[0] < a.e.size()) a.e[E->getIndices()[0]] = v; done(a); return; }
  case Instruction::LandingPad: if (exactEH) { auto *LP = cast<LandingPadInst>(I); int t = S.d.count("exc") ? S.d["exc"] : 0; bool caught = false;
      auto land = [&](State X, i64 sel) { Val v; v.k = Val::Agg; v.e = {Val::ptr(obj("exc:obj", "deref", false), Lin(0)), Val::num(Lin(sel))}; X.env[I] = v; out.push_back(std::move(X)); };
      for (unsigned i = 0; i < LP->getNumClauses() && !caught; i++) { if (LP->isFilter(i)) { continue; } Value *c = LP->getClause(i)->stripPointerCasts();
        if (isa<ConstantPointerNull>(c)) { land(S, 1000000); caught = true; break; } std::string cn = c->getName().str(); if (t == 0) { State X = S; X.d["exc"] = exc(cn); land(X, exc(cn)); } else if (excSub(excNm[t], cn)) { land(S, exc(cn)); caught = true; } }
      if (!caught) { if (LP->isCleanup()) land(S, 0); else C->onUnwind(*this, I, S); } return; }
    done(freshOf(I->getType(), "lp", S, "lp:" + std::to_string((size_t)I))); return;
  case Instruction::Call: stepCall(cast<CallBase>(I), S, out); return;
  case Instruction::PHI: out.push_back(std::move(S)); return;
  default: if (!I->getType()->isVoidTy()) done(freshOf(I->getType(), "x", S, "x:" + std::to_string((size_t)I))); else out.push_back(std::move(S)); return;
  }
}
void Engine::stepCall(CallBase *CB, State &S, std::vector<State> &out) {
  auto done = [&](const Val &v) { if (!CB->getType()->isVoidTy()) S.env[CB] = v; out.push_back(std::move(S)); };
  if (isa<DbgInfoIntrinsic>(CB)) { out.push_back(std::move(S)); return; }
  const Function *f = CB->getCalledFunction();
  if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::lifetime_end: { Val p = eval(S, II->getArgOperand(1)); if (p.k == Val::Ptr && objs[p.base].kind == "alloca") { for (auto it = S.mem.lower_bound({p.base, INT64_MIN}); it != S.mem.end() && it->first.first == p.base;) it = S.mem.erase(it); S.ver.erase(p.base); } out.push_back(std::move(S)); return; }
    case Intrinsic::lifetime_start: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::trap:
      if (!CB->getType()->isVoidTy()) { done(freshOf(CB->getType(), "ss", S, "ss:" + std::to_string((size_t)CB))); return; }
      out.push_back(std::move(S)); return;
    case Intrinsic::assume: { if (II->hasOperandBundles()) { out.push_back(std::move(S)); return; } CondP c = condOf(S, eval(S, II->getArgOperand(0))); assume(std::move(S), c, true, out); return; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: done(eval(S, II->getArgOperand(0))); return;
    case Intrinsic::eh_typeid_for: done(Val::num(Lin(exc(II->getArgOperand(0)->stripPointerCasts()->getName().str())))); return;
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: { Val v; v.k = Val::Agg; Lin a = numOf(S, eval(S, II->getArgOperand(0))), b = numOf(S, eval(S, II->getArgOperand(1))); bool ml = II->getIntrinsicID() == Intrinsic::umul_with_overflow || II->getIntrinsicID() == Intrinsic::smul_with_overflow;
      try { v.e = {Val::num(ml ? mul(S, a, b) : a + b), Val::boolean(cFalse())}; } catch (Overflow &) { v.e = {Val::num(Lin::var(fresh("big"))), Val::boolean(cFalse())}; } done(v); return; }
    case Intrinsic::type_test: case Intrinsic::public_type_test: done(Val::boolean(cTrue())); return;
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: { Val a = eval(S, II->getArgOperand(0)); auto k = II->getIntrinsicID(); if (a.k == Val::Num && (k != Intrinsic::trunc || S.P.entailsGe(a.l))) { int v = fresh("rounded", true); Lin d = k == Intrinsic::ceil ? Lin::var(v) - a.l : a.l - Lin::var(v); S.P.addGe(d); S.P.addGe(Lin(1) - d); done(Val::num(Lin::var(v))); return; } done(freshOf(CB->getType(), "f", S)); return; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { Val a = eval(S, II->getArgOperand(0)), b = eval(S, II->getArgOperand(1)), c = eval(S, II->getArgOperand(2)); Lin r;
      if (a.k == Val::Num && b.k == Val::Num && c.k == Val::Num && mulReal(S, a.l, b.l, r)) try { r = r + c.l; if (r.t.size() < 4) { done(Val::num(r)); return; } } catch (Overflow &) {} done(freshOf(CB->getType(), "f", S)); return; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      Lin a = numOf(S, eval(S, II->getArgOperand(0))), b = numOf(S, eval(S, II->getArgOperand(1))); bool mn = II->getIntrinsicID() == Intrinsic::umin || II->getIntrinsicID() == Intrinsic::smin;
      CondP c = cGe(b - a); bool un = II->getIntrinsicID() == Intrinsic::umin || II->getIntrinsicID() == Intrinsic::umax; if (un && b.isConst() && b.c < 0 && nonneg(*this, S, a)) c = cTrue(); else if (un && a.isConst() && a.c < 0 && nonneg(*this, S, b)) c = cFalse(); std::vector<State> x, y; assume(S, c, true, x); assume(S, c, false, y);
      for (auto &s : x) { s.env[CB] = Val::num(mn ? a : b); out.push_back(std::move(s)); } for (auto &s : y) { s.env[CB] = Val::num(mn ? b : a); out.push_back(std::move(s)); } return; }
    case Intrinsic::usub_sat: { Lin a = numOf(S, eval(S, II->getArgOperand(0))), b = numOf(S, eval(S, II->getArgOperand(1))); CondP c = cGe(a - b); std::vector<State> x, y; assume(S, c, true, x); assume(S, c, false, y); for (auto &s : x) { s.env[CB] = Val::num(a - b); out.push_back(std::move(s)); } for (auto &s : y) { s.env[CB] = Val::num(Lin(0)); out.push_back(std::move(s)); } return; }
    case Intrinsic::minnum: case Intrinsic::maxnum: { Val a = eval(S, II->getArgOperand(0)), b = eval(S, II->getArgOperand(1)); if (a.k == Val::Num && b.k == Val::Num) { bool mn = II->getIntrinsicID() == Intrinsic::minnum; State A = S; A.P.addGe(b.l - a.l); if (!A.P.isBot()) { A.env[CB] = mn ? a : b; out.push_back(A); } S.P.addGe(a.l - b.l); if (!S.P.isBot()) { S.env[CB] = mn ? b : a; out.push_back(std::move(S)); } return; } done(freshOf(CB->getType(), "f", S)); return; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: {
      auto *MI = cast<MemIntrinsic>(II); Val d = eval(S, MI->getDest()); Lin len = numOf(S, eval(S, MI->getLength()), "len"); if (!len.isConst()) if (auto c = S.P.constOf(len)) len = Lin(*c);
      nonneg(*this, S, len);
      auto *MT = dyn_cast<MemTransferInst>(II); Val s; if (MT) s = eval(S, MT->getSource());
      if (MT && s.k == Val::Ptr) C->onAccess(*this, CB, s, len, false, S); if (d.k == Val::Ptr) C->onAccess(*this, CB, d, len, true, S); if (MT && d.k == Val::Ptr && s.k == Val::Ptr) C->onCopy(*this, CB, d, s, len, S);
      if (d.k == Val::Ptr) {
        std::vector<std::pair<i64, CellVal>> cp; bool exact = false;
        if (MT && s.k == Val::Ptr && len.isConst() && len.c <= 4096) { Lin so = s.l, dof = d.l; if (!so.isConst()) if (auto c = S.P.constOf(so)) so = Lin(*c); if (!dof.isConst()) if (auto c = S.P.constOf(dof)) dof = Lin(*c);
          if (so.isConst() && dof.isConst()) { exact = true; d.l = dof;
            for (auto it = S.mem.lower_bound({s.base, so.c}); it != S.mem.end() && it->first.first == s.base && it->first.second < so.c + len.c; ++it) if (it->first.second + (i64)it->second.size <= so.c + len.c) cp.push_back({it->first.second - so.c, it->second}); 
            if (cp.empty()) exact = false; } }
        killRange(S, d.base, d.l, len);
        if (exact) for (auto &p : cp) S.mem[{d.base, d.l.c + p.first}] = p.second;
        else if (!MT) { Val v = eval(S, cast<MemSetInst>(II)->getValue()); if (v.k == Val::Num && v.l.isConst() && v.l.c == 0 && len.isConst() && len.c > 0 && len.c < (1 << 20)) { Lin dof = d.l; if (!dof.isConst()) if (auto c = S.P.constOf(dof)) dof = Lin(*c); if (dof.isConst()) S.mem[{d.base, dof.c}] = {Val::num(Lin(0)), (unsigned)len.c}; } 
          else if (objs[d.base].kind != "heap" && objs[d.base].kind != "span" && d.l.isConst() && len.isConst() && len.c > 0) S.mem[{d.base, d.l.c}] = {Val(), (unsigned)len.c}; }
        else if (objs[d.base].kind != "heap" && objs[d.base].kind != "span") { if (d.l.isConst() && len.isConst() && len.c > 0) S.mem[{d.base, d.l.c}] = {Val(), (unsigned)len.c}; else { Lin k = d.l; if (!(S.P.entailsGe(-len))) S.ver[d.base] = ++verCounter(); } }
      }
      out.push_back(std::move(S)); return; }
    default: break;
    }
  }
  std::string nm = calleeName(CB);
  if (f && f->getName() == "memcpy") {}
  if (C->onCall(*this, CB, nm, S, out)) return;
  // built-in models
  if (f) {
    StringRef n = f->getName();
    if (n == "__cxa_end_catch") S.d.erase("exc");
    if (n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_allocate_exception" || n == "__cxa_free_exception") { done(CB->getType()->isVoidTy() ? Val() : freshOf(CB->getType(), "exc", S, "exc:" + std::to_string((size_t)CB))); return; }
    if (n.starts_with("verif_nondet")) { done(freshOf(CB->getType(), "nondet", S, "nd:" + std::to_string((size_t)CB))); return; }
    if (n == "strlen") { int v = fresh("strlen"); S.P.addGe(Lin::var(v)); done(Val::num(Lin::var(v))); return; }
  }
  if (CB->isInlineAsm()) { if (!CB->getType()->isVoidTy()) S.env[CB] = freshOf(CB->getType(), "asm", S, "asm:" + std::to_string((size_t)CB)); out.push_back(std::move(S)); return; }
  // unknown code
  if (!CB->onlyReadsMemory()) for (unsigned i = 0; i < CB->arg_size(); i++) { if (CB->onlyReadsMemory(i)) continue; havocArg(S, eval(S, CB->getArgOperand(i)), CB->getArgOperand(i)); }
  done(CB->getType()->isVoidTy() ? Val() : freshOf(CB->getType(), f ? ("r:" + f->getName()).str().substr(0, 20) : "r", S, "call:" + std::to_string((size_t)CB)));
}
// ---------------------------------------------------------------- control
void Engine::computeOrder() {
  DT.recalculate(*F); LI.analyze(DT);
  for (auto *L : LI.getLoopsInPreorder()) headers.insert(L->getHeader());
  // order: DFS post order that visits loop exits first, so bodies come before exits in the reverse
  std::set<BasicBlock *> vis; std::vector<BasicBlock *> post;
  std::function<void(BasicBlock *)> dfs = [&](BasicBlock *B) {
    std::vector<std::pair<BasicBlock *, unsigned>> st; 
    std::function<std::vector<BasicBlock *>(BasicBlock *)> kids = [&](BasicBlock *X) { std::vector<BasicBlock *> k(succ_begin(X), succ_end(X)); unsigned d = LI.getLoopDepth(X); (void)d;
      std::stable_sort(k.begin(), k.end(), [&](BasicBlock *a, BasicBlock *b) { return LI.getLoopDepth(a) < LI.getLoopDepth(b); }); return k; };
    vis.insert(B); st.push_back({B, 0}); std::map<BasicBlock *, std::vector<BasicBlock *>> ks; ks[B] = kids(B);
    while (!st.empty()) { auto &t = st.back(); auto &k = ks[t.first]; if (t.second < k.size()) { BasicBlock *n = k[t.second++]; if (vis.insert(n).second) { ks[n] = kids(n); st.push_back({n, 0}); } } else { post.push_back(t.first); st.pop_back(); } }
  };
  dfs(&F->getEntryBlock()); std::reverse(post.begin(), post.end());
  // make loops contiguous: stable grouping per loop nest
  std::vector<BasicBlock *> res; std::set<BasicBlock *> emitted;
  std::function<void(Loop *)> emitLoop = [&](Loop *L) { // blocks of L in post order, inner loops grouped
    for (auto *B : post) if (L->contains(B) && !emitted.count(B)) { Loop *IL = LI.getLoopFor(B); while (IL && IL != L && IL->getParentLoop() != L) IL = IL->getParentLoop(); if (IL && IL != L) emitLoop(IL); else { emitted.insert(B); res.push_back(B); } } };
  for (auto *B : post) if (!emitted.count(B)) { Loop *L = LI.getLoopFor(B); if (L) { while (L->getParentLoop()) L = L->getParentLoop(); emitLoop(L); } else { emitted.insert(B); res.push_back(B); } }
  seq = res; for (size_t i = 0; i < seq.size(); i++) order[seq[i]] = (int)i;
}
void Engine::computeLive() {
  bool ch = true; std::map<const BasicBlock *, std::set<const Value *>> out;
  for (auto *B : seq) liveIn[B];
  while (ch) { ch = false;
    for (auto it = seq.rbegin(); it != seq.rend(); ++it) { BasicBlock *B = *it; std::set<const Value *> live;
      for (auto *s : successors(B)) { for (auto *v : liveIn[s]) live.insert(v); for (auto &ph : s->phis()) { const Value *iv = ph.getIncomingValueForBlock(B); if (isa<Instruction>(iv) || isa<Argument>(iv)) live.insert(iv); live.erase(&ph); } }
      // phis of successors are defined on the edge
      for (auto ii = B->rbegin(); ii != B->rend(); ++ii) { live.erase(&*ii); if (isa<PHINode>(&*ii)) continue; for (auto &o : ii->operands()) if (isa<Instruction>(o.get()) || isa<Argument>(o.get())) live.insert(o.get()); }
      if (live != liveIn[B]) { liveIn[B] = live; ch = true; } } }
}
void Engine::gc(State &S) {
  std::set<int> keep; for (auto &p : S.env) valVars(p.second, keep); for (auto &p : S.mem) valVars(p.second.v, keep); for (auto &p : S.g) for (auto &q : p.second.t) keep.insert(q.first);
  // nullness of objects no longer referenced
  std::set<int> ro; std::function<void(const Val &)> rv = [&](const Val &v) { if (v.k == Val::Ptr) ro.insert(v.base); if (v.c) { std::function<void(CondP)> rc = [&](CondP c) { if (!c) return; if (c->k == Cond::Null) ro.insert(c->obj); rc(c->a); rc(c->b); }; rc(v.c); } for (auto &e : v.e) rv(e); };
  for (auto &p : S.env) rv(p.second); for (auto &p : S.mem) rv(p.second.v);
  for (auto it = S.nul.begin(); it != S.nul.end();) if (!ro.count(it->first) && (objs[it->first].name.compare(0, 5, "init:") != 0)) it = S.nul.erase(it); else ++it;
  S.P.project(keep);
}
std::string Engine::keyOf(const State &S) {
  std::string k; std::function<void(const Val &)> f = [&](const Val &v) { if (v.k == Val::Ptr) k += "P" + std::to_string(v.base); else if (v.k == Val::Fn) k += "F" + std::to_string((size_t)v.fn); else if (v.k == Val::Agg) { k += "("; for (auto &e : v.e) f(e); k += ")"; } else k += "."; };
  for (auto &p : S.env) { if (p.second.k == Val::Ptr || p.second.k == Val::Fn || p.second.k == Val::Agg) { k += std::to_string((size_t)p.first) + "="; f(p.second); k += ","; } }
  for (auto &p : S.mem) if (p.second.v.k == Val::Ptr || p.second.v.k == Val::Fn) { k += std::to_string(p.first.first) + "+" + std::to_string(p.first.second) + "="; f(p.second.v); k += ","; }
  if (tracePart) k += "h" + std::to_string(S.hist) + ",";
  for (auto &p : S.d) if (p.second) k += p.first + "=" + std::to_string(p.second) + ",";
 for (auto &p : S.env) if (p.second.k == Val::Num && p.second.l.isConst() && C->keyEnv(p.first)) k += std::to_string((size_t)p.first) + "#" + std::to_string(p.second.l.c) + ",";
  for (auto &p : S.env) if (p.second.k == Val::Bool && p.second.c && (p.second.c->k == Cond::True || p.second.c->k == Cond::False) && C->keyEnv(p.first)) k += std::to_string((size_t)p.first) + "#" + (p.second.c->k == Cond::True ? "t" : "f") + ",";
  for (auto &p : S.mem) if (p.second.v.k == Val::Num && p.second.v.l.isConst() && C->keyCell(p.first.first, p.first.second)) k += std::to_string(p.first.first) + "+" + std::to_string(p.first.second) + "#" + std::to_string(p.second.v.l.c) + ",";
  for (auto &p : S.nul) k += "n" + std::to_string(p.first) + "=" + std::to_string(p.second) + ",";
  return k;
}
static bool divided(const Lin &l, i64 g, Lin &q) { if (g < 2 || l.c % g) return false; for (auto &u : l.t) if (u.second % g || VT().real[u.first]) return false; q = Lin(l.c / g); for (auto &u : l.t) q = q.addmul(Lin::var(u.first), u.second / g); return true; }
bool Engine::mergeInto(Acc &A, State N, bool header, bool back, const BasicBlock *at) {
  if (A.n == 0) { A.S = std::move(N); A.n = 1; return true; }
  State H = A.S;
  { // variables owned by this accumulator denote the new value: rename the old ones in N
    std::map<int, int> rn; for (auto &p : A.ded) rn[p.second] = fresh("old"); substState(N, rn); }
  State R; R.hist = H.hist; R.d = H.d; R.nul = H.nul; bool structure = false; std::vector<int> fr; std::set<int> dedv; for (auto &p : A.ded) dedv.insert(p.second);
  // pairs to unify
  struct Slot { std::string ent; Lin lh, ln; bool ptr; };
  std::vector<Slot> slots;
  std::function<Val(const Val &, const Val &, const std::string &, bool &)> mv;
  std::map<std::string, Lin> result;
  auto structEq = [&](const Val &a, const Val &b) { return a.k == b.k && (a.k == Val::Num || a.k == Val::Unknown ? true : a.k == Val::Ptr ? a.base == b.base : a.k == Val::Fn ? a.fn == b.fn : true); };
  // first pass: collect slots
  std::function<void(const Val &, const Val &, const std::string &)> coll = [&](const Val &a, const Val &b, const std::string &ent) {
    if (a.k == Val::Bool && b.k == Val::Bool) { if (condStr(a.c) == condStr(b.c)) { std::set<int> cv; condVars(a.c, cv); bool dd = false; for (int v : cv) if (dedv.count(v)) dd = true; if (!dd) return; }
      slots.push_back({ent, numOf(H, a), numOf(N, b), false}); return; }
    if (a.k == Val::Agg && b.k == Val::Agg && a.e.size() == b.e.size()) { for (size_t i = 0; i < a.e.size(); i++) coll(a.e[i], b.e[i], ent + "." + std::to_string(i)); return; }
    if (!structEq(a, b)) return;
    if (a.k == Val::Num || a.k == Val::Ptr) slots.push_back({ent, a.l, b.l, a.k == Val::Ptr});
  };
  auto entE = [](const Value *v) { return "E" + std::to_string((size_t)v); };
  for (auto &p : H.env) { auto it = N.env.find(p.first); if (it != N.env.end()) coll(p.second, it->second, entE(p.first)); }
  // memory: materialise initial values present on one side only
  std::set<int> bases; for (auto &p : H.mem) bases.insert(p.first.first); for (auto &p : N.mem) bases.insert(p.first.first);
  std::map<int, bool> verDiff; std::set<int> allver; for (auto &p : H.ver) allver.insert(p.first); for (auto &p : N.ver) allver.insert(p.first);
  for (int b : allver) { int vh = H.ver.count(b) ? H.ver[b] : 0, vn = N.ver.count(b) ? N.ver[b] : 0; if (vh != vn) { verDiff[b] = true; std::string e = "V" + std::to_string(b); auto it = A.ded.find(e); int nv; if (it == A.ded.end()) { nv = ++verCounter(); A.ded[e] = -nv; structure = true; } else nv = -it->second; R.ver[b] = nv; if (vh != nv) structure = true; } else if (vh) R.ver[b] = vh; }
  auto mat = [&](State &X, State &Y) { for (auto &p : Y.mem) if (!X.mem.count(p.first) && !verDiff[p.first.first]) {
      bool ov = false; for (auto j = X.mem.lower_bound({p.first.first, p.first.second - 4096}); j != X.mem.end() && j->first.first == p.first.first && j->first.second < p.first.second + (i64)p.second.size; ++j) if (j->first.second + (i64)j->second.size > p.first.second) ov = true;
      if (ov || objs[p.first.first].kind == "alloca") continue;
      int ver = X.ver.count(p.first.first) ? X.ver[p.first.first] : 0; auto key = std::make_pair(p.first.first, std::make_pair(p.first.second, ver)); auto ic = initCell.find(key);
      if (ic == initCell.end()) { if (p.second.v.k != Val::Num) continue; Val v = Val::num(Lin::var(fresh("init", false))); if (isReal(p.second.v.l)) v = Val::num(Lin::var(fresh("init", true))); ic = initCell.emplace(key, v).first; }
      X.mem[p.first] = {ic->second, p.second.size}; } };
  mat(H, N); mat(N, H);
  for (auto &p : H.mem) { auto it = N.mem.find(p.first); if (it != N.mem.end() && it->second.size == p.second.size) coll(p.second.v, it->second.v, "M" + std::to_string(p.first.first) + ":" + std::to_string(p.first.second)); }
  std::set<std::string> gk; for (auto &p : H.g) gk.insert(p.first); for (auto &p : N.g) gk.insert(p.first);
  for (auto &k : gk) slots.push_back({"G" + k, H.g.count(k) ? H.g[k] : Lin(0), N.g.count(k) ? N.g[k] : Lin(0), false});
  // unify
  for (auto &s : slots) { auto it = A.ded.find(s.ent); if (it == A.ded.end() || it->second < 0) continue; int d = it->second;
    auto st = A.stride.find(s.ent); if (st != A.stride.end()) { Lin q; if (s.lh == st->second.first + Lin::var(d) * st->second.second && divided(N.P.norm(s.ln - st->second.first), st->second.second, q)) { N.P.addEq(Lin::var(d) - q); result[s.ent] = s.lh; fr.push_back(d); } else { A.stride[s.ent].second = -1; A.ded.erase(it); } continue; }
    if (s.lh != Lin::var(d)) { A.ded.erase(it); continue; } N.P.addEq(Lin::var(d) - s.ln); result[s.ent] = Lin::var(d); fr.push_back(d); }
  std::map<std::pair<Lin, Lin>, Lin> memo;
  for (auto &s : slots) { if (result.count(s.ent)) continue;
    bool hasDed = false; for (auto &q : s.lh.t) if (dedv.count(q.first)) hasDed = true;
    if (s.lh == s.ln && !hasDed) { result[s.ent] = s.lh; continue; }
    auto mm = memo.find({s.lh, s.ln}); if (mm != memo.end() && !header) { result[s.ent] = mm->second; continue; }
    if (N.P.entailsEq(s.ln - s.lh) && !N.P.isBot()) { result[s.ent] = s.lh; continue; }
    if (!header && H.P.entailsEq(s.ln - s.lh)) { result[s.ent] = s.ln; continue; }
    if (mm != memo.end()) { result[s.ent] = mm->second; continue; }
    bool rl = isReal(s.lh) || isReal(s.ln); int d = fresh("m", rl); for (auto &q : s.lh.t) if (VT().imprecise[q.first]) VT().imprecise[d] = 1; for (auto &q : s.ln.t) if (VT().imprecise[q.first]) VT().imprecise[d] = 1;
    if (header && s.ptr && !hasDed && !A.stride.count(s.ent)) { Lin df = N.P.norm(s.ln - s.lh), q; i64 g = df.c < 0 ? -df.c : df.c; for (auto &u : df.t) g = gcd64(g, u.second < 0 ? -u.second : u.second);
      if (g > 1 && divided(df, g, q)) { A.stride[s.ent] = {s.lh, g}; A.ded[s.ent] = d; dedv.insert(d); structure = true; fr.push_back(d); H.P.addEq(Lin::var(d)); N.P.addEq(Lin::var(d) - q); result[s.ent] = s.lh + Lin::var(d) * g; continue; } }
    A.ded[s.ent] = d; dedv.insert(d); structure = true; fr.push_back(d);
    H.P.addEq(Lin::var(d) - s.lh); N.P.addEq(Lin::var(d) - s.ln); result[s.ent] = Lin::var(d); memo[{s.lh, s.ln}] = Lin::var(d);
  }
  mv = [&](const Val &a, const Val &b, const std::string &ent, bool &ok) -> Val {
    if (a.k == Val::Bool && b.k == Val::Bool) { auto it = result.find(ent); if (it == result.end()) return a; return Val::boolean(cGe(it->second - Lin(1))); }
    if (a.k == Val::Agg && b.k == Val::Agg && a.e.size() == b.e.size()) { Val r = a; for (size_t i = 0; i < a.e.size(); i++) { r.e[i] = mv(a.e[i], b.e[i], ent + "." + std::to_string(i), ok); } return r; }
    if (!structEq(a, b)) { ok = false; return Val(); }
    Val r = a; auto it = result.find(ent); if (it != result.end()) r.l = it->second; return r;
  };
  for (auto &p : H.env) { auto it = N.env.find(p.first); if (it == N.env.end()) { structure = true; continue; } bool ok = true; Val v = mv(p.second, it->second, entE(p.first), ok); if (!ok && p.second.k != Val::Unknown) structure = true; R.env[p.first] = v; }
  for (auto &p : H.mem) { auto it = N.mem.find(p.first); if (it == N.mem.end() || it->second.size != p.second.size) { if (p.second.v.k != Val::Unknown) structure = true; continue; } bool ok = true; Val v = mv(p.second.v, it->second.v, "M" + std::to_string(p.first.first) + ":" + std::to_string(p.first.second), ok);
    if (!ok) { if (p.second.v.k != Val::Unknown) structure = true; R.mem[p.first] = {Val(), p.second.size}; continue; } R.mem[p.first] = {v, p.second.size}; }
  // cells dropped on one side without materialisation: unknown from now on
  auto drop = [&](State &X) { for (auto &p : X.mem) if (!R.mem.count(p.first) && !verDiff[p.first.first]) { bool ov = false; for (auto j = R.mem.lower_bound({p.first.first, p.first.second - 4096}); j != R.mem.end() && j->first.first == p.first.first && j->first.second < p.first.second + (i64)p.second.size; ++j) if (j->first.second + (i64)j->second.size > p.first.second) ov = true; if (!ov) R.mem[p.first] = {Val(), p.second.size}; } };
  drop(H); drop(N);
  for (auto &k : gk) R.g[k] = result["G" + k];
  std::set<int> keep; for (auto &p : R.env) valVars(p.second, keep); for (auto &p : R.mem) valVars(p.second.v, keep); for (auto &p : R.g) for (auto &q : p.second.t) keep.insert(q.first);
  H.P.project(keep); N.P.project(keep);
  if (header && !structure && H.P.includes(N.P)) return false;
  Poly J = Poly::join(H.P, N.P, fr);
  if (back) A.nb++; if (back && A.nb > 3 && !(structure && A.nb < 23)) { Poly J0 = J; J = Poly::widen(H.P, J); // bounds tested inside the loop survive
    if (at) for (auto &l : cands[at]) { std::vector<Lin> vs{l, -l - Lin(1)}; for (auto &u : l.t) if (dedv.count(u.first)) { Lin a = l - Lin(u.second), b = l + Lin(u.second); vs.push_back(a); vs.push_back(-a - Lin(1)); vs.push_back(b); vs.push_back(-b - Lin(1)); }
      for (auto &v : vs) if (J0.entailsGe(v) && !J.entailsGe(v)) J.addGe(v); } }
  for (auto &l : thresholds) if (!J.entailsGe(l) && H.P.entailsGe(l) && N.P.entailsGe(l)) J.addGe(l);
  R.P = J; R.P.feasKnown = false; A.S = std::move(R); A.n++;
  if (header && (A.nb > 60 || A.n > 1500)) { aborted = true; abortWhy = "fixpoint does not stabilise"; }
  return true;
}
// which outcomes of a two-way choice inside a loop were taken so far: separates, e.g., the
// iterations before and after an index wraps
void Engine::phaseMark(State &S, const Instruction *I, bool taken) { auto it = phase.find(I); if (it == phase.end()) return; S.d["ph" + std::to_string(it->second)] |= taken ? 1 : 2; }
void Engine::arrive(BasicBlock *BB, State S, bool back) {
  if (S.P.isBot()) { if (trace) errs() << "BOT " << order[BB] << "\n"; return; }
  if (headers.count(BB)) {
    if (reporting) return;
    C->tidy(*this, S); std::string k = keyOf(S); Acc &A = acc[BB][k]; if (acc[BB].size() > C->maxPartitions()) { if (getenv("SA_KEYS") && !aborted) for (auto &q : acc[BB]) errs() << "KEY " << q.first << "\n"; aborted = true; abortWhy = "too many partitions"; }
    if (mergeInto(A, std::move(S), true, back, BB)) { if (trace) errs() << "HEADER " << BB->getName() << " n=" << A.n << " key=" << k << "\n   " << A.S.P.str() << "\n";
      // replace pending of the same key
      auto &pv = pending[BB]; bool rep = false; for (auto &p : pv) if (keyOf(p) == k) { p = A.S; rep = true; break; } if (!rep) pv.push_back(A.S); dirty.insert(order[BB]); }
    return;
  }
  pending[BB].push_back(std::move(S)); dirty.insert(order[BB]);
}
void Engine::flow(BasicBlock *from, BasicBlock *to, State S) {
  if (peelOuter) { for (auto *L = LI.getLoopFor(from); L && !L->contains(to); L = L->getParentLoop()) S.d.erase("it" + std::to_string(order[L->getHeader()]));
    auto *L = LI.getLoopFor(to); if (L && L->getHeader() == to && L->contains(from) && peeled(L)) S.d["it" + std::to_string(order[to])] = 1; }
  std::vector<std::pair<const Value *, Val>> ph; for (auto &p : to->phis()) { Val v = eval(S, p.getIncomingValueForBlock(from)); if (v.k == Val::Unknown && !p.getType()->isStructTy()) v = freshOf(p.getType(), "undef", S, "undef:" + std::to_string((size_t)&p)); ph.push_back({&p, v}); }
  auto &live = liveIn[to]; std::map<const Value *, Val> e2; for (auto &p : S.env) if (live.count(p.first)) e2.insert(p);
  for (auto &p : ph) e2[p.first] = p.second; S.env.swap(e2); gc(S); arrive(to, std::move(S), order[to] <= order[from]);
}
void Engine::execBlock(BasicBlock *BB, State S0) {
  if (trace) { std::string l; for (auto &q : *BB) if (q.getDebugLoc()) { l = loc(&q); break; } errs() << "BLK "; BB->printAsOperand(errs(), false); errs() << " " << order[BB] << " " << l << " stop=" << S0.d["stop"] << " last=" << S0.d["last"] << " idle=" << S0.d["idle"] << "\n"; }
  std::vector<State> cur; cur.push_back(std::move(S0));
  for (auto &I : *BB) {
    if (aborted) return; if (++steps > maxSteps) { aborted = true; abortWhy = "step limit"; return; }
    if (I.isTerminator()) break;
    std::vector<State> nxt; for (auto &s : cur) {
      if (auto *CB = dyn_cast<CallInst>(&I)) if (!CB->doesNotThrow() && !isa<IntrinsicInst>(CB) && !CB->isInlineAsm()) { State u = s; std::vector<std::string> ts; if (!exactEH || C->throws(*this, CB, calleeName(CB), u, ts)) C->onUnwind(*this, &I, u); }
      size_t n0 = nxt.size(); step(&I, s, nxt); if (tracePart && nxt.size() > n0 + 1 && !LI.getLoopFor(BB)) for (size_t i = n0; i < nxt.size(); i++) nxt[i].hist = nxt[i].hist * 1000003 + (size_t)order[BB] * 64 + (i - n0) + 1; }
    cur.swap(nxt); if (cur.empty()) return;
    if (cur.size() > 400) { aborted = true; abortWhy = "state explosion in block"; return; }
  }
  Instruction *T = BB->getTerminator();
  for (auto &S : cur) {
    if (auto *R = dyn_cast<ReturnInst>(T)) { if (R->getReturnValue()) { Val v = eval(S, R->getReturnValue()); C->onReturn(*this, R, &v, S); } else C->onReturn(*this, R, nullptr, S); }
    else if (auto *B = dyn_cast<BranchInst>(T)) {
      if (B->isUnconditional()) { flow(BB, B->getSuccessor(0), std::move(S)); continue; }
      CondP c = condOf(S, eval(S, B->getCondition())); if (!reporting) for (auto *L = LI.getLoopFor(BB); L; L = L->getParentLoop()) { auto &cs = cands[L->getHeader()]; if (cs.size() < 40) condAtoms(c, cs); }
      int feas = 0; for (int t = 1; t >= 0; t--) { std::vector<State> r; assume(S, c, t, r); feas += (int)r.size(); if (trace && !t && !feas) errs() << "DEADEND " << order[BB] << " k=" << (int)c->k << " " << c->l.str() << " bot=" << S.P.isBot() << " " << S.P.str() << "\n"; int bi = 0; for (auto &s : r) { if (tracePart && !LI.getLoopFor(BB) && (t == 0 || r.size() > 1)) s.hist = s.hist * 1000003 + (size_t)order[BB] * 64 + 32 + 8 * t + bi++; phaseMark(s, T, t); C->onBranch(*this, T, c, t, s); flow(BB, B->getSuccessor(t ? 0 : 1), std::move(s)); } } }
    else if (auto *W = dyn_cast<SwitchInst>(T)) {
      Val wv = eval(S, W->getCondition()); Lin x = wv.k == Val::Ptr ? wv.l : numOf(S, wv); State rest = S; std::vector<State> rs{rest};
      for (auto &cs : W->cases()) { Lin d = x - Lin(cs.getCaseValue()->getSExtValue()); CondP ec = wv.k != Val::Ptr || !wv.base ? cEq(d) : cs.getCaseValue()->isZero() && objs[wv.base].maybeNull ? cNull(wv.base) : cFalse(); std::vector<State> nr; for (auto &s : rs) { std::vector<State> a; assume(s, ec, true, a); for (auto &q : a) flow(BB, cs.getCaseSuccessor(), std::move(q)); assume(std::move(s), ec, false, nr); } rs.swap(nr); }
      for (auto &s : rs) flow(BB, W->getDefaultDest(), std::move(s)); }
    else if (auto *IV = dyn_cast<InvokeInst>(T)) {
      State u = S; std::vector<State> r; stepCall(IV, S, r); for (auto &s : r) flow(BB, IV->getNormalDest(), std::move(s));
      if (exactEH) { std::vector<std::string> ts; if (C->throws(*this, IV, calleeName(IV), u, ts)) { if (!IV->onlyReadsMemory()) for (unsigned i = 0; i < IV->arg_size(); i++) { if (IV->onlyReadsMemory(i)) continue; havocArg(u, eval(u, IV->getArgOperand(i)), IV->getArgOperand(i)); }
          for (auto &t : ts) { State w = u; if (t != "$cur") { if (t.empty()) w.d.erase("exc"); else w.d["exc"] = exc(t); } flow(BB, IV->getUnwindDest(), std::move(w)); } } }
      else if (!IV->doesNotThrow()) { bool thr = true; u.d["$unwind"] = 0; if (thr) { // effects of the callee before it threw are unknown
          if (!IV->onlyReadsMemory()) for (unsigned i = 0; i < IV->arg_size(); i++) { if (IV->onlyReadsMemory(i)) continue; havocArg(u, eval(u, IV->getArgOperand(i)), IV->getArgOperand(i)); }
          flow(BB, IV->getUnwindDest(), std::move(u)); } } }
    else if (isa<ResumeInst>(T)) C->onUnwind(*this, T, S);
    else if (isa<UnreachableInst>(T)) {}
    else { aborted = true; abortWhy = "terminator"; }
  }
}
// loops around other loops keep what the first pass leaves behind apart from later passes, except those driving the probe
bool Engine::peeled(const Loop *L) {
  if (L->isInnermost()) return false; auto it = peelMemo.find(L); if (it != peelMemo.end()) return it->second; bool r = true;
  for (auto *B : L->blocks()) for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (G->getName().startswith("verif_")) r = false;
  return peelMemo[L] = r;
}
void Engine::run() {
  computeOrder(); computeLive();
  if (phasePart) { int n = 0; for (auto *L : LI) if (L->isInnermost()) { std::vector<const Instruction *> c; for (auto *B : L->blocks()) for (auto &I : *B) { const Value *cv = nullptr;
        if (auto *Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional() && L->contains(Br->getSuccessor(0)) && L->contains(Br->getSuccessor(1))) cv = Br->getCondition(); } else if (auto *Se = dyn_cast<SelectInst>(&I)) cv = Se->getCondition();
        if (auto *Cm = dyn_cast_or_null<ICmpInst>(cv)) if (Cm->getOperand(0)->getType()->isIntegerTy(64)) c.push_back(&I); }
      if (c.size() <= 2) for (auto *I : c) phase[I] = n++; } }
  State S0; unsigned ai = 0; for (auto &A : F->args()) { Val v; std::string nm = A.hasName() ? A.getName().str() : "arg" + std::to_string(ai);
    if (A.getType()->isPointerTy()) { int o = obj("param:" + std::to_string(ai), "param", true, &A); v = Val::ptr(o, Lin(0)); } else v = freshOf(A.getType(), nm, S0); S0.env[&A] = v; ai++; }
  C->init(*this, S0); thresholds = S0.P.asGe();
  for (int phase = 0; phase < 2; phase++) {
    reporting = phase == 1; pending.clear(); dirty.clear();
    pending[&F->getEntryBlock()].push_back(S0); dirty.insert(order[&F->getEntryBlock()]);
    if (reporting) for (auto &h : acc) for (auto &k : h.second) { pending[h.first].push_back(k.second.S); dirty.insert(order[h.first]); }
    while (!dirty.empty() && !aborted) {
      int ix = *dirty.begin(); dirty.erase(dirty.begin()); BasicBlock *BB = seq[ix]; std::vector<State> L; L.swap(pending[BB]);
      if (L.size() > maxDisjuncts && !headers.count(BB)) { std::map<std::string, Acc> by; for (auto &s : L) { Acc &A = by[keyOf(s)]; mergeInto(A, std::move(s), false, false, nullptr); } L.clear(); for (auto &p : by) { L.push_back(std::move(p.second.S)); } }
      if (reporting) stats["blocks_visited"]++, stats["abstract_states"] += (long)L.size();
      for (auto &s : L) { execBlock(BB, std::move(s)); if (aborted) break; }
    }
  }
  stats["steps"] = steps;
}
