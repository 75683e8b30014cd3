// Lock discipline (C23, C28, concurrent part of C20): for every entry point, which shared locations it touches and which
// locks it holds there; conflicting accesses of entry points that may run at once need a common lock or atomics.
// Also the typestate of locks and of file handles kept in globals.
// Everything is inlined; locations are access paths rooted at the shared object or a global; the dataflow state is
// (locks held, constants known for branch conditions, handle states), kept apart per path condition.
#include "block.hpp"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
using namespace llvm;
namespace {
typedef std::string Str;
bool starts(const Str &s, const Str &t) { return s.compare(0, t.size(), t) == 0; }
// ---- names
Str untempl(Str b) { int d = 0; Str r; for (char c : b) { if (c == '<') d++; else if (c == '>') d--; else if (!d) r += c; } return r; }
bool params(const Str &n, std::vector<Str> &ps, bool &cst) {
  int d = 0; size_t a = Str::npos; for (size_t i = 0; i < n.size(); i++) { if (n[i] == '<') d++; else if (n[i] == '>') d--; else if (n[i] == '(' && d <= 0 && n.compare(i, 11, "(anonymous ")) { a = i; break; } }
  if (a == Str::npos) return false; Str cur; int k = 0; size_t i = a + 1; for (; i < n.size(); i++) { char c = n[i]; if (c == '(' || c == '<') k++; if (c == ')' && k == 0) break; if (c == ')' || c == '>') k--; if (c == ',' && !k) { ps.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) ps.push_back(cur); cst = i < n.size() && has(n.substr(i), "const"); return true; }
enum Side { NotQ, Query, Prod, Cons };
Side queueOp(const Str &n) {
  Str h = headOf(n); if (!has(h, "cler::Channel") && !has(h, "SPSCQueue<") && !has(h, "dro::SPSC")) return NotQ; if (has(h, "operator new")) return NotQ; Str b = untempl(baseName(h));
  for (auto s : {"push", "try_push", "emplace", "try_emplace", "force_emplace", "force_push", "writeN", "peek_write", "commit_write", "write_dbf"}) if (b == s) return Prod;
  for (auto s : {"pop", "try_pop", "readN", "peek_read", "commit_read", "read_dbf"}) if (b == s) return Cons;
  for (auto s : {"size", "space", "empty", "capacity"}) if (b == s) return Query;
  return NotQ; }
bool mutexClass(const Str &n) { Str h = headOf(n); for (auto c : {"std::mutex::", "std::__mutex_base::", "std::recursive_mutex::", "std::shared_mutex::", "std::timed_mutex::", "std::recursive_timed_mutex::", "std::shared_timed_mutex::"}) if (starts(h, c)) return true; return false; }
// lock operations: kind 0 none 1 lock 2 try 3 unlock; shared: reader side
int lockOp(const Str &n, bool &shared, bool &rec) {
  shared = rec = false; Str h = headOf(n), b = baseName(h);
  if (mutexClass(n)) { rec = has(h, "recursive"); if (b == "lock") return 1; if (b == "try_lock" || starts(b, "try_lock_")) { if (has(b, "shared")) shared = true; return 2; } if (b == "unlock") return 3; if (b == "lock_shared") { shared = true; return 1; } if (b == "try_lock_shared") { shared = true; return 2; } if (b == "unlock_shared") { shared = true; return 3; } return 0; }
  if (n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock" || n == "pthread_spin_lock") return 1;
  if (n == "pthread_rwlock_rdlock") { shared = true; return 1; }
  if (n == "pthread_mutex_trylock" || n == "pthread_mutex_timedlock" || n == "pthread_mutex_clocklock" || n == "pthread_rwlock_trywrlock") return 2;
  if (n == "pthread_rwlock_tryrdlock") { shared = true; return 2; }
  if (n == "pthread_mutex_unlock" || n == "pthread_rwlock_unlock" || n == "pthread_spin_unlock") return 3;
  return 0; }
struct Loc { Str root; i64 off = 0, len = -1; bool operator<(const Loc &o) const { return std::tie(root, off, len) < std::tie(o.root, o.off, o.len); } }; // len<0: anywhere in root
struct PathV { Str root; i64 off; bool any; bool operator<(const PathV &o) const { return std::tie(root, off, any) < std::tie(o.root, o.off, o.any); }  };
typedef std::set<PathV> PV;
struct Access { Loc at; bool write, atomic; std::map<Str, int> locks; Instruction *I; Str what; };
struct St { std::map<Str, int> locks; std::map<const Value *, i64> known; std::map<Str, int> cell; std::map<int, int> tok; std::map<const Value *, int> ssa; std::set<int> orph; // locks: 1 exclusive 2 shared
  bool operator<(const St &o) const { return std::tie(locks, known, cell, tok, ssa, orph) < std::tie(o.locks, o.known, o.cell, o.tok, o.ssa, o.orph); } };
enum { TU = 0, TNull = 1, TOpen = 2, TClosed = 3 };
// members of the object an entry point works on: offset -> (end, name), from the debug information
typedef std::map<i64, std::pair<i64, Str>> Members;
const DIType *strip(const DIType *T) { while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) { unsigned t = D->getTag(); if (t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_pointer_type || t == dwarf::DW_TAG_reference_type) T = D->getBaseType(); else break; } return T; }
void members(const DICompositeType *T, i64 base, const Str &pre, Members &m, int depth = 0, std::set<i64> *own = nullptr) { if (!T) return; if (T->isForwardDecl()) return;
  for (auto *e : T->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) { if (D->isStaticMember()) continue; if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue; i64 o = base + (i64)D->getOffsetInBits() / 8, n = (i64)D->getSizeInBits() / 8; const DIType *t = strip(D->getBaseType()); if (D->getTag() == dwarf::DW_TAG_inheritance) { members(dyn_cast_or_null<DICompositeType>(t), o, pre, m, depth + 1, own); continue; } if (!n && t) n = (i64)t->getSizeInBits() / 8; if (n > 0) m[o] = {o + n, pre + D->getName().str()};
      if (auto *ct = dyn_cast_or_null<DICompositeType>(t)) if (own && n > 8 && ct->getTag() != dwarf::DW_TAG_array_type) { const DIScope *sc = ct->getScope(); while (sc && sc->getScope()) sc = sc->getScope(); if (sc && sc->getName() == "std") own->insert(o); } } }
struct Fn {
  Function *F; Output &O; Str name, prop, subject; const DataLayout &DL; bool files; std::map<const Value *, PV> pv; std::map<Str, std::map<i64, PV>> slot; std::vector<Access> acc; std::set<Str> bad; std::map<Str, Str> pretty;
  DominatorTree DT; Members mem; std::set<i64> owners; bool rep = false; std::set<const Value *> interest; std::set<Str> hands;
  Fn(Function *f, Output &o, Str n, Str p, Str s, bool fl) : F(f), O(o), name(n), prop(p), subject(s), DL(f->getParent()->getDataLayout()), files(fl), DT(*f) {
    if (auto *SP = F->getSubprogram()) if (subject.size()) { auto ta = SP->getType()->getTypeArray(); if (ta.size() > 1) members(dyn_cast_or_null<DICompositeType>(strip(ta[1])), 0, "", mem, 0, &owners); } }
  bool extent(i64 off, i64 &a, i64 &b) { auto it = mem.upper_bound(off); if (it == mem.begin()) return false; --it; if (off >= it->second.first) return false; a = it->first; b = it->second.first; return true; }
  Str memberName(const Loc &l) { if (l.root != "obj") return ""; auto it = mem.upper_bound(l.off); if (it == mem.begin()) return ""; --it; return l.off < it->second.first ? it->second.second : ""; }
  Str loc(const Instruction *I) { const DILocation *L = I->getDebugLoc(); while (L && !has(L->getFilename().str(), "/repo") && (has(L->getFilename().str(), "/usr/") || L->getFilename().empty()) && L->getInlinedAt()) L = L->getInlinedAt(); if (!L || !L->getLine()) return name; Str f = L->getFilename().str(); auto p = f.rfind("/desktop_"); if (p != Str::npos) f = f.substr(p + 1); else if ((p = f.rfind("/include/")) != Str::npos) f = f.substr(p + 1); return f + ":" + std::to_string(L->getLine()); }
  void viol(Instruction *I, const Str &rule, const Str &m) { if (rep) O.add(prop, rule, name, loc(I), m); }
  // ---- access paths
  static Str str(const PathV &p) { return p.root + (p.any ? "+?" + (p.root == "obj" ? std::to_string(p.off) : Str()) : "+" + std::to_string(p.off)); }
  bool shared(const Str &r) { return !starts(r, "local") && !starts(r, "priv"); }
  PathV deref(const PathV &p) { // what a pointer stored at p points to
    if (starts(p.root, "*(") ) return {"R" + p.root.substr(1), 0, true};
    if (starts(p.root, "R(")) return {p.root, 0, true};
    if (starts(p.root, "C(") || starts(p.root, "P(")) return {p.root, 0, true};
    // a standard container's nodes, elements and tables are one region, named by the member that owns them
    i64 a, b; if (p.root == "obj" && extent(p.off, a, b) && owners.count(a)) return {"R(obj+" + std::to_string(a) + ")", 0, true};
    return {"*(" + str(p) + ")", 0, false}; }
  const PV &of(const Value *V) { static PV none; auto it = pv.find(V); if (it != pv.end()) return it->second;
    if (auto *G = dyn_cast<GlobalVariable>(V)) { PV &r = pv[V]; if (G->isConstant() || G->isThreadLocal()) r.insert({"priv:" + G->getName().str(), 0, false}); else r.insert({"g:" + G->getName().str(), 0, false}); return r; }
    if (auto *C = dyn_cast<ConstantExpr>(V)) { if (C->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); bool k = cast<GEPOperator>(C)->accumulateConstantOffset(DL, o); PV b = of(C->getOperand(0)); PV &r = pv[V]; for (auto p : b) { if (k && !p.any) p.off += o.getSExtValue(); else { p.any = true; if (p.root != "obj") p.off = 0; } r.insert(p); } return r; } if (C->isCast()) return of(C->getOperand(0)); }
    return none; }
  bool add(const Value *V, const PV &n) { PV &r = pv[V]; size_t k = r.size(); for (auto &p : n) if (r.size() < 24) r.insert(p); return r.size() != k; }
  PV window(const PV &q, Side s) { PV r; for (auto &p : q) r.insert({Str(s == Prod ? "P(" : "C(") + str(p) + ")", 0, true}); return r; }
  void paths() {
    int k = 0; for (auto &A : F->args()) { if (A.getArgNo() == 0 && subject.size()) pv[&A].insert({"obj", 0, false}); else pv[&A].insert({"priv:arg" + std::to_string(A.getArgNo()), 0, true}); }
    std::map<const Value *, int> ids; bool ch = true; int round = 0;
    while (ch && round++ < 60) { ch = false;
      for (auto &I : instructions(*F)) {
        if (auto *A = dyn_cast<AllocaInst>(&I)) { if (!pv.count(A)) { pv[A].insert({"local" + std::to_string(k++), 0, false}); ch = true; } continue; }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { APInt o(64, 0); bool c = G->accumulateConstantOffset(DL, o); i64 co = o.getSExtValue(); if (!c) { MapVector<Value *, APInt> vo; APInt k2(64, 0); if (G->collectOffset(DL, 64, vo, k2)) co = k2.getSExtValue(); else co = 0; } PV r; for (auto p : of(G->getPointerOperand())) { bool ob = p.root == "obj"; if (ob) { p.off += co; if (!c) p.any = true; } else if (c && !p.any) p.off += co; else p.any = true, p.off = 0; r.insert(p); } ch |= add(G, r); continue; }
        if (auto *P = dyn_cast<PHINode>(&I)) { if (P->getType()->isPointerTy()) for (auto &v : P->incoming_values()) { PV r = of(v); // a pointer advanced in a loop
              if (auto *G = dyn_cast<GetElementPtrInst>(v)) if (DT.dominates(P->getParent(), G->getParent())) { PV q; for (auto p : of(G->getPointerOperand())) { p.any = true; if (p.root != "obj") p.off = 0; q.insert(p); } r = q; } ch |= add(P, r); } continue; }
        if (auto *S = dyn_cast<SelectInst>(&I)) { if (S->getType()->isPointerTy()) { PV a = of(S->getTrueValue()), b = of(S->getFalseValue()); ch |= add(S, a); ch |= add(S, b); } continue; }
        if (isa<CastInst>(&I) && I.getType()->isPointerTy() && I.getOperand(0)->getType()->isPointerTy()) { PV a = of(I.getOperand(0)); ch |= add(&I, a); continue; }
        if (isa<FreezeInst>(&I)) { PV a = of(I.getOperand(0)); ch |= add(&I, a); continue; }
        if (isa<ExtractValueInst>(&I) || isa<InsertValueInst>(&I)) { PV a = of(I.getOperand(0)); ch |= add(&I, a); if (isa<InsertValueInst>(&I)) { a = of(I.getOperand(1)); ch |= add(&I, a); } continue; }
        if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isPointerTy()) continue; PV r; for (auto p : of(L->getPointerOperand())) { if (starts(p.root, "local")) { for (auto &s : slot[p.root]) if (p.any || s.first == p.off || s.first < 0) r.insert(s.second.begin(), s.second.end()); } else if (starts(p.root, "priv")) r.insert({p.root, 0, true}); else r.insert(deref(p)); } ch |= add(L, r); continue; }
        if (auto *S = dyn_cast<StoreInst>(&I)) { if (!S->getValueOperand()->getType()->isPointerTy()) continue; PV v = of(S->getValueOperand()); if (v.empty()) continue; for (auto p : of(S->getPointerOperand())) if (starts(p.root, "local")) { PV &t = slot[p.root][p.any ? -1 : p.off]; size_t n = t.size(); t.insert(v.begin(), v.end()); ch |= t.size() != n; } continue; }
        if (auto *M = dyn_cast<MemTransferInst>(&I)) { PV d = of(M->getDest()), s = of(M->getSource()); for (auto &a : d) if (starts(a.root, "local")) for (auto &b : s) { if (starts(b.root, "local") && a.root != b.root) { auto src = slot[b.root]; for (auto &c : src) { PV &t = slot[a.root][c.first < 0 || a.any || b.any ? -1 : c.first - b.off + a.off]; size_t n = t.size(); t.insert(c.second.begin(), c.second.end()); ch |= t.size() != n; } } else if (shared(b.root)) { PV &t = slot[a.root][-1]; ch |= t.insert(deref(b)).second; } } continue; }
        if (auto *C = dyn_cast<CallBase>(&I)) { Str n = callee(C); Side q = queueOp(n); unsigned t0 = C->arg_size() && C->paramHasAttr(0, Attribute::StructRet) ? 1 : 0;
          if (q == Prod || q == Cons) { if (C->arg_size() > t0) { PV w = window(of(C->getArgOperand(t0)), q); ch |= add(C, w); for (unsigned i = 0; i < C->arg_size(); i++) if (i != t0 && C->getArgOperand(i)->getType()->isPointerTy()) for (auto p : of(C->getArgOperand(i))) if (starts(p.root, "local")) { PV &t = slot[p.root][-1]; size_t m = t.size(); t.insert(w.begin(), w.end()); ch |= t.size() != m; } } continue; }
          if (!C->getType()->isPointerTy() || isa<IntrinsicInst>(C)) continue;
          // a pointer returned by a member function of a shared object points into it
          Str bn = untempl(baseName(headOf(n))); if (n.empty() || has(bn, "operator new") || has(bn, "alloc")) continue; PV r; for (auto &a : C->args()) if (a->getType()->isPointerTy()) for (auto p : of(a)) if (shared(p.root)) { p.any = true; p.off = 0; r.insert(p); if (!starts(p.root, "R(")) r.insert(deref(p)); } ch |= add(C, r); continue; }
      } } }
  Str callee(const CallBase *C) { auto *f = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); return f ? demangled(f->getName()) : ""; }
  // ---- accesses
  void touch(Instruction *I, const Value *P, i64 len, bool w, bool atomic, const St &S, const Str &what) { if (!rep) return;
    for (auto &p : of(P)) { if (!shared(p.root)) continue; Loc l; l.root = p.root; l.off = p.any ? 0 : p.off; l.len = p.any ? -1 : len; if (!p.any && len < 0) { l.len = INT64_MAX / 4; } i64 a, b; if (p.root == "obj" && (p.any || len < 0) && extent(p.off, a, b)) { l.off = a; l.len = b - a; } acc.push_back({l, w, atomic, S.locks, I, what}); O.stats["shared_accesses"]++; } }
  // ---- branch conditions
  bool val(const Value *V, const St &S, i64 &r) { if (auto *C = dyn_cast<ConstantInt>(V)) { r = C->getBitWidth() == 1 ? (i64)C->getZExtValue() : C->getSExtValue(); return true; } if (isa<ConstantPointerNull>(V)) { r = 0; return true; } auto it = S.known.find(V); if (it != S.known.end()) { r = it->second; return true; }
    if (V->getType()->isPointerTy()) { auto t = S.ssa.find(V); if (t != S.ssa.end()) { auto k = S.tok.find(t->second); if (k != S.tok.end() && k->second == TNull) { r = 0; return true; } } return false; }
    if (auto *Z = dyn_cast<CastInst>(V)) { if (!Z->getType()->isIntegerTy() || !Z->getOperand(0)->getType()->isIntegerTy() || !val(Z->getOperand(0), S, r)) return false; if (isa<TruncInst>(Z) && Z->getType()->isIntegerTy(1)) r &= 1; return true; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { i64 a, b; bool x = val(B->getOperand(0), S, a), y = val(B->getOperand(1), S, b); switch (B->getOpcode()) { case Instruction::Xor: if (x && y) { r = B->getType()->isIntegerTy(1) ? (a ^ b) & 1 : a ^ b; return true; } return false; case Instruction::And: if (x && y) { r = a & b; return true; } if ((x && !a) || (y && !b)) { r = 0; return true; } return false; case Instruction::Or: if (x && y) { r = a | b; return true; } if (B->getType()->isIntegerTy(1) && ((x && a) || (y && b))) { r = 1; return true; } return false; default: return false; } }
    if (auto *Q = dyn_cast<SelectInst>(V)) { i64 c; if (val(Q->getCondition(), S, c)) return val(c ? Q->getTrueValue() : Q->getFalseValue(), S, r); return false; }
    if (auto *C = dyn_cast<ICmpInst>(V)) { i64 a, b; bool x = val(C->getOperand(0), S, a), y = val(C->getOperand(1), S, b);
      if (C->isEquality() && C->getOperand(0)->getType()->isPointerTy() && isa<ConstantPointerNull>(C->getOperand(1))) { auto t = S.ssa.find(C->getOperand(0)); if (t != S.ssa.end()) { auto k = S.tok.find(t->second); int v = k == S.tok.end() ? TU : k->second; if (v == TNull) { r = C->getPredicate() == ICmpInst::ICMP_EQ; return true; } if (v == TOpen || v == TClosed) { r = C->getPredicate() == ICmpInst::ICMP_NE; return true; } } return false; }
      if (!x || !y || C->getOperand(0)->getType()->isPointerTy()) return false; switch (C->getPredicate()) { case ICmpInst::ICMP_EQ: r = a == b; return true; case ICmpInst::ICMP_NE: r = a != b; return true; case ICmpInst::ICMP_SLT: r = a < b; return true; case ICmpInst::ICMP_SGT: r = a > b; return true; case ICmpInst::ICMP_SLE: r = a <= b; return true; case ICmpInst::ICMP_SGE: r = a >= b; return true; default: if (a < 0 || b < 0) return false; switch (C->getPredicate()) { case ICmpInst::ICMP_ULT: r = a < b; return true; case ICmpInst::ICMP_UGT: r = a > b; return true; case ICmpInst::ICMP_ULE: r = a <= b; return true; case ICmpInst::ICMP_UGE: r = a >= b; return true; default: return false; } } }
    return false; }
  void learn(const Value *V, i64 r, St &S) { if (interest.count(V)) S.known[V] = r; if (V->getType()->isPointerTy()) { auto t = S.ssa.find(V); if (t != S.ssa.end() && !r) S.tok[t->second] = TNull; return; }
    if (auto *C = dyn_cast<ICmpInst>(V)) { bool eq = C->getPredicate() == ICmpInst::ICMP_EQ, ne = C->getPredicate() == ICmpInst::ICMP_NE; if (!eq && !ne) return; bool same = (eq && r) || (ne && !r); const Value *a = C->getOperand(0), *b = C->getOperand(1);
      if (a->getType()->isPointerTy()) { if (isa<ConstantPointerNull>(b)) { auto t = S.ssa.find(a); if (t != S.ssa.end()) { int &k = S.tok[t->second]; if (k == TU) k = same ? TNull : TOpen; } } return; }
      if (auto *k = dyn_cast<ConstantInt>(b)) { if (same) learn(a, k->getSExtValue(), S); else if (a->getType()->isIntegerTy(1)) learn(a, !k->getZExtValue(), S); else if (k->isZero() && isa<CastInst>(a) && a->getType()->isIntegerTy() && cast<CastInst>(a)->getOperand(0)->getType()->isIntegerTy(1)) learn(cast<CastInst>(a)->getOperand(0), 1, S); } return; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) { if (B->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(B->getOperand(1))) if (B->getType()->isIntegerTy(1)) learn(B->getOperand(0), r ^ (i64)k->getZExtValue(), S); return; }
    if (auto *Z = dyn_cast<CastInst>(V)) if (Z->getOperand(0)->getType()->isIntegerTy()) learn(Z->getOperand(0), r, S); }
  // ---- one instruction
  Str lockId(const Value *P, bool &sure) { auto &s = of(P); sure = s.size() == 1 && !s.begin()->any; if (s.empty()) { sure = false; return ""; } return str(*s.begin()); }
  int ntok = 0; std::map<std::pair<const Value *, Str>, int> tokId; int token(const Value *I, const Str &c) { auto k = std::make_pair(I, c); auto it = tokId.find(k); if (it != tokId.end()) return it->second; return tokId[k] = ++ntok; }
  void others(St &S, const Instruction *I) { // another thread may have replaced the handles since
    if (!files) return; for (auto &h : hands) { int t = token(I, h); S.cell[h] = t; S.tok[t] = TU; for (auto it = S.ssa.begin(); it != S.ssa.end();) if (it->second == t) it = S.ssa.erase(it); else ++it; } gc(S); }
  void gc(St &S) { std::set<int> u = S.orph; for (auto &c : S.cell) u.insert(c.second); for (auto &s : S.ssa) u.insert(s.second); for (auto it = S.tok.begin(); it != S.tok.end();) if (!u.count(it->first)) it = S.tok.erase(it); else ++it; }
  Str handleCell(const Value *P) { if (!files) return ""; auto &s = of(P); if (s.size() != 1 || s.begin()->any) return ""; Str c = str(*s.begin()); return hands.count(c) ? c : ""; }
  void useFile(Instruction *I, const Value *V, St &S, bool close, const Str &fn) { if (!files) return; auto t = S.ssa.find(V); if (t == S.ssa.end()) return; int &k = S.tok[t->second]; if (rep) O.stats["handle_uses"]++;
    if (k == TClosed) viol(I, "closed", fn + "() on a file handle that has been closed"); else if (k == TNull) viol(I, "closed", fn + "() on a null file handle"); else if (k == TU) viol(I, "closed", fn + "() on a file handle that may not be open");
    if (close) { k = TClosed; S.orph.erase(t->second); } }
  void step(Instruction *I, St S, std::vector<St> &out) {
    S.known.erase(I); if (I->getType()->isPointerTy()) S.ssa.erase(I);
    if (auto *L = dyn_cast<LoadInst>(I)) { touch(I, L->getPointerOperand(), (i64)DL.getTypeStoreSize(L->getType()).getFixedValue(), false, L->isAtomic(), S, "reads"); Str c = L->getType()->isPointerTy() ? handleCell(L->getPointerOperand()) : ""; if (!c.empty()) { if (!S.cell.count(c)) { int t = token(nullptr, c); S.cell[c] = t; S.tok[t] = TU; } S.ssa[L] = S.cell[c]; } out.push_back(S); return; }
    if (auto *T = dyn_cast<StoreInst>(I)) { touch(I, T->getPointerOperand(), (i64)DL.getTypeStoreSize(T->getValueOperand()->getType()).getFixedValue(), true, T->isAtomic(), S, "writes"); Str c = handleCell(T->getPointerOperand());
      if (!c.empty()) { auto o = S.cell.find(c); int was = o == S.cell.end() ? (int)TU : S.tok[o->second]; auto *V = T->getValueOperand(); auto nv = S.ssa.find(V); bool same = o != S.cell.end() && nv != S.ssa.end() && nv->second == o->second; bool held = false; if (o != S.cell.end()) for (auto &x : S.ssa) if (x.second == o->second) held = true; if (!same && (was == TOpen || was == TU) && held) S.orph.insert(o->second); else if (!same && (was == TOpen || was == TU)) viol(I, "leaked", "the file handle kept in " + nice(c) + " is replaced while it may still be open"); int t; if (nv != S.ssa.end()) t = nv->second; else { t = token(I, c); S.tok[t] = isa<ConstantPointerNull>(V) ? TNull : TU; } S.cell[c] = t; gc(S); }
      out.push_back(S); return; }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { touch(I, I->getOperand(0), 8, true, true, S, "updates"); out.push_back(S); return; }
    if (auto *M = dyn_cast<MemIntrinsic>(I)) { auto *n = dyn_cast<ConstantInt>(M->getLength()); i64 len = n ? (i64)n->getZExtValue() : -1; touch(I, M->getDest(), len, true, false, S, "writes"); if (auto *T = dyn_cast<MemTransferInst>(M)) touch(I, T->getSource(), len, false, false, S, "reads"); out.push_back(S); return; }
    if (auto *P = dyn_cast<SelectInst>(I)) { i64 c; if (P->getType()->isPointerTy() && val(P->getCondition(), S, c)) { auto t = S.ssa.find(c ? P->getTrueValue() : P->getFalseValue()); if (t != S.ssa.end()) S.ssa[P] = t->second; } out.push_back(S); return; }
    auto *C = dyn_cast<CallBase>(I); if (!C || isa<DbgInfoIntrinsic>(I) || isa<IntrinsicInst>(I)) { out.push_back(S); return; }
    Str n = callee(C), h = headOf(n), b = untempl(baseName(h)); bool sh, rec; int lk = lockOp(n, sh, rec);
    if (lk) { bool sure; Str id = lockId(C->getArgOperand(0), sure); if (!sure) { if (rep && bad.insert(id).second) O.undecided.push_back(name + ": " + loc(I) + ": a lock that is not identified"); out.push_back(S); return; } if (rep) O.stats["lock_operations"]++;
      if (lk == 3) { auto it = S.locks.find(id); if (it == S.locks.end()) viol(I, "lock", "releases " + nice(id) + " without holding it"); else S.locks.erase(it); for (auto &c : S.cell) { auto k = S.tok.find(c.second); if (k != S.tok.end() && k->second == TClosed) viol(I, "closed", "a closed file handle is left in " + nice(c.first) + " when the lock is released"); } out.push_back(S); return; }
      if (lk == 1 && S.locks.count(id) && !rec) viol(I, "lock", "takes " + nice(id) + " while this thread already holds it"); 
      if (lk == 2) { St N = S; bool mtx = mutexClass(n); N.known[C] = mtx ? 0 : 16; out.push_back(N); S.known[C] = mtx ? 1 : 0; }
      else if (!I->getType()->isVoidTy()) S.known[C] = 0;
      S.locks[id] = sh ? 2 : 1; others(S, I); out.push_back(S); return; }
    Side q = queueOp(n); unsigned t0 = C->arg_size() && C->paramHasAttr(0, Attribute::StructRet) ? 1 : 0;
    if (q != NotQ) { if (rep) O.stats["channel_operations"]++; if (q == Query) { out.push_back(S); return; }
      if (rep) for (auto &p : of(C->getArgOperand(t0))) if (shared(p.root)) acc.push_back({{Str(q == Prod ? "P(" : "C(") + str(p) + ")", 0, -1}, true, false, S.locks, I, q == Prod ? "writes into" : "takes from"});
      for (unsigned i = t0 + 1; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) touch(I, C->getArgOperand(i), -1, q == Cons, false, S, q == Cons ? "writes" : "reads");
      out.push_back(S); return; }
    if (files) { if (b == "fopen" || b == "fdopen" || b == "freopen") { if (b == "freopen") useFile(I, C->getArgOperand(2), S, true, b); int t = token(I, "new"); for (auto it = S.ssa.begin(); it != S.ssa.end();) if (it->second == t) it = S.ssa.erase(it); else ++it; S.ssa[I] = t; S.tok[t] = TU; out.push_back(S); return; }
      if (b == "fclose") { useFile(I, C->getArgOperand(0), S, true, b); out.push_back(S); return; }
      for (auto &a : C->args()) if (a->getType()->isPointerTy() && S.ssa.count(a)) useFile(I, a, S, false, b.empty() ? "a call" : b);
      if ((starts(b, "_zf_log_write") || starts(b, "zf_log_write")) && !S.locks.empty()) viol(I, "lock", "logs a message while holding " + nice(S.locks.begin()->first) + ", which the log output takes again"); }
    bool dying = C->doesNotReturn(); if (!dying) effects(C, n, S);
    out.push_back(S); }
  Str nice(const Str &id) { if (starts(id, "obj+") && isdigit(id[4])) { Loc l; l.root = "obj"; l.off = atol(id.c_str() + 4); Str m = memberName(l); if (m.size()) return m; } if (starts(id, "g:")) { Str r = demangled(id.substr(2, id.find('+') - 2)); return r; } auto it = pretty.find(id); return it != pretty.end() ? it->second : "the object's member at " + id; }
  void effects(CallBase *C, const Str &n, const St &S) {
    if (!rep) return; Str h = headOf(n), b = untempl(baseName(h)); bool cst = false; std::vector<Str> ps; unsigned t0 = C->arg_size() && C->paramHasAttr(0, Attribute::StructRet) ? 1 : 0; auto *f = C->getCalledFunction();
    static const std::set<Str> rd = {"printf", "fprintf", "puts", "fputs", "snprintf", "sprintf", "strlen", "strcmp", "strncmp", "memcmp", "memchr", "strchr", "strrchr", "fwrite", "fopen", "remove", "rename", "perror", "atexit", "fflush", "fclose", "ftell", "fseek", "fileno"};
    static const std::set<Str> w0 = {"strncpy", "strcpy", "strcat", "strncat", "sprintf", "snprintf", "vsnprintf", "strftime", "fread", "fgets"};
    bool sig = f && f->getName().starts_with("_Z") && params(n, ps, cst); unsigned na = C->arg_size() - t0; bool method = sig && na == ps.size() + 1; bool exact = sig && (method || na == ps.size());
    for (unsigned i = t0; i < C->arg_size(); i++) { auto *a = C->getArgOperand(i); if (!a->getType()->isPointerTy()) continue; bool w;
      if (!f) w = false; // a callback: it is shown the data
      else if (w0.count(b)) w = i == t0; else if (b == "localtime_r" || b == "gmtime_r") w = i == t0 + 1; else if (rd.count(b)) w = false;
      else if (C->onlyReadsMemory() || C->onlyReadsMemory(i)) w = false;
      else if (exact) { if (method && i == t0) w = !cst; else { const Str &p = ps[i - t0 - (method ? 1 : 0)]; size_t st = p.find_last_of("*&"); w = st != Str::npos && !has(p.substr(0, st), "const"); } }
      else if (sig) { w = false; for (auto &p : ps) { size_t st = p.find_last_of("*&"); if (st != Str::npos && !has(p.substr(0, st), "const")) w = true; } }
      else w = true;
      touch(C, a, -1, w, false, S, (w ? "may change (" : "looks at (") + (b.empty() ? Str("callback") : b) + ")"); } }
  void handles(std::set<Str> &hs) { paths(); if (!files) return; static const std::map<Str, unsigned> io = {{"fclose", 0}, {"fprintf", 0}, {"vfprintf", 0}, {"fputs", 1}, {"fputc", 1}, {"putc", 1}, {"fwrite", 3}, {"fread", 3}, {"fflush", 0}, {"fileno", 0}, {"ftell", 0}, {"fseek", 0}, {"ftello", 0}, {"fseeko", 0}, {"rewind", 0}, {"feof", 0}, {"ferror", 0}, {"setvbuf", 0}, {"freopen", 2}};
    auto cellOf = [&](const Value *P) { auto &s = of(P); return s.size() == 1 && !s.begin()->any && starts(s.begin()->root, "g:") && !F->getParent()->getGlobalVariable(s.begin()->root.substr(2), true)->isDeclaration() ? str(*s.begin()) : Str(); };
    std::function<void(const Value *, int)> from = [&](const Value *V, int d) { if (d > 6) return; if (auto *L = dyn_cast<LoadInst>(V)) { Str c = cellOf(L->getPointerOperand()); if (c.size()) hs.insert(c); } if (auto *P = dyn_cast<PHINode>(V)) for (auto &x : P->incoming_values()) from(x, d + 1); if (auto *Q = dyn_cast<SelectInst>(V)) { from(Q->getTrueValue(), d + 1); from(Q->getFalseValue(), d + 1); } };
    for (auto &I : instructions(*F)) { if (auto *C = dyn_cast<CallBase>(&I)) { auto k = io.find(callee(C)); if (k != io.end() && k->second < C->arg_size()) from(C->getArgOperand(k->second), 0); } if (auto *T = dyn_cast<StoreInst>(&I)) if (auto *C = dyn_cast<CallBase>(T->getValueOperand())) if (callee(C) == "fopen" || callee(C) == "freopen") { Str c = cellOf(T->getPointerOperand()); if (c.size()) hs.insert(c); } } }
  void run() {
    // values worth remembering: what branches depend on
    std::map<const Value *, int> uses; std::function<void(const Value *, int)> dep = [&](const Value *V, int d) { if (d > 8 || !isa<Instruction>(V)) return; if (isa<PHINode>(V)) { auto *P = cast<PHINode>(V); for (auto &x : P->incoming_values()) if (isa<ConstantInt>(x)) { interest.insert(P); break; } return; } if (isa<CallBase>(V)) { bool a, b; if (lockOp(callee(cast<CallBase>(V)), a, b)) interest.insert(V); else uses[V]++; return; } uses[V]++; if (isa<ICmpInst>(V) || isa<CastInst>(V) || isa<BinaryOperator>(V) || isa<SelectInst>(V)) for (auto &o : cast<Instruction>(V)->operands()) dep(o, d + 1); };
    for (auto &B : *F) { if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isConditional()) dep(br->getCondition(), 0); if (auto *sw = dyn_cast<SwitchInst>(B.getTerminator())) dep(sw->getCondition(), 0); }
    for (auto &u : uses) if (u.second > 1 && u.first->getType()->isIntegerTy(1)) interest.insert(u.first);
    std::map<BasicBlock *, std::set<St>> in; std::vector<BasicBlock *> wl; St s0; for (auto &h : hands) { int t = token(nullptr, h); s0.cell[h] = t; s0.tok[t] = TU; } in[&F->getEntryBlock()].insert(s0); wl.push_back(&F->getEntryBlock()); std::map<BasicBlock *, std::set<St>> done;
    auto post = [&](BasicBlock *from, BasicBlock *to, St S) { std::map<const Value *, i64> nk; std::map<const Value *, int> ns; for (auto &P : to->phis()) { auto *v = P.getIncomingValueForBlock(from); i64 r; if (P.getType()->isIntegerTy() && interest.count(&P) && val(v, S, r)) nk[&P] = r; if (P.getType()->isPointerTy()) { auto t = S.ssa.find(v); if (t != S.ssa.end()) ns[&P] = t->second; else if (files && isa<ConstantPointerNull>(v)) { int k = token(&P, "null"); S.tok[k] = TNull; ns[&P] = k; } } S.known.erase(&P); S.ssa.erase(&P); }
      for (auto &x : nk) S.known[x.first] = x.second; for (auto &x : ns) S.ssa[x.first] = x.second;
      // only what is still needed
      for (auto it = S.ssa.begin(); it != S.ssa.end();) { bool live = false; if (auto *D = dyn_cast<Instruction>(it->first)) live = DT.dominates(D->getParent(), to); if (!live) it = S.ssa.erase(it); else ++it; }
      for (auto it = S.known.begin(); it != S.known.end();) { auto *D = dyn_cast<Instruction>(it->first); if (D && !DT.dominates(D->getParent(), to)) it = S.known.erase(it); else ++it; }
      gc(S); auto &t = in[to]; if (t.size() >= 256) { if (bad.insert("cap").second) O.undecided.push_back(name + ": too many path conditions"); return; } if (t.insert(S).second) wl.push_back(to); };
    auto exec = [&](BasicBlock *B, const St &s, bool prop_) { std::vector<St> cur{s}; Instruction *T = B->getTerminator();
      for (auto &I : *B) { if (isa<PHINode>(I) || &I == T) continue; std::vector<St> nx; for (auto &x : cur) step(&I, x, nx); cur = nx; if (auto *C = dyn_cast<CallBase>(&I)) if (C->doesNotReturn()) { bool fatal = !isa<InvokeInst>(C); if (fatal) return; } }
      for (auto x : cur) {
        if (auto *IV = dyn_cast<InvokeInst>(T)) { std::vector<St> nx; step(IV, x, nx); if (prop_) { for (auto &y : nx) post(B, IV->getNormalDest(), y); post(B, IV->getUnwindDest(), x); } continue; }
        if (isa<ReturnInst>(T) || isa<ResumeInst>(T)) { if (rep) O.stats["exits"]++; for (int t : x.orph) if (x.tok[t] == TOpen || x.tok[t] == TU) viol(T, "leaked", "a file handle that was taken out of its global is not closed"); for (auto &l : x.locks) viol(T, "lock", "leaves while still holding " + nice(l.first)); for (auto &c : x.cell) { auto k = x.tok.find(c.second); if (k != x.tok.end() && k->second == TClosed) viol(T, "closed", "a closed file handle is left in " + nice(c.first)); } continue; }
        if (!prop_) continue;
        if (auto *br = dyn_cast<BranchInst>(T)) { if (!br->isConditional()) { post(B, br->getSuccessor(0), x); continue; } i64 r; if (val(br->getCondition(), x, r)) { post(B, br->getSuccessor(r ? 0 : 1), x); continue; } St a = x, c = x; learn(br->getCondition(), 1, a); learn(br->getCondition(), 0, c); post(B, br->getSuccessor(0), a); post(B, br->getSuccessor(1), c); continue; }
        if (auto *sw = dyn_cast<SwitchInst>(T)) { i64 r; if (val(sw->getCondition(), x, r)) { auto *d = sw->getDefaultDest(); for (auto &cs : sw->cases()) if (cs.getCaseValue()->getSExtValue() == r) d = cs.getCaseSuccessor(); post(B, d, x); continue; } for (unsigned i = 0; i < sw->getNumSuccessors(); i++) post(B, sw->getSuccessor(i), x); continue; }
        for (unsigned i = 0; i < T->getNumSuccessors(); i++) post(B, T->getSuccessor(i), x); } };
    while (!wl.empty()) { BasicBlock *B = wl.back(); wl.pop_back(); std::vector<St> todo; for (auto &s : in[B]) if (!done[B].count(s)) todo.push_back(s); for (auto &s : todo) { done[B].insert(s); O.stats["steps"]++; exec(B, s, true); } }
    rep = true; for (auto &b : in) for (auto &s : b.second) exec(b.first, s, false);
    O.analysed.push_back(name); O.stats["entry_points"]++; }
};
bool overlap(const Loc &a, const Loc &b) { if (a.root != b.root) return false; if (a.len < 0 || b.len < 0) return true; return a.off < b.off + b.len && b.off < a.off + a.len; }
}
int runRace(Module &M, Output &O, const std::vector<std::string> &args) {
  devirtualise(M, O);
  Str prop = arg(args, "prop"), set = arg(args, "set"); bool logger = set == "logger"; std::set<Str> entry;
  if (logger) { for (auto &F : M) if (!F.isDeclaration() && !F.getName().starts_with("_GLOBAL__") && !F.getName().starts_with("__cxx_global") && ((F.hasExternalLinkage() && !F.hasLinkOnceODRLinkage()) || (F.hasAddressTaken() && F.hasLocalLinkage()))) { F.setLinkage(GlobalValue::ExternalLinkage); entry.insert(F.getName().str()); } }
  else for (auto &F : M) if (!F.isDeclaration() && F.getName().starts_with("race_")) entry.insert(F.getName().str());
  inlineAll(M, [&](const Str &n, Function &F) { return (!logger && entry.count(F.getName().str())) || queueOp(n) != NotQ || mutexClass(n); });
  runPasses(M, "function(sroa<modify-cfg>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup>,jump-threading,correlated-propagation,simplifycfg<no-switch-to-lookup>,instcombine<no-verify-fixpoint>,adce)");
  if (!arg(args, "dump").empty()) { M.print(errs(), nullptr); }
  std::vector<std::unique_ptr<Fn>> fs; struct Role { Str role, subj; }; std::vector<Role> roles;
  for (auto &e : entry) { auto *F = M.getFunction(e); if (!F || F->isDeclaration()) continue; Str role = "any", subj, nm = headOf(demangled(e)); if (!logger) { size_t p = e.find("__"); role = e.substr(5, p - 5); subj = e.substr(p + 2); if ((p = subj.find("__")) != Str::npos) subj = subj.substr(0, p); if (!set.empty() && subj != set) continue; }
    fs.emplace_back(new Fn(F, O, nm, prop, subj, logger)); roles.push_back({role, subj}); }
  std::set<Str> hs; for (auto &f : fs) f->handles(hs); for (auto &f : fs) { f->hands = hs; f->run(); }
  std::set<Str> said;
  if (!arg(args, "dump").empty()) for (auto &f : fs) for (auto &a : f->acc) { errs() << "ACC " << f->name << " " << f->loc(a.I) << (a.write ? " W " : " R ") << a.at.root << "+" << a.at.off << "#" << a.at.len << " locks:"; for (auto &l : a.locks) errs() << " " << l.first; errs() << "\n"; }
  for (size_t i = 0; i < fs.size(); i++) for (size_t j = i; j < fs.size(); j++) { if (roles[i].subj != roles[j].subj) continue; if (roles[i].role == roles[j].role && roles[i].role != "any") continue; O.stats["entry_pairs"]++;
    for (auto &a : fs[i]->acc) for (auto &b : fs[j]->acc) { if (!a.write && !b.write) continue; if (a.atomic && b.atomic) continue; if (!overlap(a.at, b.at)) continue; O.stats["conflicting_pairs"]++; bool ok = false; for (auto &l : a.locks) { auto it = b.locks.find(l.first); if (it != b.locks.end() && (l.second == 1 || it->second == 1)) ok = true; } if (ok) continue;
      const Access &w = a.write ? a : b; const Access &o = a.write ? b : a; Fn &fw = a.write ? *fs[i] : *fs[j], &fo = a.write ? *fs[j] : *fs[i]; Str key = a.at.root + "|" + fs[i]->name + "|" + fs[j]->name + (a.at.len < 0 ? "" : std::to_string(a.at.off)); if (!said.insert(key).second) continue;
      O.add(prop, "unprotected", fw.name, fw.loc(w.I), w.what + " " + (fw.memberName(a.at).empty() ? Str("data") : fw.memberName(a.at) + ",") + " which "  + fo.name + " " + o.what + " at " + fo.loc(o.I) + " with no common lock" + " [" + a.at.root + (a.at.len < 0 ? "" : "+" + std::to_string(a.at.off)) + "]"); } }
  return 0;
}
