// Small core facilities: embeddable strings (C26), results (C27), mapped memory ownership (C06), capability answers (C29), error texts (C24).
#include "block.hpp"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"

namespace {
struct Str : Client {
  Output &O; std::string fn; i64 cap = 0; long checks = 0; std::map<int, int> sl; std::map<int, i64> st;
  Str(Output &o, std::string f) : O(o), fn(f) { cap = atol(f.c_str() + 4); }
  unsigned maxPartitions() override { return 2000; }
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
  // the way a loop was left is kept apart
  void onBranch(Engine &E, Instruction *T, CondP c, bool t, State &S) override { while (c && c->k == Cond::Not) c = c->a; int part = c && (c->k == Cond::And || c->k == Cond::Or) ? E.truth(S, c->a) + 1 : c && (c->k == Cond::True || c->k == Cond::False) ? 3 : 0; auto *L = LI->getLoopFor(T->getParent()); if (L) { auto *B = cast<BranchInst>(T); auto *to = B->getSuccessor(t ? 0 : 1); if (!L->contains(to)) S.d["exit:" + std::to_string((size_t)L->getHeader())] = (int)(((size_t)T->getParent() >> 4) & 0xffffff) * 4 + 1 + part; } }
  void init(Engine &E, State &S) override { DT.reset(new DominatorTree(*E.F)); LI.reset(new LoopInfo(*DT)); for (auto &A : E.F->args()) { Val v = S.env[&A]; if (v.k == Val::Ptr) { E.objs[v.base].maybeNull = !(A.hasAttribute(Attribute::NonNull) || A.hasAttribute(Attribute::Dereferenceable)); slen(E, S, v.base); int o = E.obj("stddata:" + std::to_string(v.base), "param", false); E.objs[o].name = "stddata"; slen(E, S, o); } } }
  void viol(Engine &E, Instruction *I, State &S, const std::string &rule, const std::string &msg) {
    if (!E.reporting) return; E.report("C26:" + rule, I, msg);
    if (getenv("SA_DEBUG")) { errs() << rule << " " << msg << "\n  " << S.P.str() << "\n"; for (auto &g : S.g) errs() << "  " << g.first << "=" << g.second.str() << "\n"; for (auto &g : S.d) if (g.second) errs() << "  " << g.first << "=" << g.second << "\n"; } }
  Lin G(State &S, const std::string &k) { auto it = S.g.find(k); return it == S.g.end() ? Lin(0) : it->second; }
  bool param(Engine &E, int b) { return E.objs[b].kind == "param" || E.objs[b].kind == "deref" || E.objs[b].kind == "extern"; }
  Lin slen(Engine &E, State &S, int b) { if (!sl.count(b)) sl[b] = E.fresh("strlen"); S.P.addGe(Lin::var(sl[b])); S.g["sl:" + std::to_string(b)] = Lin::var(sl[b]); return Lin::var(sl[b]); }
  static i64 findArr(const DataLayout &DL, Type *T, i64 cap) {
    if (auto *A = dyn_cast<ArrayType>(T)) { if (A->getElementType()->isIntegerTy(8) && (i64)A->getNumElements() == cap) return 0; return -1; }
    if (auto *S = dyn_cast<StructType>(T)) for (unsigned i = 0; i < S->getNumElements(); i++) { i64 r = findArr(DL, S->getElementType(i), cap); if (r >= 0) return r + (i64)DL.getStructLayout(S)->getElementOffset(i); }
    return -1; }
  i64 start(Engine &E, int b) { auto it = st.find(b); if (it != st.end()) return it->second; i64 r = -1; const Obj &o = E.objs[b]; if (o.kind == "alloca") if (auto *A = dyn_cast_or_null<AllocaInst>(o.site)) { r = findArr(*E.DL, A->getAllocatedType(), cap); if (r < 0 && cap == 1 && A->getAllocatedType()->isIntegerTy(8)) r = 0; } return st[b] = r; }
  // ---- ghosts of one storage array: zeros in [zl, zh), non-zero characters in [0, nz)
  struct K { std::string zl, zh, nz, src, so; K(int b) { std::string i = std::to_string(b); zl = "zl:" + i; zh = "zh:" + i; nz = "nz:" + i; src = "src:" + i; so = "so:" + i; } };
  void wipe(State &S, int b) { K k(b); for (auto &x : {k.zl, k.zh, k.nz, k.so}) S.g.erase(x); S.d.erase(k.src); }
  // forget what [o, o+n) held
  void cut(State &S, int b, const Lin &o, const Lin &n) {
    K k(b); if (S.P.entailsEq(n)) return; Lin e = o + n;
    if (!S.P.entailsGe(o - G(S, k.nz))) S.g[k.nz] = S.P.entailsGe(G(S, k.nz) - o) ? o : Lin(0);
    if (S.P.entailsGe(o - G(S, k.zh)) || S.P.entailsGe(G(S, k.zl) - e)) return;
    if (S.P.entailsGe(G(S, k.zl) - o)) S.g[k.zl] = e; else if (S.P.entailsGe(e - G(S, k.zh))) S.g[k.zh] = o; else if (S.P.entailsGe(G(S, k.zh) - e)) S.g[k.zl] = e; else S.g[k.zl] = S.g[k.zh] = Lin(0);
  }
  void zero(State &S, int b, const Lin &o, const Lin &n) {
    K k(b); Lin e = o + n; Lin zl = G(S, k.zl), zh = G(S, k.zh); if (S.P.entailsEq(n)) return;
    if (S.P.entailsGe(o - zl) && S.P.entailsGe(zh - e)) return; // already zero
    bool ext = S.P.entailsGe(zh - zl - Lin(1)); cut(S, b, o, n);
    if (ext && S.P.entailsEq(e - zl)) { S.g[k.zl] = o; S.g[k.zh] = zh; } else if (ext && S.P.entailsEq(o - zh)) { S.g[k.zl] = zl; S.g[k.zh] = e; } else { S.g[k.zl] = o; S.g[k.zh] = e; }
    if (S.P.entailsGe(-o)) S.d.erase(k.src);
  }
  // position inside the array, or false when the access does not concern it
  bool inArr(Engine &E, State &S, const Val &p, Lin &o, i64 &s0) { if (p.k != Val::Ptr || !p.base) return false; s0 = start(E, p.base); if (s0 < 0) return false; o = p.l - Lin(s0); if (auto c = S.P.constOf(o)) o = Lin(*c); return true; }
  void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) override {
    Lin o; i64 s0; if (p.k != Val::Ptr) return;
    if (p.base && param(E, p.base)) { if (w) viol(E, I, S, "source", "writes to the string it was given"); else if (!isa<MemTransferInst>(I) && !isa<LoadInst>(I)) return; return; }
    if (!inArr(E, S, p, o, s0)) return; Lin n = len; if (auto c = S.P.constOf(n)) n = Lin(*c); if (n.isConst() && n.c == 0) return; E.count("storage_accesses");
    if (o.isConst() && n.isConst()) { if (o.c + n.c <= 0 || o.c >= cap) { /* another member */ auto *A = cast<AllocaInst>(E.objs[p.base].site); i64 sz = (i64)E.DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); if (o.c + s0 < 0 || o.c + s0 + n.c > sz) viol(E, I, S, "overflow", "accesses memory outside the string"); else if (o.c >= cap && isa<MemIntrinsic>(I) && w) viol(E, I, S, "overflow", "writes past the string's fixed storage"); return; }
      if (o.c <= 0 && o.c + n.c >= cap) { if (auto *MS = dyn_cast<MemSetInst>(I)) { auto *c = dyn_cast<ConstantInt>(MS->getValue()); cut(S, p.base, Lin(0), Lin(cap)); if (c && c->isZero()) { S.g[K(p.base).zl] = Lin(0); S.g[K(p.base).zh] = Lin(cap); S.g[K(p.base).nz] = Lin(0); S.d.erase(K(p.base).src); } } return; } }
    bool lo = S.P.entailsGe(o), hi = S.P.entailsGe(Lin(cap) - o - n); if (!lo || !hi) { viol(E, I, S, "overflow", std::string(w ? "a write" : "a read") + (hi ? " may lie before" : " may lie past the end of") + " the string's fixed storage"); return; }
    if (w) if (auto *MS = dyn_cast<MemSetInst>(I)) { auto *c = dyn_cast<ConstantInt>(MS->getValue()); if (c && c->isZero()) zero(S, p.base, o, n); else cut(S, p.base, o, n); }
  }
  bool onStore(Engine &E, StoreInst *T, const Val &p, const Val &v, State &S, std::vector<State> &) override {
    Lin o; i64 s0; if (!inArr(E, S, p, o, s0)) return false; i64 n = (i64)E.DL->getTypeStoreSize(T->getValueOperand()->getType()).getFixedValue();
    if (o.isConst() && (o.c >= cap || o.c + n <= 0)) return false;
    bool z = false; if (auto *C = dyn_cast<Constant>(T->getValueOperand())) z = C->isNullValue(); else if (v.k == Val::Num) z = S.P.entailsEq(v.l); else if (v.k == Val::Ptr) z = v.base == 0 && S.P.entailsEq(v.l);
    if (z) { zero(S, p.base, o, Lin(n)); return false; }
    if (o.isConst() && o.c <= 0 && o.c + n >= cap) if (auto *L = dyn_cast<LoadInst>(T->getValueOperand())) if (L->getParent() == T->getParent()) { Val sp = E.eval(S, L->getPointerOperand()); if (sp.k == Val::Ptr && sp.base) { onCopy(E, T, p, sp, Lin(n), S); return false; } } // the whole array moved through a register
    bool nz = n == 1 && v.k == Val::Num && S.P.entailsGe(v.l - Lin(1)); K k(p.base); bool at = S.P.entailsEq(o - G(S, k.nz)); cut(S, p.base, o, Lin(n));
    if (nz && at) { S.g[k.nz] = o + Lin(1); std::string id = std::to_string((size_t)T->getValueOperand()); auto pv = S.g.find("prov:" + id); if (pv != S.g.end() && S.d.count("pb:" + id)) piece(E, T, S, p.base, S.d["pb:" + id], pv->second, Lin(1)); }
    return false; }
  // a piece [so, so+n) of source object b was appended: sources are copied from their beginning, in order
  void piece(Engine &E, Instruction *I, State &S, int dst, int b, const Lin &so, const Lin &n) {
    K k(dst); i64 s0 = start(E, b); Lin r = s0 > 0 ? so - Lin(s0) : so; if (S.d.count(k.src) && S.d[k.src] == b + 1 && S.P.entailsEq(r - G(S, k.so))) { S.g[k.so] = r + n; return; }
    if (!S.P.entailsEq(r) && !S.P.entailsEq(n)) viol(E, I, S, "content", "copies characters that are not the next ones of the source");
    S.d[k.src] = b + 1; S.g[k.so] = r + n; }
  // is [o, o+n) of the source free of terminators; -1 unknown
  bool nonzero(Engine &E, State &S, const Val &s, const Lin &n) { if (S.P.entailsEq(n)) return true; Lin o; i64 s0; if (param(E, s.base)) return S.P.entailsGe(s.l) && S.P.entailsGe(slen(E, S, s.base) - s.l - n); if (inArr(E, S, s, o, s0)) return S.P.entailsGe(o) && S.P.entailsGe(G(S, K(s.base).nz) - o - n); return false; }
  void onCopy(Engine &E, Instruction *I, const Val &d, const Val &s, const Lin &n, State &S) override {
    Lin o, so; i64 s0, t0; if (S.P.entailsEq(n)) return; bool sp = s.base && param(E, s.base);
    if (sp && !(S.P.entailsGe(s.l) && S.P.entailsGe(slen(E, S, s.base) + Lin(1) - s.l - n))) viol(E, I, S, "source", "reads past the end of the string it was given");
    if (d.base == s.base && isa<MemCpyInst>(I) && !S.P.entailsGe(d.l - s.l - n) && !S.P.entailsGe(s.l - d.l - n)) viol(E, I, S, "overlap", "copies between overlapping ranges of the same string");
    if (!inArr(E, S, d, o, s0)) return; bool local = inArr(E, S, s, so, t0);
    auto cn = S.P.constOf(n);
    if (o.isConst() && cn && (o.c >= cap || o.c + *cn <= 0)) return;
    if (local && o.isConst() && cn && so.isConst() && o.c <= 0 && o.c == so.c && o.c + *cn >= cap) { K a(d.base), b(s.base); S.g[a.zl] = G(S, b.zl); S.g[a.zh] = G(S, b.zh); S.g[a.nz] = G(S, b.nz); S.d[a.src] = s.base + 1; S.g[a.so] = G(S, b.nz); return; }
    append(E, I, S, d.base, o, s, n); }
  void append(Engine &E, Instruction *I, State &S, int dst, const Lin &o, const Val &s, const Lin &n) {
    K k(dst); bool nz = nonzero(E, S, s, n), at = S.P.entailsEq(o - G(S, k.nz)), copiesNul = !nz && s.base && param(E, s.base) && S.P.entailsEq(s.l + n - slen(E, S, s.base) - Lin(1)); if (S.P.entailsEq(o)) S.d.erase(k.src); cut(S, dst, o, n);
    if (nz && at) { S.g[k.nz] = o + n; piece(E, I, S, dst, s.base, s.l, n); }
    else if (copiesNul) { if (at) { S.g[k.nz] = o + n - Lin(1); piece(E, I, S, dst, s.base, s.l, n - Lin(1)); } zero(S, dst, o + n - Lin(1), Lin(1)); } }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override {
    if (p.k != Val::Ptr || !L->getType()->isIntegerTy(8) || !p.base) return false; Lin o; i64 s0;
    auto give = [&](State &X, int kind) { int v = E.fresh("ch"); if (kind == 0) X.env[L] = Val::num(Lin(0)); else { if (kind == 1) { X.P.addGe(Lin::var(v) - Lin(1)); X.P.addGe(Lin(255) - Lin::var(v)); X.g["prov:" + std::to_string((size_t)L)] = p.l; X.d["pb:" + std::to_string((size_t)L)] = p.base; } X.env[L] = Val::num(Lin::var(v)); } out.push_back(X); };
    if (E.objs[p.base].kind == "param") { Lin n = slen(E, S, p.base); if (!S.P.entailsGe(p.l) || !S.P.entailsGe(n - p.l)) viol(E, L, S, "source", "reads past the end of the string it was given");
      State A = S; A.P.addGe(n - p.l - Lin(1)); if (!A.P.isBot()) give(A, 1); S.P.addEq(n - p.l); if (!S.P.isBot()) give(S, 0); return true; }
    if (!inArr(E, S, p, o, s0)) return false; if (o.isConst() && (o.c >= cap || o.c < 0)) return false; K k(p.base);
    if (S.P.entailsGe(o) && S.P.entailsGe(G(S, k.nz) - o - Lin(1))) give(S, 1); else if (S.P.entailsGe(o - G(S, k.zl)) && S.P.entailsGe(G(S, k.zh) - o - Lin(1))) give(S, 0);
    else { // up to the characters known, then the terminator
      State A = S; A.P.addGe(G(A, k.nz) - o - Lin(1)); if (!A.P.isBot() && S.P.entailsGe(o)) { give(A, 1); State B = S; B.P.addGe(o - G(B, k.nz)); if (!B.P.isBot()) { if (B.P.entailsGe(o - G(B, k.zl)) && B.P.entailsGe(G(B, k.zh) - o - Lin(1))) give(B, 0); else give(B, 2); } } else give(S, 2); }
    return true; }
  bool lenOf(Engine &E, Instruction *I, State &S, const Val &p, Lin &r) {
    if (p.k != Val::Ptr) return false; if (!p.base) { viol(E, I, S, "source", "measures a null string"); r = Lin(0); return true; } Lin o; i64 s0;
    if (param(E, p.base)) { if (!S.P.entailsGe(p.l) || !S.P.entailsGe(slen(E, S, p.base) - p.l)) viol(E, I, S, "source", "reads past the end of the string it was given"); r = slen(E, S, p.base) - p.l; return true; }
    if (inArr(E, S, p, o, s0)) { K k(p.base); if (S.P.entailsGe(G(S, k.zh) - G(S, k.zl) - Lin(1)) && S.P.entailsGe(G(S, k.nz) - G(S, k.zl)) && S.P.entailsGe(G(S, k.zl) - o) && S.P.entailsGe(o)) { r = G(S, k.zl) - o; return true; } viol(E, I, S, "terminated", "measures a string that may not be terminated"); }
    return false; }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); }; auto N = [&](unsigned i) { Lin l = E.numOf(S, A(i), "n"); if (l.isVar()) S.P.addGe(l); return l; }; std::string h = headOf(n);
    auto nul = [&](const Val &p, std::vector<State> &ok) { if (p.k == Val::Ptr && p.base && E.objs[p.base].maybeNull) { std::vector<State> z; E.assume(S, cNull(p.base), true, z); for (auto &s : z) viol(E, CB, s, "null", "uses a null string"); E.assume(S, cNull(p.base), false, ok); } else ok.push_back(S); };
    if (n == "strlen" || n == "verif_slen" || n == "strnlen" || n == "std::char_traits<char>::length(char const*)") { Val p = A(0); std::vector<State> ok; if (n == "verif_slen") ok.push_back(S); else nul(p, ok); for (auto &X : ok) { Lin r; if (!lenOf(E, CB, X, p, r)) { int v = E.fresh("len"); X.P.addGe(Lin::var(v)); r = Lin::var(v); } if (n != "strnlen") { X.env[CB] = Val::num(r); out.push_back(X); continue; }
        Lin m = E.numOf(X, E.eval(X, CB->getArgOperand(1))); State B = X; B.P.addGe(m - r); if (!B.P.isBot()) { B.env[CB] = Val::num(r); out.push_back(B); } X.P.addGe(r - m - Lin(1)); if (!X.P.isBot()) { X.env[CB] = Val::num(m); out.push_back(X); } } return true; }
    if (n == "strncpy" || n == "strcpy" || n == "strncat" || n == "strcat" || n == "stpcpy") { Val d = A(0), s = A(1); std::vector<State> ok; nul(s, ok); for (auto &X : ok) { Lin L, o, m; i64 s0; if (!lenOf(E, CB, X, s, L) || !inArr(E, X, d, o, s0)) { O.undecided.push_back(fn + ": " + n + " not understood"); out.push_back(X); continue; }
        Val at = d; if (n == "strncat" || n == "strcat") { Lin cur; if (lenOf(E, CB, X, d, cur)) { at.l = at.l + cur; o = o + cur; } }
        auto put = [&](State Y, const Lin &k, const Lin &z) { onAccess(E, CB, at, k + z, true, Y); if (Y.P.entailsEq(k)) {} else append(E, CB, Y, d.base, o, s, k); if (!Y.P.entailsEq(z)) zero(Y, d.base, o + k, z); E.killRange(Y, d.base, at.l, k + z); if (!CB->getType()->isVoidTy()) Y.env[CB] = d; out.push_back(Y); };
        if (n == "strcpy" || n == "strcat" || n == "stpcpy") { put(X, L, Lin(1)); continue; } m = E.numOf(X, E.eval(X, CB->getArgOperand(2)));
        State B = X; B.P.addGe(m - L - Lin(1)); if (!B.P.isBot()) put(B, L, n == "strncat" ? Lin(1) : m - L); X.P.addGe(L - m); if (!X.P.isBot()) put(X, m, Lin(n == "strncat" ? 1 : 0)); } return true; }
    if (n == "snprintf") { Val d = A(0), s = CB->arg_size() > 3 ? A(3) : Val(); Lin m = N(1), L, o; i64 s0; std::string f; if (auto *GV = dyn_cast<GlobalVariable>(CB->getArgOperand(2)->stripPointerCasts())) if (GV->hasInitializer()) if (auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer())) if (CD->isCString()) f = CD->getAsCString().str();
      if (f == "%s" && s.k == Val::Ptr && lenOf(E, CB, S, s, L) && inArr(E, S, d, o, s0)) { auto put = [&](State Y, const Lin &k, bool z) { if (Y.P.isBot()) return; Val at = d; onAccess(E, CB, at, z ? k + Lin(1) : k, true, Y); if (!Y.P.entailsEq(k)) append(E, CB, Y, d.base, o, s, k); if (z) zero(Y, d.base, o + k, Lin(1)); E.killRange(Y, d.base, at.l, k + Lin(1)); Y.env[CB] = Val::num(L); out.push_back(Y); };
        State B = S; B.P.addGe(m - L - Lin(1)); put(B, L, true); State C2 = S; C2.P.addGe(L - m); C2.P.addGe(m - Lin(1)); put(C2, m - Lin(1), true); S.P.addGe(-m); put(S, Lin(0), false); return true; } }
    if (has(h, "basic_string<")) { std::string b = baseName(h); Val self = A(0); if ((b == "c_str" || b == "data") && self.k == Val::Ptr) { int o = E.obj("stddata:" + std::to_string(self.base), "param", false); E.objs[o].name = "stddata"; S.env[CB] = Val::ptr(o, Lin(0)); out.push_back(S); return true; }
      if (b == "size" || b == "length") { int o = E.obj("stddata:" + std::to_string(self.base), "param", false); int v = E.fresh("size"); S.P.addGe(Lin::var(v) - slen(E, S, o)); S.env[CB] = Val::num(Lin::var(v)); out.push_back(S); return true; } if (b == "empty") { S.env[CB] = E.freshOf(CB->getType(), "e", S); out.push_back(S); return true; } }
    if (n == "verif_expect") { E.count("obligations"); Val v = A(0); CondP c = E.condOf(S, v); if (E.truth(S, c) != 1) viol(E, CB, S, "query", "an accessor may disagree with the string's contents"); out.push_back(S); return true; }
    if (n == "verif_str") { if (E.reporting) checks++; Val p = A(0); Lin L = N(1), W = N(3), o; i64 s0; E.count("obligations");
      if (!inArr(E, S, p, o, s0) || !S.P.entailsEq(o)) { viol(E, CB, S, "content", "the text does not start at the beginning of the string's storage"); out.push_back(S); return true; } K k(p.base);
      if (!S.P.entailsGe(L) || !S.P.entailsGe(Lin(cap - 1) - L)) viol(E, CB, S, "length", "the length may leave no room for the terminator");
      else if (!(S.P.entailsGe(L - G(S, k.zl)) && S.P.entailsGe(G(S, k.zh) - L - Lin(1)))) viol(E, CB, S, "terminated", "the character after the last one is not shown to be the terminator");
      else if (!S.P.entailsGe(G(S, k.nz) - L)) viol(E, CB, S, "length", "the length may exceed the number of characters stored");
      if (!S.P.entailsEq(L - W)) viol(E, CB, S, "truncation", "the text may be longer or shorter than the longest prefix that fits");
      out.push_back(S); return true; }
    if (!CB->getCalledFunction() || CB->getCalledFunction()->isDeclaration()) if (!isa<IntrinsicInst>(CB) && n.compare(0, 4, "llvm") && !has(h, "__cxa") && !has(h, "operator delete")) { bool touches = false; for (auto &a : CB->args()) if (a->getType()->isPointerTy()) touches = true; if (touches) O.undecided.push_back(fn + ": call of " + n + " not modelled"); }
    return false; }
};

struct Res : Client {
  Output &O; std::string fn; bool wantThrow; long dones = 0; Res(Output &o, std::string f) : O(o), fn(f) { wantThrow = f.compare(0, 5, "resx_") == 0; }
  unsigned maxPartitions() override { return 500; }
  void init(Engine &E, State &S) override { for (auto &A : E.F->args()) { Val v = S.env[&A]; if (v.k == Val::Ptr && A.hasAttribute(Attribute::NonNull)) E.objs[v.base].maybeNull = false; } }
  bool throws(Engine &, CallBase *CB, const std::string &n, State &, std::vector<std::string> &ts) override {
    if (CB->doesNotThrow() || CB->isInlineAsm() || isa<IntrinsicInst>(CB)) return false; const Function *f = CB->getCalledFunction(); if (!f) { ts.push_back(""); return true; } StringRef m = f->getName();
    if (m == "__cxa_throw") { ts.push_back(CB->getArgOperand(1)->stripPointerCasts()->getName().str()); return true; } if (m == "__cxa_rethrow") { ts.push_back("$cur"); return true; }
    if (m.starts_with("__cxa_") || m.starts_with("verif_") || !m.starts_with("_Z")) return false; if (n.compare(0, 15, "operator delete") == 0 || has(headOf(n), "~")) return false;
    ts.push_back(has(n, "__throw_bad_variant_access") ? "_ZTISt18bad_variant_access" : has(n, "_error::") ? "_ZTISt9bad_alloc" : ""); return true; }
  void onUnwind(Engine &E, Instruction *I, State &S) override { if (!E.reporting) return; E.count("exceptional_exits"); if (!wantThrow) E.report("C27:throws", I, "creating, copying or correctly reading a result may throw"); else if (!S.d["done"]) E.report("C27:throws", I, "creating or copying a result may throw"); }
  void onReturn(Engine &E, ReturnInst *R, const Val *, State &) override { if (E.reporting) { E.count("normal_exits"); if (wantThrow) E.report("C27:wrong-accessor", R, "the wrong accessor does not throw"); } }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    if (n == "verif_done") { if (E.reporting) dones++; S.d["done"] = 1; out.push_back(S); return true; }
    if (n == "verif_never") { E.count("obligations"); E.report("C27:wrong-accessor", CB, "the wrong accessor of a result returns instead of throwing"); return true; }
    if (n == "verif_expect") { E.count("obligations"); CondP c = E.condOf(S, E.eval(S, CB->getArgOperand(0))); if (E.truth(S, c) != 1) { E.report("C27:state", CB, "a result does not report or yield what it was created from"); if (getenv("SA_DEBUG") && E.reporting) { errs() << S.P.str() << "\n"; } } out.push_back(S); return true; }
    if (n == "__clang_call_terminate" || n == "std::terminate" || n == "std::terminate()" || n == "__assert_fail" || n == "abort" || n == "exit") { E.report("C27:wrong-accessor", CB, "ends the program instead of throwing"); return true; }
    if (n == "__cxa_throw" || n == "__cxa_rethrow" || has(n, "__throw_")) return true;
    return false; }
};

struct VM : Blk {
  VM(Output &o, std::string f) : Blk(o, "one", f) {} std::map<const Value *, int> site; bool mapping(const std::string &w) { return has(w, "mapping"); }
  void viol2(Engine &E, Instruction *I, State &S, const std::string &r, const std::string &m, const std::vector<Lin> &l = {}) { viol(E, I, S, "C06:" + r, m, l); }
  int sid(Value *v) { auto it = site.find(v); if (it != site.end()) return it->second; int k = (int)site.size() + 1; return site[v] = k; }
  bool powerOfTwo(const Lin &l) override { return pg.isVar() && l.isVar() && l.t[0].first == pg.t[0].first; }
  Lin pg; bool fdOf(State &S, const Lin &x, std::string &k) { for (auto &p : S.g) if (p.first.compare(0, 3, "fd:") == 0 && S.P.entailsEq(p.second - x)) { k = p.first.substr(3); return true; } return false; }
  void openFd(Engine &E, CallBase *CB, State S, const std::string &what, std::vector<State> &out) {
    E.count("acquisitions"); State N = S; N.env[CB] = Val::num(Lin(-1)); out.push_back(N); std::string k = std::to_string(sid(CB)); int v = E.fresh("fd"); S.P.addGe(Lin::var(v)); if (S.d["lv:f" + k] == 1) S.d["multi:f" + k] = 1; S.d["lv:f" + k] = 1; S.g["fd:" + k] = Lin::var(v); S.g["fs:" + k] = Lin(0); S.env[CB] = Val::num(Lin::var(v)); out.push_back(S); }
  bool special(Engine &E, CallBase *CB, const std::string &n, const std::string &h, State &S, std::vector<State> &out) override {
    auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); }; auto N = [&](unsigned i) { Lin l = E.numOf(S, A(i), "n"); return l; };
    auto ret = [&](State &X, const Val &v) { if (!CB->getType()->isVoidTy()) X.env[CB] = v; out.push_back(X); };
    if (has(h, "cler::platform::get_page_size")) { if (!pg.isVar()) pg = Lin::var(E.fresh("page")); S.P.addGe(pg - Lin(4096)); ret(S, Val::num(pg)); return true; }
    if (n == "syscall") { auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(0)); if (C && C->getZExtValue() == 319) { openFd(E, CB, S, "a memory file", out); return true; } return false; }
    if (n == "memfd_create" || n == "shm_open" || n == "open" || n == "open64" || n == "mkstemp" || n == "dup") { size_t n0 = out.size(); openFd(E, CB, S, "a file descriptor", out); if (n == "shm_open") for (size_t i = n0; i < out.size(); i++) if (auto c = out[i].P.constOf(out[i].env[CB].l); !c || *c >= 0) out[i].d["lv:n" + std::to_string(sid(CB))] = 1; return true; }
    if (n == "shm_unlink") for (auto &p : S.d) if (p.first.compare(0, 4, "lv:n") == 0 && p.second == 1) p.second = 2;
    if (n == "shm_unlink" || n == "unlink") { ret(S, E.freshOf(CB->getType(), "r", S)); return true; }
    if (n == "close") { E.count("releases"); std::string k; Lin x = N(0); if (!fdOf(S, x, k)) viol2(E, CB, S, "close", "closes a descriptor that was not obtained here", {x}); else if (S.d["lv:f" + k] != 1) viol2(E, CB, S, "double-release", "closes a descriptor twice"); else S.d["lv:f" + k] = 2; ret(S, E.freshOf(CB->getType(), "r", S)); return true; }
    if (n == "ftruncate" || n == "ftruncate64") { std::string k; bool f = fdOf(S, N(0), k); if (!f || S.d["lv:f" + k] != 1) viol2(E, CB, S, "closed", "sizes a descriptor that is not open"); State F = S; ret(F, Val::num(Lin(-1))); if (f) S.g["fs:" + k] = N(1); ret(S, Val::num(Lin(0))); return true; }
    if (n == "mmap" || n == "mmap64") { Val at = A(0); Lin len = N(1), fl = N(3), fo = N(5); auto c = S.P.constOf(fl); if (!c) { O.undecided.push_back(fn + ": mapping flags not constant"); return false; } bool fixed = *c & 0x10, anon = *c & 0x20; E.count("mappings"); std::string k;
      if (!anon) { if (!fdOf(S, N(4), k) || S.d["lv:f" + k] != 1) viol2(E, CB, S, "closed", "maps a descriptor that is not open"); else if (!S.P.entailsGe(S.g["fs:" + k] - fo - len)) viol2(E, CB, S, "file-size", "maps more than the file's size", {fo, len}); }
      State F = S; F.env[CB] = Val::ptr(0, Lin(-1)); out.push_back(F); S.P.addGe(len - Lin(1)); if (S.P.isBot()) return true;
      if (fixed) { if (at.k != Val::Ptr || !at.base || S.d["lv:" + std::to_string(at.base)] != 1 || !S.g.count("ext:" + std::to_string(at.base)) || !S.P.entailsGe(at.l) || !S.P.entailsGe(S.g["ext:" + std::to_string(at.base)] - at.l - len)) viol2(E, CB, S, "fixed", "a fixed mapping may replace memory outside the reserved range"); ret(S, at); return true; }
      acquire(E, CB, S, "a mapping", &len, false, out); return true; }
    if (n == "munmap") { E.count("releases"); Val p = A(0); Lin len = N(1); ret(S, E.freshOf(CB->getType(), "r", S)); State &X = out.back(); if (p.k != Val::Ptr || !p.base || E.objs[p.base].kind != "heap") { viol2(E, CB, X, "release", "unmaps memory it did not map"); return true; } std::string k = std::to_string(p.base);
      if (X.d["lv:" + k] != 1) viol2(E, CB, X, "double-release", "unmaps a region twice"); else if (!X.P.entailsEq(p.l) || !X.P.entailsEq(X.g["ext:" + k] - len)) viol2(E, CB, X, "release", "does not unmap exactly the range that was mapped", {p.l, len}); X.d["lv:" + k] = 2; return true; }
    if (n == "verif_vm") { vmCheck(E, CB, S, out); return true; }
    return false; }
  void vmCheck(Engine &E, CallBase *CB, State &S0, std::vector<State> &out) {
    CondP c = E.condOf(S0, E.eval(S0, CB->getArgOperand(0))), m = E.condOf(S0, E.eval(S0, CB->getArgOperand(5))); E.count("obligations"); if (E.reporting) ends++;
    auto arg = [&](State &S, unsigned i) { return E.eval(S, CB->getArgOperand(i)); }; std::vector<State> v, nv; E.assume(S0, c, true, v); E.assume(S0, c, false, nv);
    for (auto &S : v) { out.push_back(S); Val d = arg(S, 1), s = arg(S, 2); Lin n = E.numOf(S, arg(S, 3)), a = E.numOf(S, arg(S, 4));
      if (E.truth(S, m) != 1) viol2(E, CB, S, "answer", "holds a region although it was not created or was moved away");
      if (d.k != Val::Ptr || !d.base || E.objs[d.base].kind != "heap" || S.d["lv:" + std::to_string(d.base)] != 1) { viol2(E, CB, S, "region", "reports a valid region whose memory is not mapped"); continue; }
      if (!S.P.entailsEq(d.l) || !S.P.entailsGe(n - a) || !S.P.entailsGe(n - Lin(1)) && !S.P.entailsEq(a) || !S.P.entailsEq(S.g["ext:" + std::to_string(d.base)] - n * 2)) viol2(E, CB, S, "region", "the region's size does not match what is mapped or asked for", {n});
      if (s.k != Val::Ptr || s.base != d.base || !S.P.entailsEq(s.l - n)) viol2(E, CB, S, "region", "the second mapping is not reported directly after the first"); }
    auto *oc = dyn_cast<ConstantInt>(CB->getArgOperand(6));
    for (auto &S : nv) { out.push_back(S); Val d = arg(S, 1), s = arg(S, 2); Lin n = E.numOf(S, arg(S, 3)); if (E.truth(S, m) != 0) viol2(E, CB, S, "answer", "was created but is not valid");
      if (d.k != Val::Ptr || d.base || s.k != Val::Ptr || s.base || !S.P.entailsEq(n)) viol2(E, CB, S, "region", "an invalid region still reports memory");
      if (oc && oc->isOne()) for (auto &p : S.d) if (p.second == 1 && p.first.compare(0, 3, "lv:") == 0) viol2(E, CB, S, "failed", std::string("a failed creation leaves ") + (p.first[3] == 'f' ? "a descriptor" : p.first[3] == 'n' ? "a shared-memory name" : "a mapping or file") + " behind"); }
  }
  bool throws(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<std::string> &ts) override { return false; }
};

// C29: state kept by a capability query is written once, under the language's initialisation guard
void platRule(Module &M, Function &F, Output &O) {
  DominatorTree DT(F); std::map<std::string, std::vector<Instruction *>> acq, rel, look; std::string fn = F.getName().str();
  auto locOf = [&](Instruction *I) { if (auto &D = I->getDebugLoc()) { auto *L = D.get(); return L->getFilename().str().substr(L->getFilename().str().rfind('/') + 1) + ":" + std::to_string(L->getLine()); } return std::string("?"); };
  auto key = [](StringRef g) { std::string s = g.str(); if (s.compare(0, 4, "_ZGV") == 0) return s.substr(4); if (s.compare(0, 2, "_Z") == 0) return s.substr(2); return s; };
  auto glob = [](Value *v) { return dyn_cast<GlobalVariable>(v->stripInBoundsOffsets()->stripPointerCasts()); };
  for (auto &I : instructions(F)) { if (auto *C = dyn_cast<CallBase>(&I)) { StringRef n = C->getCalledFunction() ? C->getCalledFunction()->getName() : ""; if (n == "__cxa_guard_acquire" || n == "__cxa_guard_release") if (auto *G = glob(C->getArgOperand(0))) (n.ends_with("acquire") ? acq : rel)[key(G->getName())].push_back(&I); }
    if (auto *L = dyn_cast<LoadInst>(&I)) if (L->isAtomic() && isAcquireOrStronger(L->getOrdering())) if (auto *G = glob(L->getPointerOperand())) if (G->getName().starts_with("_ZGV")) look[key(G->getName())].push_back(&I); }
  auto guarded = [&](Instruction *I, const std::string &k) { for (auto *a : acq[k]) if (DT.dominates(a, I)) { for (auto *U : a->users()) if (auto *C = dyn_cast<ICmpInst>(U)) for (auto *B : C->users()) if (auto *Br = dyn_cast<BranchInst>(B)) if (Br->isConditional()) { BasicBlock *t = C->getPredicate() == ICmpInst::ICMP_EQ ? Br->getSuccessor(1) : Br->getSuccessor(0); if (DT.dominates(t, I->getParent())) { for (auto *r : rel[k]) if (DT.dominates(r, I)) return false; return true; } } } return false; };
  std::set<std::string> state;
  for (auto &I : instructions(F)) { Value *p = nullptr; bool w = false, at = false; if (auto *L = dyn_cast<LoadInst>(&I)) { p = L->getPointerOperand(); at = L->isAtomic(); } else if (auto *T = dyn_cast<StoreInst>(&I)) { p = T->getPointerOperand(); w = true; at = T->isAtomic(); } else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { p = R->getPointerOperand(); w = at = true; } else if (auto *R = dyn_cast<AtomicCmpXchgInst>(&I)) { p = R->getPointerOperand(); w = at = true; }
    else if (auto *C = dyn_cast<CallBase>(&I)) { StringRef n = C->getCalledFunction() ? C->getCalledFunction()->getName() : ""; if (n.starts_with("__cxa_") || n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.invariant")) continue; for (auto &a : C->args()) if (a->getType()->isPointerTy()) if (auto *G = glob(a.get())) if (!G->isConstant()) O.add("C29", "shared", fn, locOf(&I), "passes " + demangled(G->getName()) + " to a call without synchronisation"); continue; }
    if (!p) continue; auto *G = glob(p); if (!G || G->isConstant() || G->getName().starts_with("_ZGV")) continue; if (G->isThreadLocal()) { O.add("C29", "per-thread", fn, locOf(&I), "keeps its answer per thread: threads may get different answers"); continue; } std::string k = key(G->getName()); state.insert(k); O.stats["shared_state_accesses"]++;
    if (at && w) { O.add("C29", "unguarded-write", fn, locOf(&I), demangled(G->getName()) + " can be written by several first callers with different answers"); continue; } if (at) continue;
    if (w) { if (!guarded(&I, k)) O.add("C29", "unguarded-write", fn, locOf(&I), demangled(G->getName()) + " is written outside its once-only initialisation"); }
    else { bool ok = guarded(&I, k); for (auto *l : look[k]) if (DT.dominates(l, &I)) ok = true; if (!ok) O.add("C29", "unguarded-read", fn, locOf(&I), demangled(G->getName()) + " is read without first passing its initialisation guard"); } }
  // without kept state the answer must not depend on the outside world
  auto inGuard = [&](Instruction *I) { for (auto &a : acq) if (guarded(I, a.first)) return true; return false; };
  for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() && C->getCalledFunction()->isDeclaration() && !isa<IntrinsicInst>(C) && !inGuard(C)) { StringRef n = C->getCalledFunction()->getName(); if (n == "sysconf" || n == "getpagesize" || n.starts_with("__cxa") || n.starts_with("mem") || n.starts_with("str") || n.starts_with("__clang")) continue; O.add("C29", "recomputed", fn, locOf(&I), "asks the system again on every query (" + demangled(n) + ") instead of keeping one answer"); }
  // a result is what was kept
  O.stats["queries"]++; O.stats["kept_answers"] += (long)state.size(); O.analysed.push_back(fn);
}
}
struct PosRet : Client { Output &O; std::string fn; PosRet(Output &o, std::string f) : O(o), fn(f) {}
  void onReturn(Engine &E, ReturnInst *R, const Val *v, State &S) override { E.count("obligations"); if (!v || v->k != Val::Num || !S.P.entailsGe(v->l - Lin(1))) E.report("C29:positive", R, "the page size reported may not be positive"); }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override { if (p.k == Val::Ptr && p.base && E.objs[p.base].kind == "global" && L->getType()->isIntegerTy(64) && !S.mem.count({p.base, 0})) { int v = E.fresh("kept"); S.P.addGe(Lin::var(v) - Lin(1)); S.env[L] = Val::num(Lin::var(v)); out.push_back(S); return true; } return false; } };

static void errTexts(Module &M, Output &O, const std::vector<std::string> &args) {
  auto strOf = [&](Value *v, std::string &s) { auto *G = dyn_cast<GlobalVariable>(v->stripInBoundsOffsets()->stripPointerCasts()); if (!G || !G->hasInitializer()) return false; if (isa<ConstantAggregateZero>(G->getInitializer())) { s = ""; return true; } auto *C = dyn_cast<ConstantDataSequential>(G->getInitializer()); if (!C || !C->isCString()) return false; s = C->getAsCString().str(); return true; };
  std::map<std::string, std::string> by; 
  for (auto &F : M) { StringRef n = F.getName(); if (F.isDeclaration()) continue; bool t = n.starts_with("txt_"), f = n.starts_with("fat_"); if (!t && !f) continue; std::string name = n.substr(4).str(); if (name == "_any") continue;
    std::set<Value *> rv; for (auto &I : instructions(F)) if (auto *R = dyn_cast<ReturnInst>(&I)) rv.insert(R->getReturnValue()); O.analysed.push_back(n.str()); O.stats["error_codes"] += t; 
    if (rv.size() != 1) { O.undecided.push_back(n.str() + ": result not constant"); continue; }
    if (t) { std::string s; if (!strOf(*rv.begin(), s)) { O.undecided.push_back(n.str() + ": text not constant"); continue; } if (s.empty()) O.add("C24", "text", name, "to_str", "error " + name + " has no text"); else if (by.count(s)) O.add("C24", "text", name, "to_str", "errors " + by[s] + " and " + name + " share the text \"" + s + "\""); else by[s] = name; }
    else { auto *C = dyn_cast<ConstantInt>(*rv.begin()); if (!C) { O.undecided.push_back(n.str() + ": class not constant"); continue; } bool want = name.compare(0, 4, "TERM") == 0; if ((C->isZero() ? false : true) != want) O.add("C24", "class", name, "is_fatal", "error " + name + (want ? " is not treated as fatal" : " is treated as fatal")); } }
}
int runCore(Module &M, Output &O, const std::vector<std::string> &args) {
  std::string only = arg(args, "f"), set = arg(args, "set"); bool trace = arg(args, "trace") == "1";
  inlineAll(M, [&](const std::string &n, Function &F) { std::string h = headOf(n); if (has(h, "basic_string<")) return true; if (set == "vm" && has(h, "cler::platform::get_page_size")) return true; for (const char *p : {"str_", "res_", "resx_", "vm_", "plat_", "txt_", "fat_"}) if (F.hasExternalLinkage() && !F.hasLinkOnceODRLinkage() && F.getName().starts_with(p)) return true; return false; });
  if (set == "err") { runPasses(M, "function(sroa<modify-cfg>,instcombine<no-verify-fixpoint>,sccp,simplifycfg,instsimplify,simplifycfg,adce)"); errTexts(M, O, args); return 0; }
  if (set == "plat") { for (auto &F : M) if (!F.isDeclaration() && F.getName().starts_with("plat_")) { if (getenv("SA_DUMP")) F.print(errs()); platRule(M, F, O); } }
  if (set == "res") runPasses(M, "function(instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa<modify-cfg>,instcombine<no-verify-fixpoint>,gvn,sccp,simplifycfg,instsimplify,adce)");
  else runPasses(M, "function(loop-simplify,lcssa,loop(loop-rotate,loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup>,adce)");
  for (auto &F : M) { std::string n = F.getName().str(); if (F.isDeclaration()) continue; if (!only.empty() && only != n) continue; std::unique_ptr<Client> C; Str *s = nullptr; Res *r = nullptr; VM *v = nullptr;
    if (set == "str" && n.compare(0, 4, "str_") == 0) C.reset(s = new Str(O, n)); else if (set == "res" && n.compare(0, 3, "res") == 0) C.reset(r = new Res(O, n)); else if (set == "vm" && n.compare(0, 3, "vm_") == 0) C.reset(v = new VM(O, n)); else if (set == "plat" && n == "plat_page") C.reset(new PosRet(O, n)); else continue;
    if (getenv("SA_DUMP")) F.print(errs());
    Engine E(&F, C.get()); E.trace = trace; E.exactEH = true; E.run(); if (v) for (auto &x : E.reports) x.rule = "C06" + x.rule.substr(x.rule.find(':')); O.take(E, n); O.analysed.push_back(n); O.stats["functions"]++;
    if (!E.aborted && (s && !s->checks || r && !r->dones || v && !v->ends && n != "vm_probe")) O.broken.push_back(n + ": no check is reached in the analysis"); }
  return 0;
}
