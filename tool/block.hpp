#pragma once
// Block checker (C16-C22): every processing call of a block, from construction to destruction, against the channel contract.
#include "common.hpp"
#include "llvm/IR/InstIterator.h"
#include <regex>
using namespace llvm;

static std::string headOf(const std::string &n) { // demangled name without its parameter list
  int d = 0; for (size_t i = 0; i < n.size(); i++) { char c = n[i]; if (c == '<' && !(i >= 8 && n.compare(i - 8, 8, "operator") == 0)) d++; else if (c == '>' && d > 0) d--; else if (c == '(' && d == 0 && i > 0) { if (n.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; } return n.substr(0, i); } } return n; }
static bool has(const std::string &s, const char *t) { return s.find(t) != std::string::npos; }
static std::string baseName(const std::string &h) { int d = 0; for (size_t i = h.size(); i-- > 0;) { if (h[i] == '>') d++; else if (h[i] == '<') d--; else if (h[i] == ':' && d == 0) return h.substr(i + 1); else if (h[i] == ' ' && d == 0 && h.compare(i > 8 ? i - 8 : 0, 8, "operator") != 0) return h.substr(i + 1); } return h; }

inline bool keepOpaque(const std::string &n) {
  std::string h = headOf(n);
  if (has(h, "std::make_unique<")) return false;
  if (has(h, "std::__detail::") && !has(h, "__variant")) return true;
  for (const char *t : {"dro::SPSCQueue<", "std::__cxx11::basic_string<", "std::__cxx11::to_string", "std::to_string", "cler::EmbeddableString<", "mersenne_twister", "normal_distribution<", "std::random_device", "std::basic_ostream", "std::basic_istream", "std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_filebuf", "std::ostream", "std::istream", "std::operator<<", "std::operator>>", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_ostringstream", "std::__cxx11::basic_istringstream", "std::map<", "std::unordered_map<", "std::_Rb_tree", "std::deque<", "std::function<", "std::list<", "std::__detail::_M", "std::__detail::_H", "std::thread"}) if (has(h, t)) return true;
  if (has(h, "std::operator+<char") || has(h, "std::operator<< <")) return true;
  if (has(h, "std::vector<")) { std::string b = baseName(h); for (const char *t : {"vector", "~vector", "resize", "reserve", "push_back", "emplace_back", "assign", "_M_realloc", "_M_default", "_M_fill", "_M_insert", "_M_range_i", "_M_assign", "_M_erase", "_M_move", "insert", "operator=", "clear", "erase"}) if (b.compare(0, strlen(t), t) == 0) return true; }
  return false;
}
// virtual calls on channels resolve to the dynamic channel's methods
static Function *slotOf(Module &M, const std::string &vt, unsigned k) {
  auto *G = M.getGlobalVariable(vt, true); if (!G || !G->hasInitializer()) return nullptr; auto *CS = dyn_cast<ConstantStruct>(G->getInitializer()); if (!CS) return nullptr; auto *CA = dyn_cast<ConstantArray>(CS->getOperand(0)); if (!CA || k + 2 >= CA->getNumOperands()) return nullptr;
  return dyn_cast<Function>(CA->getOperand(k + 2)->stripPointerCasts());
}
inline void devirtualise(Module &M, Output &O) {
  for (auto &F : M) for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB || CB->getCalledFunction() || CB->isInlineAsm()) continue;
    auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()); if (!L) continue; Value *vt = L->getPointerOperand(); unsigned k = 0;
    if (auto *G = dyn_cast<GetElementPtrInst>(vt)) { APInt off(64, 0); if (!G->accumulateConstantOffset(M.getDataLayout(), off)) continue; k = (unsigned)(off.getZExtValue() / 8); vt = G->getPointerOperand(); }
    std::string ty; for (auto *U : vt->users()) if (auto *C = dyn_cast<CallInst>(U)) if (auto *f = C->getCalledFunction()) if (f->getName().starts_with("llvm.type.test") || f->getName().starts_with("llvm.public.type.test")) if (auto *MV = dyn_cast<MetadataAsValue>(C->getArgOperand(1))) if (auto *MS = dyn_cast<MDString>(MV->getMetadata())) ty = MS->getString().str();
    std::string cb = "_ZTSN4cler11ChannelBaseI"; Function *T = nullptr;
    if (ty.compare(0, cb.size(), cb) == 0 && ty.size() > cb.size() + 2) T = slotOf(M, "_ZTVN4cler7ChannelI" + ty.substr(cb.size(), ty.size() - cb.size() - 2) + "Lm0EEE", k);
    else if (ty.compare(0, 21, "_ZTSN4cler7ChannelI") == 0 || ty.compare(0, 19, "_ZTSN4cler7ChannelI") == 0) T = slotOf(M, "_ZTV" + ty.substr(4), k);
    if (T) { CB->setCalledFunction(T); O.stats["virtual_calls_resolved"]++; } else if (!ty.empty()) O.stats["virtual_calls_unresolved"]++;
  }
}
static i64 sizeOfT(const std::string &t) {
  static const std::map<std::string, i64> m = {{"float", 4}, {"double", 8}, {"std::complex<float>", 8}, {"std::complex<double>", 16}, {"Blob", 32}, {"Pkt", 16}, {"unsigned long", 8}, {"long", 8}, {"int", 4}, {"unsigned int", 4}, {"short", 2}, {"unsigned short", 2}, {"unsigned char", 1}, {"signed char", 1}, {"char", 1}, {"std::complex<short>", 4}, {"bool", 1}};
  auto i = m.find(t); return i == m.end() ? 0 : i->second;
}
struct QI { int base; bool out; i64 sz; int sp[4] = {0, 0, 0, 0}; };
struct Blk : Client {
  Output &O; std::string kind, fn; long ratio = 1, nerr = 0; std::map<std::string, QI> qs; std::map<int, std::pair<std::string, int>> spans; std::map<int, int> watch; std::map<int, std::pair<i64, i64>> watchSz; std::map<std::string, int> tid; std::map<const Value *, bool> unroll; std::vector<std::string> fdn; long ends = 0, opqs = 0;
  std::map<int, std::string> rname; // resource object -> text
  Blk(Output &o, std::string k, std::string f) : O(o), kind(k), fn(f) { if (k[0] == 'c' && isdigit(k[1])) ratio = atol(k.c_str() + 1); }
  bool conserving() { return kind == "one" || kind[0] == 'c'; }
  unsigned maxPartitions() override { return 3000; }
  bool keyEnv(const Value *v) override { return unroll.count(v); }
  void init(Engine &E, State &S) override {
    for (auto &A : E.F->args()) { Val v = S.env[&A]; if (v.k == Val::Num && A.getType()->isIntegerTy(64)) S.P.addGe(v.l); if (v.k == Val::Ptr) E.objs[v.base].maybeNull = false; }
    // the outcome of a processing call is followed exactly
    std::vector<Value *> wl; std::set<Value *> sl; for (auto &I : instructions(*E.F)) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() && C->getCalledFunction()->getName() == "verif_end") wl.push_back(C->getArgOperand(0));
    while (!wl.empty()) { Value *v = wl.back(); wl.pop_back(); auto *I = dyn_cast<Instruction>(v); if (!I || !sl.insert(v).second) continue; if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<ICmpInst>(I)) { unroll[I] = true; for (auto &o : I->operands()) if (!counter(o.get())) wl.push_back(o.get()); } }
    // loop counters that select among a few channels held in a local array are followed value by value
    for (auto &I : instructions(*E.F)) if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { auto *A = dyn_cast<AllocaInst>(getUnderlying(G->getPointerOperand())); if (!A || A->isArrayAllocation() && E.DL->getTypeAllocSize(A->getAllocatedType()) > 16 || !A->getAllocatedType()->isSized() || E.DL->getTypeAllocSize(A->getAllocatedType()) > 512 || !has(typeStr(A->getAllocatedType()), "ptr") && !has(typeStr(A->getAllocatedType()), "pair")) continue;
        for (auto &ix : G->indices()) { Value *v = ix.get(); while (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); if (auto *P = dyn_cast<PHINode>(v)) unroll[P] = true; } }
  }
  static std::string typeStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o); if (auto *ST = dyn_cast<StructType>(T)) for (auto *e : ST->elements()) { o << " "; e->print(o); } return o.str(); }
  static bool counter(Value *v) { // a loop counter: an unbounded run of values, never followed one by one
    auto step = [](Value *x, Value *p) { auto *B = dyn_cast<BinaryOperator>(x); return B && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) && B->getOperand(0) == p && isa<ConstantInt>(B->getOperand(1)); };
    if (!v->getType()->isIntegerTy(64)) return false; if (auto *P = dyn_cast<PHINode>(v)) { for (auto &i : P->incoming_values()) if (step(i, P)) return true; return false; }
    auto *B = dyn_cast<BinaryOperator>(v); return B && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub) && isa<PHINode>(B->getOperand(0)) && step(B, B->getOperand(0)) && counter(B->getOperand(0)); }
  static Value *getUnderlying(Value *v) { while (auto *G = dyn_cast<GetElementPtrInst>(v)) v = G->getPointerOperand(); return v; }
  // ---------------------------------------------------------------- reporting
  bool vague(const std::vector<Lin> &ls, State &S) { for (auto &l : ls) for (auto &t : S.P.norm(l).t) if (VT().imprecise[t.first]) return true; for (auto &l : ls) for (auto &t : l.t) if (VT().imprecise[t.first]) return true; return false; }
  bool sdr() { return fn.find("sdr") != std::string::npos; }
  void viol(Engine &E, Instruction *I, State &S, const std::string &rl, const std::string &ms, const std::vector<Lin> &ls) {
    if (!E.reporting) return;
    std::string rule = rl, msg = ms; if (sdr()) { if (rule.compare(0, 4, "C22:") == 0) rule.replace(0, 3, "C17"); size_t at; while ((at = msg.find("file")) != std::string::npos) msg.replace(at, 4, "device"); }
    if (vague(ls, S)) { O.undecided.push_back(fn + ": " + rule + " at " + E.loc(I) + ": " + msg + " (quantity not tracked)"); return; }
    E.report(rule, I, msg); if (getenv("SA_DEBUG")) { errs() << rule << " " << msg << "\n  " << S.P.str() << "\n"; for (auto &l : ls) errs() << "  need " << S.P.norm(l).str() << "\n"; for (auto &g : S.g) errs() << "  " << g.first << "=" << g.second.str() << "\n"; for (auto &g : S.d) if (g.second) errs() << "  " << g.first << "=" << g.second << "\n"; }
  }
  Lin G(State &S, const std::string &k) { auto it = S.g.find(k); return it == S.g.end() ? Lin(0) : it->second; }
  // ---------------------------------------------------------------- written / read parts of a region
  void touch(State &S, int o, const char *t, const Lin &a, const Lin &len) { if (kind == "udp" && !spans.count(o)) return;
    std::string id = t + std::to_string(o); if (S.d["odd" + id]) return; std::string kl = "lo" + id, kh = "hi" + id; Lin lo = G(S, kl), hi = G(S, kh);
    if (S.P.entailsEq(len)) return;
    if (S.P.entailsEq(a - hi)) { S.g[kh] = hi + len; if (!S.g.count(kl)) S.g[kl] = Lin(0); return; }
    bool in0 = S.P.entailsGe(a - lo), in1 = S.P.entailsGe(hi - a - len); if (in0 && in1) return;
    if (S.P.entailsEq(hi - lo)) { S.g[kl] = a; S.g[kh] = a + len; S.d["based" + id] = 1; return; }
    if (S.P.entailsEq(a + len - lo)) { S.g[kl] = a; return; }
    if (in0 && S.P.entailsGe(hi - a) && S.P.entailsGe(a + len - hi)) { S.g[kh] = a + len; return; }
    S.d["odd" + id] = 1;
  }
  bool covers(State &S, int o, const char *t, const Lin &a, const Lin &b) { std::string id = t + std::to_string(o); if (kind == "udp" && !spans.count(o)) return true; if (S.d.count("unk") && S.d["unk"]) return true; if (S.d["odd" + id]) return true; if (S.P.entailsGe(a - b)) return true; return S.P.entailsGe(a - G(S, "lo" + id)) && S.P.entailsGe(G(S, "hi" + id) - b); }
  bool unknownObj(Engine &E, int o) { const std::string &n = E.objs[o].name; if (E.objs[o].kind != "deref") return false; if (n.compare(0, 5, "init:") == 0) { int b = atoi(n.c_str() + 5); const std::string &k = E.objs[b].kind; return k == "alloca" || k == "heap" || k == "span" || unknownObj(E, b); } return true; }
  void access(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) {
    if (p.k != Val::Ptr) return; if (S.P.entailsEq(len)) return;
    auto sp = spans.find(p.base);
    if (sp != spans.end()) {
      const std::string &q = sp->second.first; int which = sp->second.second; QI &Q = qs[q]; bool rd = which < 2; E.count("window_accesses");
      Lin lo = G(S, q + (rd ? ":cons" : ":prod")) * Q.sz, mid = G(S, q + (rd ? ":rA" : ":wA")) * Q.sz, hi = G(S, q + (rd ? ":rE" : ":wE")) * Q.sz; if (which & 1) { if (!S.P.entailsGe(lo - mid)) lo = mid; } else hi = mid;
      bool okl = S.P.entailsGe(p.l - lo), okh = S.P.entailsGe(hi - p.l - len);
      if (!okl || !okh) viol(E, I, S, "C18,C16:window", std::string(w ? "writes" : "reads") + (okl ? " beyond the channel window it was offered" : " channel storage it no longer holds (already released or published) or outside the window"), {p.l, len});
      else if (w && rd) {} else touch(S, p.base, rd ? "r" : "w", p.l, len);
      return; }
    const Obj &o = E.objs[p.base];
    if (o.kind == "heap" || o.kind == "alloca") {
      auto ext = S.g.find("ext:" + std::to_string(p.base)); if (ext == S.g.end()) return;
      if (o.kind == "heap") { E.count("buffer_accesses"); auto lv = S.d.find("lv:" + std::to_string(p.base)); if (lv != S.d.end() && lv->second == 2) { viol(E, I, S, "C19,C18:use-after-release", "uses memory after releasing it", {}); return; } }
      if (o.kind == "alloca" && p.l.isConst() && len.isConst() && ext->second.isConst()) { if (w) touch(S, p.base, "w", p.l, len); return; }
      if (!(S.P.entailsGe(p.l) && S.P.entailsGe(ext->second - p.l - len))) viol(E, I, S, "C18:bounds", std::string(w ? "write" : "read") + " not shown to stay inside the " + (o.kind == "heap" ? "block's buffer" : "local buffer"), {p.l, len, ext->second});
      else if (w) touch(S, p.base, "w", p.l, len);
      return; }
    if (w && unknownObj(E, p.base)) S.d["unk"] = 1;
  }
  void afterLoad(Engine &E, LoadInst *L, const Val &p, const Val &v, State &S) override { if (v.k == Val::Num && v.l.isVar() && L->getType()->isIntegerTy(64) && unknownObj(E, p.base)) VT().imprecise[v.l.t[0].first] = 1; } // contents of objects whose code is not analysed
  void onAccess(Engine &E, Instruction *I, const Val &p, const Lin &len, bool w, State &S) override { access(E, I, p, len, w, S); }
  // ---------------------------------------------------------------- channels
  std::map<int, int> elemOf; int elemVar(Engine &E, int o) { if (!elemOf.count(o)) elemOf[o] = E.fresh("elem"); return elemOf[o]; }
  void which(Engine &E, State S, const Val &p, i64 sz, std::vector<std::pair<State, std::string>> &out) {
    if (p.k != Val::Ptr || !p.base) { out.push_back({S, ""}); return; }
    Lin off = S.P.norm(p.l); if (auto c = S.P.constOf(off)) off = Lin(*c);
    auto reg = [&](const std::string &k) { if (!qs.count(k)) { QI q; q.base = p.base; q.out = E.objs[p.base].kind == "param"; q.sz = sz; for (int i = 0; i < 4; i++) { q.sp[i] = E.obj("span:" + k + ":" + std::to_string(i), "span", false); } qs[k] = q; for (int i = 0; i < 4; i++) spans[q.sp[i]] = {k, i}; } };
    if (!watch.count(p.base) && E.objs[p.base].kind == "heap") { auto ex = S.g.find("ext:" + std::to_string(p.base)); if (ex != S.g.end() && !S.P.constOf(ex->second)) { i64 g = 0; for (auto &t : ex->second.t) g = gcd64(g, t.second < 0 ? -t.second : t.second);
        if (g >= 32) { i64 c = 0; if (off.isConst()) c = off.c; else for (auto &t : off.t) if (t.second % g) g = 0; if (g) { if (!off.isConst()) c = off.c; watch[p.base] = elemVar(E, p.base); watchSz[p.base] = {g, ((c % g) + g) % g}; } } } }
    if (off.isConst()) { std::string k = "q" + std::to_string(p.base) + "+" + std::to_string(off.c); if (watch.count(p.base)) { /* element of a watched array */ }
      else { reg(k); out.push_back({S, k}); return; } }
    // an array of channels: follow one arbitrary element
    if (!watch.count(p.base)) { i64 g = 0; Lin o2 = S.P.norm(p.l); for (auto &t : o2.t) g = gcd64(g, t.second < 0 ? -t.second : t.second); if (g < 32) { // the offset may be hidden behind another variable
        g = 0; for (auto &t : p.l.t) g = gcd64(g, t.second < 0 ? -t.second : t.second); }
      if (g < 32) { O.undecided.push_back(fn + ": channel array not understood"); out.push_back({S, ""}); return; }
      watch[p.base] = elemVar(E, p.base); watchSz[p.base] = {g, ((o2.c % g) + g) % g}; }
    i64 g = watchSz[p.base].first, c = watchSz[p.base].second; Lin k = Lin::var(watch[p.base]); S.P.addGe(k); auto ext = S.g.find("ext:" + std::to_string(p.base)); if (ext != S.g.end()) S.P.addGe(ext->second - k * g - Lin(g)); S.g["elem:" + std::to_string(p.base)] = k; if (S.P.isBot()) return;
    Lin d = p.l - k * g - Lin(c); std::string key = "q" + std::to_string(p.base) + "+*"; reg(key);
    std::vector<State> a, b; E.assume(S, cEq(d), true, a); for (auto &s : a) out.push_back({s, key}); E.assume(S, cEq(d), false, b); for (auto &s : b) out.push_back({s, "~" + key});
  }
  Lin obs(Engine &E, State &S, const char *n) { int v = E.fresh(n); S.P.addGe(Lin::var(v)); return Lin::var(v); }
  // move up to n items; results: (state, moved)
  void moved(Engine &E, State S, const Lin &n, const Lin &have, std::vector<std::pair<State, Lin>> &out) {
    State A = S; A.P.addGe(have - n); if (!A.P.isBot()) out.push_back({A, n});
    S.P.addGe(n - have - Lin(1)); if (S.P.isBot()) return; int m = E.fresh("moved"); if (vague({n, have}, S)) VT().imprecise[m] = 1; S.P.addGe(Lin::var(m) - have); S.P.addGe(n - Lin::var(m)); S.P.addGe(Lin::var(m)); out.push_back({S, Lin::var(m)});
  }
  bool queueOp(Engine &E, CallBase *CB, const std::string &n, State &S0, std::vector<State> &out) {
    std::string h = headOf(n); size_t at = h.find("dro::SPSCQueue<"); if (at == std::string::npos) return false; std::string b = baseName(h); { auto lt = b.find('<'); if (lt != std::string::npos) b = b.substr(0, lt); }
    size_t s = at + 15, e = s; int d = 0; for (; e < h.size(); e++) { if (h[e] == '<') d++; else if (h[e] == '>') { if (!d) break; d--; } else if (h[e] == ',' && !d) break; } std::string T = h.substr(s, e - s); i64 sz = sizeOfT(T);
    if (!sz) { O.undecided.push_back(fn + ": item size of " + T + " unknown"); return false; }
    E.count("channel_operations"); auto A = [&](State &S, unsigned i) { return E.eval(S, CB->getArgOperand(i)); };
    std::vector<std::pair<State, std::string>> ws; Val self = A(S0, 0); which(E, S0, self, sz, ws);
    for (auto &wp : ws) { State S = wp.first; std::string q = wp.second; bool other = q.empty() || q[0] == '~';
      auto ret = [&](State &X, const Val &v) { if (!CB->getType()->isVoidTy()) X.env[CB] = v; out.push_back(X); };
      std::string cons = q + ":cons", prod = q + ":prod", avE = q + ":avE", spE = q + ":spE", rE = q + ":rE", wE = q + ":wE", rA = q + ":rA", wA = q + ":wA", alive = "lv:" + q;
      auto up = [&](State &X, const std::string &k, const Lin &v, std::vector<State> &o) { std::vector<State> a; State Y = X; if (Y.P.entailsGe(v - G(Y, k))) { Y.g[k] = v; o.push_back(Y); return; } if (Y.P.entailsGe(G(Y, k) - v)) { o.push_back(Y); return; } State Z = X; Z.P.addGe(v - G(Z, k)); if (!Z.P.isBot()) { Z.g[k] = v; o.push_back(Z); } Y.P.addGe(G(Y, k) - v - Lin(1)); if (!Y.P.isBot()) o.push_back(Y); };
      if (b == "SPSCQueue") { if (!other) { if (S.d[alive] == 1) viol(E, CB, S, "C19:reinit", "constructs a channel over one still alive", {}); S.d[alive] = 1; } out.push_back(S); continue; }
      if (b == "~SPSCQueue") { if (!other) { if (S.d[alive] != 1) viol(E, CB, S, "C19:double-release", "destroys an input channel that is not alive (destroyed twice or never built)", {}); S.d[alive] = 2; } out.push_back(S); continue; }
      if (other) { // an element that is not being followed: every operation behaves like one on a private channel
        if (b == "size" || b == "space" || b == "readN" || b == "writeN" || b == "capacity") { Lin r = obs(E, S, "n"); if (b == "readN" || b == "writeN") S.P.addGe(E.numOf(S, A(S, 2)) - r); ret(S, Val::num(r)); }
        else if (b == "read_dbf" || b == "write_dbf") { Val v; v.k = Val::Agg; v.e = {Val::ptr(E.obj("other:" + std::to_string((size_t)CB), "extern", false), Lin(0)), Val::num(obs(E, S, "n"))}; ret(S, v); }
        else if (b == "peek_read" || b == "peek_write") { for (unsigned i = 1; i <= 4 && i < CB->arg_size(); i++) { Val p = A(S, i); if (p.k == Val::Ptr) E.storeCell(S, p.base, p.l, 8, i % 2 ? Val::ptr(E.obj("other:" + std::to_string((size_t)CB) + ":" + std::to_string(i), "extern", false), Lin(0)) : Val::num(obs(E, S, "n"))); } ret(S, Val::num(obs(E, S, "n"))); }
        else if (!CB->getType()->isVoidTy()) ret(S, E.freshOf(CB->getType(), "o", S, "o:" + std::to_string((size_t)CB))); else out.push_back(S);
        continue; }
      QI &Q = qs[q];
      if (q.back() == '*') { int bit = b == "size" || b == "empty" || b == "read_dbf" || b == "peek_read" ? 1 : b == "commit_read" || b == "readN" || b == "try_pop" || b == "pop" ? 2 : b == "space" || b == "write_dbf" || b == "peek_write" ? 4 : b.find("capacity") == 0 || b.find("is_") == 0 ? 0 : 8; S.d["did:" + q] |= bit; }
      if (b == "size" || b == "space") { bool r = b == "size"; Lin v = obs(E, S, r ? "avail" : "space"); std::string k = r ? avE : spE; Lin cur = G(S, r ? cons : prod); S.P.addGe(cur + v - G(S, k)); S.g[k] = cur + v; ret(S, Val::num(v)); continue; }
      if (b == "empty") { Lin v = obs(E, S, "avail"); Lin cur = G(S, cons); S.P.addGe(cur + v - G(S, avE)); S.g[avE] = cur + v; ret(S, Val::boolean(cGe(-v))); continue; }
      if (b == "capacity") { ret(S, Val::num(obs(E, S, "cap"))); continue; }
      if (b == "is_doubly_mapped") { ret(S, E.freshOf(CB->getType(), "mapped", S)); continue; }
      if (b == "read_dbf" || b == "write_dbf") { bool r = b[0] == 'r'; std::string cur = r ? cons : prod, av = r ? avE : spE, end = r ? rE : wE, mid = r ? rA : wA;
        { State Z = S; if (Z.P.entailsGe(G(Z, cur) - G(Z, end))) { Val v; v.k = Val::Agg; v.e = {Val::ptr(0, Lin(0)), Val::num(Lin(0))}; ret(Z, v); } }
        Lin v = obs(E, S, r ? "rwin" : "wwin"); Lin e2 = G(S, cur) + v; S.P.addGe(e2 - G(S, end)); if (S.P.isBot()) continue; S.g[end] = S.g[mid] = e2; std::vector<State> os; up(S, av, e2, os);
        for (auto &X : os) { Val a; a.k = Val::Agg; a.e = {Val::ptr(Q.sp[r ? 0 : 2], G(X, cur) * Q.sz), Val::num(v)}; ret(X, a); } continue; }
      if (b == "peek_read" || b == "peek_write") { bool r = b == "peek_read"; std::string cur = r ? cons : prod, av = r ? avE : spE, end = r ? rE : wE, mid = r ? rA : wA;
        Lin s1 = obs(E, S, "seg1"), s2 = obs(E, S, "seg2"); Lin e2 = G(S, cur) + s1 + s2; S.P.addGe(e2 - G(S, end)); S.P.addGe(e2 - G(S, av)); if (S.P.isBot()) continue; S.g[mid] = G(S, cur) + s1; S.g[end] = S.g[av] = e2;
        Val ps[4] = {Val::ptr(Q.sp[r ? 0 : 2], G(S, cur) * Q.sz), Val::num(s1), Val::ptr(Q.sp[r ? 1 : 3], S.g[mid] * Q.sz), Val::num(s2)};
        for (unsigned i = 0; i < 4; i++) { Val p = A(S, i + 1); if (p.k == Val::Ptr) E.storeCell(S, p.base, p.l, 8, ps[i]); } ret(S, Val::num(s1 + s2)); continue; }
      if (b == "commit_read") { Lin c = E.numOf(S, A(S, 1), "cnt"); E.count("commits"); S.P.addGe(c); if (S.P.isBot()) continue;
        if (!S.P.entailsGe(G(S, avE) - G(S, cons) - c)) viol(E, CB, S, "C16:consume", "may release more input items than were seen available in this call", {c});
        if (conserving()) { Lin a = G(S, cons) * Q.sz, e = (G(S, cons) + c) * Q.sz; if (S.P.entailsGe(G(S, rE) - G(S, cons) - c)) { bool ok = covers(S, Q.sp[0], "r", a, e);
            if (!ok) { State L = S; L.P.addGe(G(S, rA) - G(S, cons) - c); State H = S; H.P.addGe(G(S, cons) + c - G(S, rA) - Lin(1)); ok = (L.P.isBot() || covers(L, Q.sp[0], "r", a, e)) && (H.P.isBot() || (covers(H, Q.sp[0], "r", a, G(H, rA) * Q.sz) && covers(H, Q.sp[1], "r", G(H, rA) * Q.sz, e))); }
            if (!ok) viol(E, CB, S, "C17:lost", "consumes input items it has not read in this call", {c}); }
          else if (!S.d["odd" + std::string("r") + std::to_string(Q.sp[0])]) { if (!S.P.entailsEq(c)) viol(E, CB, S, "C17:lost", "consumes input items it has not read in this call", {c}); } }
        S.g[cons] = G(S, cons) + c; fix(S, cons, {avE, rE, rA}); out.push_back(S); continue; }
      if (b == "commit_write") { Lin c = E.numOf(S, A(S, 1), "cnt"); E.count("commits"); S.P.addGe(c); if (S.P.isBot()) continue;
        if (!S.P.entailsGe(G(S, spE) - G(S, prod) - c)) viol(E, CB, S, "C16:publish", "may publish more items than there was free space in this call", {c});
        else if (!S.P.entailsGe(G(S, wE) - G(S, prod) - c)) viol(E, CB, S, "C16:publish", "publishes storage that was not offered to it in this call", {c});
        else if (kind != "any" && kind != "snk") { Lin a = G(S, prod) * Q.sz, e = (G(S, prod) + c) * Q.sz; bool ok = covers(S, Q.sp[2], "w", a, e);
          if (!ok) { State L = S; L.P.addGe(G(S, wA) - G(S, prod) - c); State H = S; H.P.addGe(G(S, prod) + c - G(S, wA) - Lin(1)); ok = (L.P.isBot() || covers(L, Q.sp[2], "w", a, e)) && (H.P.isBot() || (covers(H, Q.sp[2], "w", a, G(H, wA) * Q.sz) && covers(H, Q.sp[3], "w", G(H, wA) * Q.sz, e))); }
          if (!ok) viol(E, CB, S, conserving() ? "C17,C16:invented" : "C16,C22:invented", "publishes output items it has not written in this call", {c}); }
        S.g[prod] = G(S, prod) + c; fix(S, prod, {spE, wE, wA}); out.push_back(S); continue; }
      if (b == "readN" || b == "writeN") { bool r = b == "readN"; Val p = A(S, 1); Lin c = E.numOf(S, A(S, 2), "cnt"); S.P.addGe(c); if (S.P.isBot()) continue; E.count("bulk_transfers");
        std::vector<std::pair<State, Lin>> ms; moved(E, S, c, G(S, r ? avE : spE) - G(S, r ? cons : prod), ms);
        if (!r && CB->use_empty() && !S.P.entailsGe(G(S, spE) - G(S, prod) - c)) viol(E, CB, S, "C17:short-write", "ignores how many items were accepted by a write that may not fit, so output is silently dropped", {});
        for (auto &m : ms) { State X = m.first; Lin k = m.second; if (!r && kind == "any") deliver(E, CB, X, p, c, k, Q.sz); if (p.k == Val::Ptr) { access(E, CB, p, k * Q.sz, r, X);
            if (!r && conserving() && (E.objs[p.base].kind == "heap" || E.objs[p.base].kind == "alloca") && !covers(X, p.base, "w", p.l, p.l + k * Q.sz)) viol(E, CB, X, "C17,C16:invented", "publishes buffer contents it has not produced in this call", {k, p.l});
            if (r && spans.count(p.base) == 0 && E.objs[p.base].kind == "alloca") E.killRange(X, p.base, p.l, k * Q.sz); }
          std::string cur = r ? cons : prod; X.g[cur] = G(X, cur) + k; if (r) fix(X, cons, {avE, rE, rA}); else fix(X, prod, {spE, wE, wA}); ret(X, Val::num(k)); }
        continue; }
      if (b == "push" || b == "pop" || b == "emplace" || b == "force_push") { bool r = b == "pop"; std::string cur = r ? cons : prod; E.count("single_transfers");
        if (!S.P.entailsGe(G(S, r ? avE : spE) - G(S, cur) - Lin(1))) viol(E, CB, S, "C16:may-block", std::string("calls ") + (r ? "pop" : "push") + " without knowing that " + (r ? "an item is available" : "there is free space") + ", so the call may wait", {G(S, r ? avE : spE)});
        Val p = CB->arg_size() > 1 ? A(S, 1) : Val(); if (p.k == Val::Ptr) access(E, CB, p, Lin(Q.sz), r, S); if (r && p.k == Val::Ptr) popVal(E, S, p, Q.sz); S.g[cur] = G(S, cur) + Lin(1); if (r) fix(S, cons, {avE, rE, rA}); else fix(S, prod, {spE, wE, wA}); out.push_back(S); continue; }
      if (b == "try_push" || b == "try_pop" || b == "try_emplace") { bool r = b == "try_pop"; std::string cur = r ? cons : prod, av = r ? avE : spE; E.count("single_transfers"); Val p = A(S, 1);
        { State F = S; F.P.addEq(G(F, av) - G(F, cur)); if (!F.P.isBot()) ret(F, Val::boolean(cFalse())); }
        if (p.k == Val::Ptr) access(E, CB, p, Lin(Q.sz), r, S); if (r && p.k == Val::Ptr) popVal(E, S, p, Q.sz); S.g[cur] = G(S, cur) + Lin(1); if (r) fix(S, cons, {avE, rE, rA}); else fix(S, prod, {spE, wE, wA}); ret(S, Val::boolean(cTrue())); continue; }
      O.undecided.push_back(fn + ": channel operation " + b + " not modelled"); if (!CB->getType()->isVoidTy()) ret(S, E.freshOf(CB->getType(), "o", S)); else out.push_back(S);
    }
    return true;
  }
  // output computed into a buffer of the block and not yet delivered: [lo, hi) of the buffer, followed across calls
  void computed(Engine &E, CallBase *CB, State &S, const Val &y, const Lin &len) {
    if (y.k != Val::Ptr || !y.base || E.objs[y.base].kind != "heap") return; std::string id = std::to_string(y.base); E.count("computed_outputs");
    if (!S.P.entailsEq(G(S, "uh:" + id) - G(S, "ul:" + id))) { State N = S; N.P.addGe(G(S, "uh:" + id) - G(S, "ul:" + id) - Lin(1)); if (!N.P.isBot()) viol(E, CB, S, "C17:undelivered", "overwrites output that was computed earlier and not delivered yet", {}); }
    S.g["ul:" + id] = y.l; S.g["uh:" + id] = y.l + len;
  }
  void deliver(Engine &E, CallBase *CB, State &S, const Val &p, const Lin &c, const Lin &k, i64 sz) {
    if (p.k != Val::Ptr || !S.g.count("uh:" + std::to_string(p.base))) return; std::string id = std::to_string(p.base); E.count("deliveries"); if (S.P.entailsEq(c)) return;
    if (!S.P.entailsEq(p.l - S.g["ul:" + id])) viol(E, CB, S, "C17:undelivered", "the items written do not start with the oldest output not yet delivered", {});
    else if (!S.P.entailsGe(S.g["uh:" + id] - p.l - c * sz)) viol(E, CB, S, "C17:undelivered", "writes more items than were computed", {});
    S.g["ul:" + id] = p.l + k * sz;
  }
  void fix(State &S, const std::string &cur, std::initializer_list<std::string> ks) { for (auto &k : ks) if (S.g.count(k) && !S.P.entailsGe(S.g[k] - S.g[cur])) { if (S.P.entailsGe(S.g[cur] - S.g[k])) S.g[k] = S.g[cur]; } else if (!S.g.count(k)) { if (!S.P.entailsEq(S.g[cur])) S.g[k] = S.g[cur]; } }
  void popVal(Engine &E, State &S, const Val &p, i64 sz) { E.killRange(S, p.base, p.l, Lin(sz)); if (sz == 8) { Lin v = obs(E, S, "item"); E.storeCell(S, p.base, p.l, 8, Val::num(v)); } }
  // ---------------------------------------------------------------- resources
  void acquire(Engine &E, CallBase *CB, State &S, const std::string &what, const Lin *ext, bool canFail, std::vector<State> &out, bool ptr = true) {
    E.count("acquisitions"); int o = E.obj("res:" + std::to_string((size_t)CB), "heap", false, CB); rname[o] = what; std::string k = "lv:" + std::to_string(o);
    if (canFail) { State N = S; N.env[CB] = Val::ptr(0, Lin(0)); out.push_back(N); }
    if (S.d[k] == 1) S.d["multi:" + std::to_string(o)] = 1;
    S.d[k] = 1; for (auto it = S.mem.lower_bound({o, INT64_MIN}); it != S.mem.end() && it->first.first == o;) it = S.mem.erase(it);
    S.d.erase("oddw" + std::to_string(o)); S.g.erase("low" + std::to_string(o)); S.g.erase("hiw" + std::to_string(o));
    if (ext) { Lin L = S.P.norm(*ext); i64 g = 0; for (auto &t : L.t) g = gcd64(g, t.second < 0 ? -t.second : t.second);
      if (g >= 64 && !S.P.constOf(L)) { if (!elemOf.count(o)) elemOf[o] = E.fresh("elem"); std::string ek = "elem:" + std::to_string(o); if (S.g.count(ek)) { if (E.reporting) O.undecided.push_back(fn + ": an array of channels is allocated again"); } else { Lin e = Lin::var(elemOf[o]); S.g[ek] = e; S.P.addGe(e); S.P.addGe(L - e * g - Lin(g)); } } }
    if (ext) S.g["ext:" + std::to_string(o)] = *ext; if (S.P.isBot()) return; S.env[CB] = Val::ptr(o, Lin(0)); out.push_back(S);
  }
  void release(Engine &E, CallBase *CB, State &S, const Val &p, const std::string &what) {
    if (p.k != Val::Ptr || !p.base) return; E.count("releases"); const Obj &o = E.objs[p.base]; std::string k = "lv:" + std::to_string(p.base);
    if (o.name.compare(0, 7, "uninit:") == 0) { viol(E, CB, S, "C19:release", "releases a pointer that was never set", {}); return; }
    if (o.kind != "heap") { if (o.kind == "alloca" || o.kind == "span" || o.kind == "global") viol(E, CB, S, "C19:release", "releases memory that was not acquired with " + what, {}); return; }
    if (!S.d.count(k)) return;
    if (S.d["multi:" + std::to_string(p.base)]) return;
    if (S.d[k] == 2) viol(E, CB, S, "C19:double-release", "releases " + rname[p.base] + " a second time", {});
    else if (!S.P.entailsEq(p.l)) viol(E, CB, S, "C19:release", "releases an address inside " + rname[p.base], {p.l});
    S.d[k] = 2;
  }
  void leaks(Engine &E, Instruction *I, State &S, bool unw) {
    if (!E.reporting) return; E.count(unw ? "failure_exits" : "normal_exits");
    for (auto &p : S.d) if (p.second == 1 && p.first.compare(0, 3, "lv:") == 0) { std::string id = p.first.substr(3), what;
        if (id[0] == 'q') what = "an input channel"; else if (id[0] == 's') what = "a socket"; else if (id[0] == 'f') what = "a file descriptor"; else if (id[0] == 'n') what = "a shared-memory name"; else { int o = atoi(id.c_str()); if (S.d.count("multi:" + id) && S.d["multi:" + id]) continue; what = rname[o]; if (E.objs[o].site) I = const_cast<Instruction *>(cast<Instruction>(E.objs[o].site)); }
        viol(E, I, S, "C19:leak", what + (unw ? " is not released when construction or processing ends with an exception" : " is not released when the block is destroyed"), {}); }
  }
  void onUnwind(Engine &E, Instruction *I, State &S) override { leaks(E, I, S, true); }
  void onReturn(Engine &E, ReturnInst *R, const Val *, State &S) override { leaks(E, R, S, false); }
  // exceptions a call may throw; false: none, empty name: anything
  bool throws(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<std::string> &ts) override {
    if (CB->doesNotThrow() || CB->isInlineAsm() || isa<IntrinsicInst>(CB)) return false; const Function *f = CB->getCalledFunction(); if (!f) { ts.push_back(""); return true; }
    StringRef m = f->getName(); if (m == "__cxa_throw") { Value *t = CB->getArgOperand(1)->stripPointerCasts(); ts.push_back(t->getName().str()); return true; } if (m == "__cxa_rethrow") { ts.push_back("$cur"); return true; }
    if (m.starts_with("__cxa_") || m.starts_with("verif_") || !m.starts_with("_Z")) return false;
    if (n.compare(0, 12, "operator new") == 0) { if (has(n, "nothrow")) return false; ts.push_back("_ZTISt9bad_alloc"); return true; } if (n.compare(0, 15, "operator delete") == 0) return false;
    std::string h = headOf(n); if (has(h, "__throw_")) { std::string b = baseName(h); ts.push_back(b == "__throw_bad_alloc" ? "_ZTISt9bad_alloc" : b == "__throw_bad_array_new_length" ? "_ZTISt20bad_array_new_length" : b == "__throw_length_error" ? "_ZTISt12length_error" : b == "__throw_out_of_range" || b == "__throw_out_of_range_fmt" ? "_ZTISt12out_of_range" : b == "__throw_logic_error" ? "_ZTISt11logic_error" : ""); return true; }
    if (has(h, "random_device")) { ts.push_back("_ZTISt13runtime_error"); ts.push_back("_ZTISt9bad_alloc"); return true; }
    if (has(h, "basic_string<") || has(h, "to_string") || has(h, "std::operator+") || has(h, "std::vector<")) { if (has(baseName(h), "~")) return false; ts.push_back("_ZTISt9bad_alloc"); if (has(h, "std::vector<")) ts.push_back("_ZTISt12length_error"); return true; }
    if (has(h, "std::runtime_error::") || has(h, "std::invalid_argument::") || has(h, "std::logic_error::") || has(h, "std::out_of_range")) { if (has(h, "~")) return false; ts.push_back("_ZTISt9bad_alloc"); return true; }
    if (has(h, "dro::SPSCQueue<")) { std::string b = baseName(h); if (b != "SPSCQueue") return false; ts.push_back("_ZTISt9bad_alloc"); ts.push_back("_ZTISt11logic_error"); return true; }
    if (has(h, "normal_distribution") || has(h, "mersenne_twister") || has(h, "EmbeddableString")) return false;
    if (has(h, "ofstream") || has(h, "ifstream") || has(h, "ostream") || has(h, "istream") || has(h, "operator<<")) return false; // stream exceptions are off unless enabled
    ts.push_back(""); return true;
  }
  // ---------------------------------------------------------------- library contracts
  void region(Engine &E, CallBase *CB, State &S, const Val &p, const Lin &len, bool w) { if (p.k == Val::Ptr && p.base) { access(E, CB, p, len, w, S); if (w && E.objs[p.base].kind == "alloca") { E.killRange(S, p.base, p.l, len); if (p.l.isConst() && len.isConst() && len.c > 0) S.mem[{p.base, p.l.c}] = {Val(), (unsigned)len.c}; } } }
  virtual bool special(Engine &E, CallBase *CB, const std::string &n, const std::string &h, State &S, std::vector<State> &out) { return false; }
  // a radio stream fills between none and all of the room it is given
  bool stream(Engine &E, CallBase *CB, State &S, std::vector<State> &out) {
    Val bs = E.eval(S, CB->getArgOperand(2)); Lin N = E.numOf(S, E.eval(S, CB->getArgOperand(3)), "n"); if (N.isVar()) S.P.addGe(N); i64 sz = fn.back() == 'c' ? 8 : 4;
    Val p; if (bs.k == Val::Ptr && bs.base) p = E.loadCell(S, bs.base, bs.l, PointerType::get(CB->getContext(), 0), CB); E.count("stream_calls");
    for (unsigned i = 4; i < 6 && i < CB->arg_size(); i++) { Val f = E.eval(S, CB->getArgOperand(i)); if (f.k == Val::Ptr && f.base) E.killRange(S, f.base, f.l, Lin(i == 4 ? 4 : 8)); }
    auto go = [&](State X, const Lin &r, const Lin &took) { if (X.P.isBot()) return; region(E, CB, X, p, N * sz, true); X.g["c:got"] = G(X, "c:got") + took * sz;
      if (!X.P.entailsEq(took)) { if (p.k == Val::Ptr && spans.count(p.base) && !X.P.entailsEq(p.l - G(X, "c:rdoff"))) viol(E, CB, X, "C17:order", "receives items into the output out of order or over earlier ones", {p.l}); X.g["c:rdoff"] = G(X, "c:rdoff") + took * sz; } X.env[CB] = Val::num(r); out.push_back(X); };
    int v = E.fresh("received"); State B = S; B.P.addGe(Lin::var(v) - Lin(1)); B.P.addGe(N - Lin::var(v)); go(B, Lin::var(v), Lin::var(v)); int e = E.fresh("code"); S.P.addGe(-Lin::var(e)); S.P.addGe(Lin::var(e) + Lin(100)); go(S, Lin::var(e), Lin(0)); return true; }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    if (n.compare(0, 29, "SoapySDR::Device::readStream(") == 0) return stream(E, CB, S, out);
    auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); }; auto N = [&](unsigned i) { Lin l = E.numOf(S, A(i), "n"); if (l.isVar()) S.P.addGe(l); return l; };
    auto ret = [&](const Val &v) { if (!CB->getType()->isVoidTy()) S.env[CB] = v; out.push_back(S); return true; };
    auto fresh = [&]() { return E.freshOf(CB->getType(), "r", S, "call:" + std::to_string((size_t)CB)); };
    if (queueOp(E, CB, n, S, out)) return true;
    std::string h = headOf(n); if (special(E, CB, n, h, S, out)) return true;
    if (n == "verif_begin") { for (auto it = S.g.begin(); it != S.g.end();) { const std::string &k = it->first; if (k[0] == 'q' || k.compare(0, 2, "lo") == 0 || k.compare(0, 2, "hi") == 0 || k.compare(0, 2, "c:") == 0) it = S.g.erase(it); else ++it; }
      for (auto it = S.d.begin(); it != S.d.end();) { const std::string &k = it->first; if (k.compare(0, 3, "odd") == 0 || k.compare(0, 5, "based") == 0 || k.compare(0, 4, "did:") == 0 || k == "unk" || k.compare(0, 2, "c:") == 0) it = S.d.erase(it); else ++it; } out.push_back(S); return true; }
    if (n == "verif_end") { callEnd(E, CB, S, N(0)); out.push_back(S); return true; }
    if (n.compare(0, 12, "operator new") == 0) { if (has(n, "void*")) return ret(A(1)); Lin len = N(0); acquire(E, CB, S, "memory obtained from new", &len, has(n, "nothrow"), out); return true; }
    if (n.compare(0, 15, "operator delete") == 0 || n == "free") { Val p = A(0); release(E, CB, S, p, "new"); out.push_back(S); return true; }
    if (n == "malloc" || n == "aligned_alloc") { Lin len = N(n == "malloc" ? 0 : 1); acquire(E, CB, S, "memory obtained from malloc", &len, true, out); return true; }
    if (n == "calloc") { Lin len = E.mul(S, N(0), N(1)); acquire(E, CB, S, "memory obtained from calloc", &len, true, out); return true; }
    if (n == "fopen" || n == "fopen64" || n == "opendir" || n == "popen") { acquire(E, CB, S, "an open file", nullptr, true, out); return true; }
    if (n == "fclose" || n == "closedir" || n == "pclose") { release(E, CB, S, A(0), "fopen"); return ret(fresh()); }
    if (CB->getType()->isPointerTy() && n[0] != '_' && std::regex_search(n, std::regex("^[a-z0-9_]+_create(_[a-z0-9_]+)?$"))) { std::vector<Val> as; acquire(E, CB, S, "a library object (" + n + ")", nullptr, true, out);
      if (n.compare(0, 8, "firpfbch") == 0) for (auto &X : out) { Val v = X.env[CB]; if (v.base) X.g["np:" + std::to_string(v.base)] = E.numOf(X, E.eval(X, CB->getArgOperand(n.find("kaiser") != std::string::npos ? 1 : 1))); } if (n.compare(0, 9, "msresamp_") == 0) for (auto &X : out) { Lin r = E.numOf(X, E.eval(X, CB->getArgOperand(0))); if (r.isVar()) X.g["rs:r"] = r; } return true; }
    if (n[0] != '_' && std::regex_search(n, std::regex("^[a-z0-9_]+_destroy$"))) { release(E, CB, S, A(0), "a create function"); return ret(CB->getType()->isVoidTy() ? Val() : fresh()); }
    if (CB->getCalledFunction() && has(h, "std::vector<")) return vec(E, CB, h, S, out);
    // library reads and writes
    std::smatch m; static const std::regex fir("^firfilt_([rc])([rc])([rc])f_execute_block$"), ms("^msresamp_([rc])([rc])([rc])f_execute$"), fp("^firpfbch_crcf_analyzer_execute$");
    auto esz = [](const std::string &c) { return (i64)(c == "c" ? 8 : 4); };
    if (std::regex_match(n, m, fir)) { Lin k = N(2); region(E, CB, S, A(1), k * esz(m[1]), false); region(E, CB, S, A(3), k * esz(m[1] == "c" || m[2] == "c" ? "c" : "r"), true); return ret(fresh()); }
    if (n == "freqdem_demodulate_block") { Lin k = N(2); region(E, CB, S, A(1), k * 8, false); region(E, CB, S, A(3), k * 4, true); return ret(fresh()); }
    if (n == "firpfbch_crcf_analyzer_execute") { Val q = A(0); if (q.k == Val::Ptr && S.g.count("np:" + std::to_string(q.base))) { Lin k = S.g["np:" + std::to_string(q.base)] * 8; region(E, CB, S, A(1), k, false); region(E, CB, S, A(2), k, true); return ret(fresh()); } }
    if (std::regex_match(n, m, ms)) return resample(E, CB, esz(m[1]), S, out);
    if (n == "fwrite" || n == "fread" || n == "fwrite_unlocked") { bool w = n == "fread"; Lin len = E.mul(S, N(1), N(2)); Val p = A(0); int r = E.fresh("items"); S.P.addGe(Lin::var(r)); S.P.addGe(N(2) - Lin::var(r)); region(E, CB, S, p, w ? E.mul(S, N(1), Lin::var(r)) : len, w); if (!w) fileWrite(E, CB, S, p, E.mul(S, N(1), Lin::var(r)), len, A(3)); return ret(Val::num(Lin::var(r))); }
    if (has(h, "basic_ifstream<")) { std::string b = baseName(h); Val f = A(0); std::string id = f.k == Val::Ptr && f.l.isConst() ? "closed:" + std::to_string(f.base) + "+" + std::to_string(f.l.c) : ""; 
      if (!id.empty()) { if (b == "is_open") { if (S.d[id] == 1) return ret(Val::boolean(cFalse())); if (S.d[id] == 2) return ret(Val::boolean(cTrue())); State C2 = S; C2.d[id] = 1; C2.env[CB] = Val::boolean(cFalse()); out.push_back(C2); S.d[id] = 2; return ret(Val::boolean(cTrue())); } else if (b == "close") { S.d[id] = 1; } else if (b == "open" || b == "basic_ifstream") S.d[id] = 0; } }
    if (fn.compare(0, 6, "rdfile") == 0 && !CB->getCalledFunction() && !CB->isInlineAsm()) { E.count("eof_callbacks"); if (S.d["eof"]) viol(E, CB, S, "C22:eof-twice", "signals the end of the file again", {}); S.d["eof"] = 1; }
    if (n == "ezgmsk_demod_execute") { region(E, CB, S, A(1), N(2) * 8, false); return ret(fresh()); }
    if (n == "ezgmsk_mod_execute") { region(E, CB, S, A(1), N(2) * 8, true); return ret(fresh()); }
    if (h == "std::istream::read" || has(h, "basic_istream<") && baseName(h) == "read") { Val p = A(1); Lin len = N(2); int c = E.fresh("gcount"); S.P.addGe(Lin::var(c)); S.P.addGe(len - Lin::var(c)); S.g["gcount"] = Lin::var(c); S.g["c:got"] = G(S, "c:got") + Lin::var(c); E.count("file_reads"); { Val f = A(0); if (f.k == Val::Ptr && f.l.isConst() && S.d["closed:" + std::to_string(f.base) + "+" + std::to_string(f.l.c)] == 1) viol(E, CB, S, "C22:closed", "reads from a file it has closed", {}); if (S.d["eof"]) viol(E, CB, S, "C22:after-eof", "reads on after it signalled the end of the file", {}); } region(E, CB, S, p, Lin::var(c), true); S.g["c:rdoff"] = p.k == Val::Ptr ? p.l : Lin(0); return ret(fresh()); }
    if (baseName(h) == "gcount") { if (S.g.count("gcount")) return ret(Val::num(S.g["gcount"])); return ret(fresh()); }
    if (h == "__cxa_throw" || h == "__cxa_rethrow" || has(h, "__throw_")) return true; // does not return
    // anything else may fill what it is given
    if (!CB->onlyReadsMemory()) for (unsigned i = 0; i < CB->arg_size(); i++) { if (CB->onlyReadsMemory(i)) continue; Val p = E.eval(S, CB->getArgOperand(i)); if (p.k == Val::Ptr) { S.d["oddw" + std::to_string(p.base)] = 1; S.d["oddr" + std::to_string(p.base)] = 1; } }
    return false;
  }
  void fileWrite(Engine &E, CallBase *CB, State &S, const Val &p, const Lin &bytes, const Lin &asked, const Val &f) {
    E.count("file_writes"); S.d["c:fw"] = 1; if (f.k == Val::Ptr && f.base == 0) viol(E, CB, S, "C22:no-file", "writes although the file is not open", {});
    if (p.k == Val::Ptr && spans.count(p.base) && !S.P.entailsEq(p.l - G(S, "c:wr"))) viol(E, CB, S, "C22:order", "writes input items to the file out of order, twice or leaving some out", {p.l});
    // c:rq is the end of what was offered so far (a retry offers the rest again)
    Lin was = G(S, "c:rq"), end = G(S, "c:wr") + asked; if (!S.P.entailsGe(end - was)) { if (S.P.entailsGe(was - end)) end = was; else { int v = E.fresh("offered"); S.P.addGe(Lin::var(v) - was); S.P.addGe(Lin::var(v) - end); end = Lin::var(v); } }
    S.g["c:wr"] = G(S, "c:wr") + bytes; S.g["c:rq"] = end;
  }
  void fileEnd(Engine &E, CallBase *CB, State &S, bool ok) {
    if (S.d.count("c:fw") && S.d["c:fw"]) { for (auto &p : qs) if (!p.second.out) { E.count("file_obligations"); Lin c = G(S, p.first + ":cons") * p.second.sz; if (!S.P.entailsEq(c - G(S, "c:wr"))) viol(E, CB, S, "C22:handed", "may consume a different number of items than the file accepted", {c}); }
      if (ok && !S.P.entailsEq(G(S, "c:rq") - G(S, "c:wr"))) viol(E, CB, S, "C22:short-write", "reports success although the file did not accept everything it was given", {}); }
    else if (fn.compare(0, 5, "file_") == 0) for (auto &p : qs) if (!p.second.out && !S.P.entailsEq(G(S, p.first + ":cons"))) viol(E, CB, S, "C22:handed", "consumes items it did not hand to the file", {});
    if (S.g.count("c:got")) for (auto &p : qs) if (p.second.out) { E.count("file_obligations"); Lin o = G(S, p.first + ":prod") * p.second.sz; if (!S.P.entailsGe(G(S, "c:got") - o)) viol(E, CB, S, "C22:invented", "publishes more data than was read from the file", {o}); else if (!S.P.entailsGe(o + Lin(p.second.sz - 1) - G(S, "c:got"))) viol(E, CB, S, "C22:dropped", "discards whole items it read from the file", {}); }
  }
  // products with the conversion rate: kept by what is multiplied
  bool product(Engine &E, State &S, const Lin &a, const Lin &b, Lin &r) override {
    auto it = S.g.find("rs:r"); if (it == S.g.end()) return false; Lin R = it->second, x; if (S.P.entailsEq(b - R)) x = a; else if (S.P.entailsEq(a - R)) x = b; else return false;
    if (x.isConst()) { if (x.c < 0) return false; S.g["rs:x"] = x; S.g["rs:p"] = r = R * x.c; S.d["rs"] = 1; return true; }
    i64 c = x.c; x = x - Lin(c); if (!S.P.entailsGe(x)) return false; if (S.g.count("rs:p")) { if (!S.P.entailsEq(x - S.g["rs:x"])) return false; } else { int p = E.fresh("rated", true); S.P.addGe(Lin::var(p)); S.g["rs:p"] = Lin::var(p); S.g["rs:x"] = x; S.d["rs"] = 2; }
    r = S.g["rs:p"] + R * c; return true; }
  // a rational-rate conversion: the number of outputs is at most ceil(1 + 2 * rate * inputs)
  bool resample(Engine &E, CallBase *CB, i64 sz, State &S, std::vector<State> &out) {
    Lin k = E.numOf(S, E.eval(S, CB->getArgOperand(2))); Val x = E.eval(S, CB->getArgOperand(1)), y = E.eval(S, CB->getArgOperand(3)), ny = E.eval(S, CB->getArgOperand(4)); S.P.addGe(k); region(E, CB, S, x, k * sz, false);
    int v = E.fresh("resampled"); S.P.addGe(Lin::var(v)); bool known = S.g.count("rs:r") && S.g.count("rs:p"); int ls = 0; if (known) { int most = S.g["rs:x"].isConst() ? 9 : 1; while (ls < most && S.P.entailsGe(S.g["rs:x"] - Lin(ls) - k)) ls++; known = ls > 0; ls--; }
    if (known) { int q = E.fresh("kr", true); S.P.addGe(Lin::var(q)); S.P.addGe(S.g["rs:p"] - S.g["rs:r"] * ls - Lin::var(q)); S.P.addGe(Lin::var(q) + S.g["rs:r"] * 2 + Lin(2) - Lin::var(v)); E.count("bounded_conversions"); } else VT().imprecise[v] = 1;
if (ny.k == Val::Ptr) E.storeCell(S, ny.base, ny.l, 4, Val::num(Lin::var(v)));
    if (y.k == Val::Ptr && y.base) { region(E, CB, S, y, Lin::var(v) * sz, true); } if (kind == "any") computed(E, CB, S, y, Lin::var(v) * sz);
    if (!CB->getType()->isVoidTy()) S.env[CB] = E.freshOf(CB->getType(), "r", S); out.push_back(S); return true;
  }
  bool vec(Engine &E, CallBase *CB, const std::string &h, State &S, std::vector<State> &out) {
    std::string b = baseName(h); size_t at = h.find("std::vector<") + 12; int d = 0; size_t e = at; for (; e < h.size(); e++) { if (h[e] == '<') d++; else if (h[e] == '>') { if (!d) break; d--; } else if (h[e] == ',' && !d) break; } i64 sz = sizeOfT(h.substr(at, e - at)); Val self = E.eval(S, CB->getArgOperand(0)); if (!sz || self.k != Val::Ptr) return false;
    auto fill = [&](State &X, const Lin &n) { Lin len = n * sz; int o = E.obj("res:" + std::to_string((size_t)CB), "heap", false, CB); rname[o] = "a vector's storage"; X.d["lv:" + std::to_string(o)] = 1; X.g["ext:" + std::to_string(o)] = len; E.storeCell(X, self.base, self.l, 8, Val::ptr(o, Lin(0))); E.storeCell(X, self.base, self.l + Lin(8), 8, Val::ptr(o, len)); E.storeCell(X, self.base, self.l + Lin(16), 8, Val::ptr(o, len)); };
    auto drop = [&](State &X) { Val p = E.loadCell(X, self.base, self.l, PointerType::get(E.M->getContext(), 0), CB); if (p.k == Val::Ptr && p.base && X.d.count("lv:" + std::to_string(p.base))) X.d["lv:" + std::to_string(p.base)] = 2; };
    auto num = [&](unsigned i) { Lin l = E.numOf(S, E.eval(S, CB->getArgOperand(i))); S.P.addGe(l); return l; };
    bool cnt = CB->arg_size() > 1 && CB->getArgOperand(1)->getType()->isIntegerTy(64);
    if (b == "vector" && cnt) { fill(S, num(1)); out.push_back(S); return true; }
    if (b == "vector" && CB->arg_size() <= 1) { for (int i = 0; i < 3; i++) E.storeCell(S, self.base, self.l + Lin(8 * i), 8, Val::ptr(0, Lin(0))); out.push_back(S); return true; }
    if ((b == "resize" || b == "assign") && cnt) { Lin n = num(1); drop(S); fill(S, n); out.push_back(S); return true; }
    if (b == "~vector") { drop(S); out.push_back(S); return true; }
    if (b == "push_back" || b == "emplace_back" || b == "reserve" || b.compare(0, 3, "_M_") == 0 && b != "_M_data_ptr" || b == "insert") { drop(S); Lin n = obs(E, S, "len"); VT().imprecise[n.t[0].first] = 1; fill(S, n); if (!CB->getType()->isVoidTy()) S.env[CB] = E.freshOf(CB->getType(), "vr", S, "vr:" + std::to_string((size_t)CB)); out.push_back(S); return true; }
    return false;
  }
  // ---------------------------------------------------------------- end of a processing call
  virtual void callEnd(Engine &E, CallBase *CB, State &S, const Lin &code) {
    if (E.reporting) ends++; E.count("call_ends"); auto zero = [&](const std::string &k) { return S.P.entailsEq(G(S, k)); };
    int t = S.P.entailsGe(code - Lin(1)) ? 1 : S.P.entailsEq(code) ? 0 : -1;
    if (t < 0) { S.P.addGe(code); std::vector<State> a, b; E.assume(S, cEq(code), true, a); E.assume(S, cEq(code), false, b); for (auto &s : a) callEnd(E, CB, s, Lin(0)); for (auto &s : b) callEnd(E, CB, s, code); return; }
    if (t == 1) { E.count("error_returns"); auto c = S.P.constOf(code); if (c ? *c == 1 : S.P.entailsEq(code - Lin(1))) viol(E, CB, S, "C24:success-as-error", "a processing call fails with the code for success", {}); else if (c && nerr > 0 && *c > nerr) viol(E, CB, S, "C24:undeclared", "a processing call fails with a code that is not declared", {}); }
    fileEnd(E, CB, S, t == 0); if (kind == "snk" || kind == "udp") return;
    for (auto &p : qs) { std::string k = p.first + (p.second.out ? ":prod" : ":cons"); if (t == 1 && !zero(k)) viol(E, CB, S, "C17:error-effect", std::string("returns an error after ") + (p.second.out ? "publishing output" : "consuming input"), S.P.entailsGe(G(S, k) - Lin(1)) ? std::vector<Lin>{} : std::vector<Lin>{G(S, k)}); }
    if (t == 1 || !conserving()) return;
    for (auto &p : qs) if (!p.second.out) for (auto &r : qs) if (r.second.out) { Lin c = G(S, p.first + ":cons"), o = G(S, r.first + ":prod") * ratio; E.count("conservation_checks");
          if (!S.P.entailsEq(c - o)) viol(E, CB, S, "C17:conservation", ratio == 1 ? "a processing call may consume a different number of items from an input than it produces on an output" : "a processing call may consume a number of input items that does not match the frames produced on each output", {c, o}); }
  }
};
