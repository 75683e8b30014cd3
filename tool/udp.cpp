// Datagram source/sink, socket wrapper and blob slab (C20, C21; C16, C18, C19 come with the block checker).
// Followed: the slot taken last and the datagram received last (where they are, whether accepted), how many have been
// stored in the local batch, delivered, returned and sent; a batch is handled in order, so counts identify its elements.
#include "block.hpp"
struct Udp : Blk {
  i64 ioerr; long seen = 0;
  Udp(Output &o, std::string k, std::string f, i64 io) : Blk(o, k, f), ioerr(io) {}
  void init(Engine &E, State &S) override { Blk::init(E, S); if (kind == "udp" && fn.size() > 2 && fn.substr(fn.size() - 2) == "_v") { Val c = S.env[E.F->getArg(E.F->arg_size() - 1)]; if (c.k == Val::Ptr) E.objs[c.base].maybeNull = true; } } // the caller's context may be anything
  std::map<const Value *, int> site; int sid(Value *v) { auto it = site.find(v); if (it != site.end()) return it->second; int k = (int)site.size() + 1; return site[v] = k; }
  bool blob() { return has(fn, "blob"); } bool snk() { return has(fn, "snk"); } bool needValid() { return fn.size() > 2 && fn.substr(fn.size() - 2) == "_v" && !snk(); } i64 isz() { return blob() ? 32 : 16; }
  void v(Engine &E, Instruction *I, State &S, const std::string &r, const std::string &m, const std::vector<Lin> &l = {}) { viol(E, I, S, r, m, l); }
  // ---- the batch: the local array of items
  bool batch(Engine &E, int b) { if (!b) return false; const Obj &o = E.objs[b]; if (o.kind == "alloca") { auto *A = dyn_cast_or_null<AllocaInst>(o.site); return A && (A->isArrayAllocation() || A->getAllocatedType()->isArrayTy() && (i64)E.DL->getTypeAllocSize(A->getAllocatedType()) > isz()); } return o.kind == "heap" && b != slabData; }
  int slabData = 0;
  bool elem(State &S, const Lin &off, Lin &j, i64 &f) { Lin o = off; if (auto c = S.P.constOf(o)) o = Lin(*c); if (!div(o, j, f)) { o = S.P.norm(off); return div(o, j, f); } return true; }
  bool div(const Lin &o, Lin &j, i64 &f) { i64 z = isz(); j = Lin(); f = ((o.c % z) + z) % z; j.c = (o.c - f) / z; for (auto &t : o.t) { if (t.second % z) return false; j.t.push_back({t.first, t.second / z}); } return true; }
  bool pendAt(State &S, const Val &p) { return S.d["rx"] && S.d["rx"] != 9 && p.k == Val::Ptr && p.base == S.d["pb"] && S.P.entailsEq(p.l - G(S, "pl")); }
  // the datagram received last is complete and not rejected: it is now element n of the batch
  void settle(Engine &E, Instruction *I, State &S) { // before anything else happens to the batch
    lenDue(E, I, S); S.d["lenOk"] = 0;
    if (snk() || blob()) return; int rx = S.d["rx"]; if (rx == 1 || rx == 2) { if (needValid() && rx == 1) { S.d["rx"] = 0; v(E, I, S, "C21:unvalidated", "keeps a datagram without asking whether it is valid"); return; } Lin j; i64 f; if (!batch(E, S.d["pb"])) { v(E, I, S, "C21:dropped", "an accepted datagram is neither kept nor delivered"); } else if (!elem(S, G(S, "pl"), j, f) || f || !S.P.entailsEq(j - G(S, "nacc"))) v(E, I, S, "C21:displaced", "an accepted datagram is not stored right after the previous accepted one"); S.g["nacc"] = G(S, "nacc") + Lin(1); }
    if (rx) S.d["rx"] = 0; }
  void keepBlob(Engine &E, Instruction *I, State &S, const Val &at) {
    Lin j; i64 f; if (!elem(S, at.l, j, f) || f) { v(E, I, S, "C21:displaced", "a blob is stored across element boundaries"); return; } int rx = S.d["rx"];
    if (S.d["slot"] != 1) { v(E, I, S, "C20:reuse", "stores a blob whose slot it no longer holds"); return; }
    if (rx == 3) v(E, I, S, "C21:rejected", "keeps a datagram that was rejected, truncated or not received"); else if (rx == 0) { O.undecided.push_back(fn + ": a blob is stored before its datagram is received"); return; } else if (rx == 1 && needValid()) v(E, I, S, "C21:unvalidated", "keeps a datagram without asking whether it is valid");
    if (!S.P.entailsEq(j - G(S, "nacc"))) v(E, I, S, "C21:displaced", "an accepted datagram is not stored right after the previous accepted one", {j});
    if (S.d["lenOk"] != 1) S.d["lenTodo"] = 1;
    S.g["nacc"] = G(S, "nacc") + Lin(1); S.d["rx"] = 0; S.d["slot"] = 0; }
  void onCopy(Engine &E, Instruction *I, const Val &d, const Val &s, const Lin &n, State &S) override { Blk::onCopy(E, I, d, s, n, S); if (snk() || d.k != Val::Ptr || s.k != Val::Ptr) return;
    if (blob()) { if (batch(E, d.base) && S.P.entailsEq(n - Lin(32))) { Val p = E.loadCell(S, s.base, s.l, PointerType::get(E.M->getContext(), 0), I); if (p.k == Val::Ptr && p.base == slabData && slabData) { Val at = d; Val l = E.loadCell(S, s.base, s.l + Lin(8), Type::getInt64Ty(E.M->getContext()), I); lenStored(E, I, S, l); keepBlob(E, I, S, at); } } return; }
    if (pendAt(S, s) && d.base != s.base || pendAt(S, s) && batch(E, d.base)) { if (batch(E, d.base)) { Lin j; i64 f; if (elem(S, d.l, j, f) && !S.P.entailsGe(j - G(S, "nacc"))) v(E, I, S, "C21:overwritten", "an accepted datagram that was not delivered yet is overwritten"); S.d["pb"] = d.base; S.g["pl"] = d.l; } else if (!batch(E, S.d["pb"])) { S.d["pb"] = d.base; S.g["pl"] = d.l; } } }
  void lenStored(Engine &E, Instruction *I, State &S, const Val &x) { bool ok = x.k == Val::Num && S.P.entailsEq(x.l - G(S, "bytes")); S.d["lenOk"] = ok; if (S.d["lenTodo"]) { if (!ok) v(E, I, S, "C21:length", "a blob is kept with a length other than the datagram's"); S.d["lenTodo"] = 0; } }
  void lenDue(Engine &E, Instruction *I, State &S) { if (S.d["lenTodo"]) { S.d["lenTodo"] = 0; v(E, I, S, "C21:length", "a blob is kept with a length other than the datagram's"); } }
  void tidy(Engine &E, State &S) override { if (kind != "udp") return; for (const char *k : {"out", "en"}) S.d.erase(k); S.g.erase("errno"); if (snk()) return; if (blob()) for (auto it = S.mem.begin(); it != S.mem.end();) if (batch(E, it->first.first)) it = S.mem.erase(it); else ++it;
    for (auto it = S.mem.begin(); it != S.mem.end();) if (E.objs[it->first.first].name == "errno" || it->first.first == slabData) it = S.mem.erase(it); else ++it;
    for (auto it = S.d.begin(); it != S.d.end();) if (it->first.compare(0, 4, "oddw") == 0 && !spans.count(atoi(it->first.c_str() + 4))) it = S.d.erase(it); else ++it;
    if (S.d["slot"] == 2) S.d["slot"] = 0; if (S.d["slot"] != 1) { if (S.d["rx"] == 3) S.d["rx"] = 0; if (!S.d["rx"]) { S.d.erase("pb"); S.g.erase("pl"); S.g.erase("cur"); if (!S.d["lenTodo"]) { S.g.erase("bytes"); S.d["lenOk"] = 0; } } } }
  bool onStore(Engine &E, StoreInst *T, const Val &p, const Val &x, State &S, std::vector<State> &out) override {
    if (blob() && snk() && p.k == Val::Ptr && S.d["rb"] && S.d["rb"] == p.base && batch(E, p.base)) { Lin j; i64 f; if (elem(S, p.l, j, f) && f == 24 && x.k == Val::Ptr && !x.base) { if (S.P.entailsEq(j - G(S, "nnull"))) S.g["nnull"] = G(S, "nnull") + Lin(1); out.push_back(S); return true; } } // owner forgotten
    if (blob() && !snk() && p.k == Val::Ptr && batch(E, p.base)) { Lin j; i64 f; if (elem(S, p.l, j, f)) { if (f == 0 && x.k == Val::Ptr && slabData && x.base == slabData) keepBlob(E, T, S, p); else if (f == 8 && x.k == Val::Num) { if (S.P.entailsGe(G(S, "nacc") - j - Lin(2))) v(E, T, S, "C21:length", "changes the length of a blob already kept"); lenStored(E, T, S, x); } } }
    return Blk::onStore(E, T, p, x, S, out); }
  bool onLoad(Engine &E, LoadInst *L, const Val &p, State &S, std::vector<State> &out) override {
    if (blob() && p.k == Val::Ptr && batch(E, p.base) && (snk() ? S.d["rb"] == p.base : true)) { Lin j; i64 f; if (elem(S, p.l, j, f) && (snk() || S.P.entailsGe(G(S, "nacc") - j - Lin(1)))) { auto key = [&](const char *t, const std::string &i) { return std::string(t) + i; }; auto dead = S.mem.find({p.base, p.l.isConst() ? p.l.c : INT64_MIN}); (void)dead;
        if (snk() && f == 24 && L->getType()->isPointerTy()) { std::vector<State> a, c; Lin d = G(S, "nnull") - j - Lin(1); E.assume(S, cGe(d), true, a); E.assume(S, cGe(d), false, c); for (auto &X : a) { X.env[L] = Val::ptr(0, Lin(0)); out.push_back(X); } if (c.empty()) return true; S = c[0]; }
        if (L->getType()->isPointerTy() && (f == 0 || f == 24)) { int o = E.obj("el:" + std::to_string((size_t)L), "extern", false, L); S.g[key(f ? "eo:" : "ed:", std::to_string(o))] = j; S.env[L] = Val::ptr(o, Lin(0)); out.push_back(S); return true; }
        if (L->getType()->isIntegerTy(64) && (f == 8 || f == 16)) { int x = E.fresh("el"); S.P.addGe(Lin::var(x)); std::string k = key(f == 8 ? "el:" : "ei:", std::to_string((size_t)L)); S.g[k] = j; S.g["v" + k] = Lin::var(x); S.env[L] = Val::num(Lin::var(x)); out.push_back(S); return true; } } }
    return Blk::onLoad(E, L, p, S, out); }
  bool byVal(State &S, const char *t, const Lin &x, Lin &j) { std::string pre = std::string("v") + t; for (auto &p : S.g) if (p.first.compare(0, pre.size(), pre) == 0 && S.P.entailsEq(p.second - x)) { j = S.g[p.first.substr(1)]; return true; } return false; }
  // ---- slots
  void giveBack(Engine &E, CallBase *CB, State &S, const Val &p, std::vector<State> &out, bool mayFail) {
    E.count("slot_returns"); Val x = p.k == Val::Ptr ? E.loadCell(S, p.base, p.l, Type::getInt64Ty(E.M->getContext()), CB) : p; Lin i = E.numOf(S, x, "slot"), j; auto done = [&]() { if (!CB->getType()->isVoidTy()) S.env[CB] = Val::boolean(cTrue()); out.push_back(S); };
    if (!S.d["filled"] && !snk()) { if (!S.P.entailsEq(i - G(S, "fill"))) v(E, CB, S, "C20:fill", "the free list does not start with every slot exactly once", {i}); if (S.g.count("qcap") && !S.P.entailsGe(S.g["qcap"] - G(S, "fill") - Lin(1))) v(E, CB, S, "C20:fill", "the free list may have less room than there are slots"); S.g["fill"] = G(S, "fill") + Lin(1); done(); return; }
    if (S.d["slot"] == 1 && S.P.entailsEq(i - G(S, "cur"))) { if (S.d["rx"] == 2 || S.d["rx"] == 1 && !needValid()) v(E, CB, S, "C21:dropped", "returns the slot of an accepted datagram instead of delivering it"); S.d["slot"] = 2; S.d["rx"] = 0; done(); return; }
    if (byVal(S, "ei:", i, j)) { if (!S.P.entailsEq(j - G(S, "nrel"))) v(E, CB, S, S.P.entailsGe(G(S, "nrel") - j - Lin(1)) ? "C20:double" : "C20:lost", S.P.entailsGe(G(S, "nrel") - j - Lin(1)) ? "returns a slot that was already returned" : "may return a slot out of turn, so that one is returned twice or not at all", {j}); S.g["nrel"] = G(S, "nrel") + Lin(1); done(); return; }
    v(E, CB, S, S.d["slot"] == 2 ? "C20:double" : "C20:foreign", S.d["slot"] == 2 ? "may return a slot a second time" : "may return a slot it does not hold", {i}); done(); }
  void take(Engine &E, CallBase *CB, State &S, const Val &p, std::vector<State> &out, bool blocking) {
    E.count("slot_requests"); fillCheck(E, CB, S); if (S.d["slot"] == 1) v(E, CB, S, "C20:lost", "takes another slot while the previous one is neither stored, delivered nor returned");
    if (!blocking) { State N = S; N.d["slot"] = 0; N.env[CB] = Val::boolean(cFalse()); out.push_back(N); } int k = E.fresh("slot"); S.P.addGe(Lin::var(k)); S.P.addGe(G(S, "fill") - Lin::var(k) - Lin(1)); if (S.P.isBot()) return;
    S.g["cur"] = Lin::var(k); S.d["slot"] = 1; S.d["rx"] = 0; if (p.k == Val::Ptr) { E.killRange(S, p.base, p.l, Lin(8)); E.storeCell(S, p.base, p.l, 8, Val::num(Lin::var(k))); } if (!CB->getType()->isVoidTy()) S.env[CB] = Val::boolean(cTrue()); out.push_back(S); }
  void fillCheck(Engine &E, CallBase *CB, State &S) { if (!S.d["filled"]) S.d["filled"] = 1; }
  bool queueItem(const std::string &n, std::string &T, std::string &b) { std::string h = headOf(n); size_t at = h.find("dro::SPSCQueue<"); if (at == std::string::npos) return false; b = baseName(h); auto lt = b.find('<'); if (lt != std::string::npos) b = b.substr(0, lt); size_t s = at + 15, e = s; int d = 0; for (; e < h.size(); e++) { if (h[e] == '<') d++; else if (h[e] == '>') { if (!d) break; d--; } else if (h[e] == ',' && !d) break; } T = h.substr(s, e - s); return true; }
  // ---- delivery of the batch
  void delivering(Engine &E, CallBase *CB, State &S, const Val &p, const Lin &n) {
    settle(E, CB, S); if (S.P.entailsEq(n)) return; E.count("deliveries"); if (p.k == Val::Ptr && batch(E, p.base)) { Lin j; i64 f; if (!elem(S, p.l, j, f) || f || !S.P.entailsEq(j - G(S, "ndel"))) v(E, CB, S, "C21:order", "delivers something other than the next accepted datagrams", {p.l}); if (!S.P.entailsGe(G(S, "nacc") - G(S, "ndel") - n)) v(E, CB, S, "C21:invented", "publishes more items than datagrams were accepted", {n}); return; }
    if (blob() && p.k == Val::Ptr && S.d["slot"] == 1) { Val q = E.loadCell(S, p.base, p.l, PointerType::get(E.M->getContext(), 0), CB); if (q.k == Val::Ptr && q.base == slabData && (S.d["rx"] == 2 || S.d["rx"] == 1 && !needValid())) { S.g["nacc"] = G(S, "nacc") + Lin(1); S.d["slot"] = 0; S.d["rx"] = 0; return; } }
    if (S.d["rx"] == 3 || S.d["rx"] == 0) v(E, CB, S, "C21:invented", "publishes something that is not an accepted datagram"); else { S.d["rx"] = 0; S.g["nacc"] = G(S, "nacc") + Lin(1); } }
  bool throws(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<std::string> &ts) override {
    std::string h = headOf(n); if (CB->getCalledFunction() == nullptr || n.compare(0, 6, "verif_") == 0) return false; if (has(h, "GenericDatagramSocket::make_")) { ts.push_back("_ZTISt13runtime_error"); return true; } if (has(h, "GenericDatagramSocket")) return false; if (has(h, "stoi") || has(h, "stol")) { ts.push_back("_ZTISt16invalid_argument"); ts.push_back("_ZTISt12out_of_range"); return true; }
    return Blk::throws(E, CB, n, S, ts); }
  // ---- system calls
  void errnoIs(Engine &E, State &S, int lo, int hi) { int o = E.obj("errno", "extern", false); int x = E.fresh("errno"); S.P.addGe(Lin::var(x) - Lin(lo)); S.P.addGe(Lin(hi) - Lin::var(x)); E.storeCell(S, o, Lin(0), 4, Val::num(lo == hi ? Lin(lo) : Lin::var(x))); S.g["errno"] = lo == hi ? Lin(lo) : Lin::var(x); }
  Lin num(Engine &E, State &S, Value *V) { Lin l = E.numOf(S, E.eval(S, V), "n"); return l; }
  void receive(Engine &E, CallBase *CB, State &S, const Val &buf, const Lin &len, const Val *msg, int full, std::vector<State> &out) {
    E.count("receptions"); if (buf.k == Val::Ptr && buf.base) access(E, CB, buf, len, true, S); seen++;
    if (kind == "udp") { settle(E, CB, S); S.d["rxn"] = 1; if (blob()) { if (S.d["slot"] != 1) v(E, CB, S, "C20:reuse", "receives into a slot it does not hold"); else if (buf.k == Val::Ptr && buf.base == slabData && !S.P.entailsEq(buf.l - G(S, "cur") * 256)) v(E, CB, S, "C20:region", "receives into another slot's memory", {buf.l}); if (S.d["rx"] == 1 || S.d["rx"] == 2) v(E, CB, S, "C21:overwritten", "an accepted datagram is overwritten by the next one"); }
      else if (buf.k == Val::Ptr && batch(E, buf.base)) { Lin j; i64 f; if (!elem(S, buf.l, j, f) || f) v(E, CB, S, "C21:displaced", "receives across item boundaries", {buf.l}); else if (!S.P.entailsGe(j - G(S, "nacc"))) v(E, CB, S, "C21:overwritten", "an accepted datagram that was not delivered yet is overwritten", {j}); } }
    auto done = [&](State X, const Lin &r, int rx, int fl) { X.env[CB] = Val::num(r); if (msg && msg->k == Val::Ptr) E.storeCell(X, msg->base, msg->l + Lin(48), 4, Val::num(Lin(fl))); X.d["rx"] = rx; if (kind == "udp" && buf.k == Val::Ptr) { X.d["pb"] = buf.base; X.g["pl"] = buf.l; } X.g["bytes"] = r; out.push_back(X); };
    if (buf.k == Val::Ptr && E.objs[buf.base].kind == "alloca") E.killRange(S, buf.base, buf.l, len);
    for (auto e : std::vector<std::pair<int, int>>{{4, 4}, {11, 11}, {90, 90}, {1, 3}, {5, 10}, {12, 89}, {91, 133}}) { State X = S; errnoIs(E, X, e.first, e.second); bool tr = e.first == 4 || e.first == 11 || e.first == 90; X.d["out"] = tr ? 1 : 2; X.d["en"] = e.first; if (!tr) X.d["hard"] = 1; done(X, Lin(-1), 3, 0); }
    { State X = S; X.d["out"] = 3; done(X, Lin(0), 3, 0); } // empty datagram
    int r = E.fresh("bytes"); State T = S; T.P.addGe(Lin::var(r) - Lin(1)); T.P.addGe(len - Lin::var(r)); if (T.P.isBot()) return;
    if (msg) { State X = T; X.P.addEq(len - Lin::var(r)); X.d["out"] = 4; done(X, Lin::var(r), 3, 0x20); } // truncated: as much as fits
    else { State X = S; int w = E.fresh("bytes"); if (full) X.P.addGe(Lin::var(w) - len - Lin(1)); else X.P.addEq(Lin::var(w) - len); X.P.addGe(Lin::var(w) - Lin(1)); X.d["out"] = 4; if (!X.P.isBot()) done(X, Lin::var(w), 3, 0); } // MSG_TRUNC: the real length
    if (kind == "udp" && !blob()) { State X = T; X.P.addGe(len - Lin::var(r) - Lin(1)); X.d["out"] = 5; done(X, Lin::var(r), 3, 0); State Y = T; Y.P.addEq(Lin::var(r) - Lin(16)); Y.d["out"] = 6; done(Y, Lin::var(r), 1, 0); }
    else { T.d["out"] = 6; done(T, Lin::var(r), 1, 0); } }
  void send(Engine &E, CallBase *CB, State &S, const Val &p, const Lin &len, std::vector<State> &out) {
    E.count("sends"); seen++; S.g["sentLen"] = len; S.d["sentTo"] = 1; if (kind == "udp") { Lin j, k; bool ok = false; std::string id = p.k == Val::Ptr ? std::to_string(p.base) : "";
      if (blob()) { auto it = S.g.find("ed:" + id); if (it != S.g.end() && S.P.entailsEq(p.l)) { j = it->second; ok = byVal(S, "el:", len, k) && S.P.entailsEq(j - k); if (!S.P.entailsGe(j - G(S, "nrel"))) v(E, CB, S, "C20:reuse", "sends a blob after returning its slot", {j}); } }
      else { i64 f; ok = p.k == Val::Ptr && p.base == S.d["rb"] && elem(S, p.l, j, f) && f == 0 && S.P.entailsEq(len - Lin(16)); if (!ok && p.k == Val::Ptr && p.base && S.d["rb"]) { } }
      if (!ok) v(E, CB, S, blob() && S.P.entailsGe(G(S, "nrel") - G(S, "nsent") - Lin(1)) ? "C20,C21:sent" : "C21:sent", blob() && S.P.entailsGe(G(S, "nrel") - G(S, "nsent") - Lin(1)) ? "sends something other than one whole consumed item, whose slot was already returned" : "sends something other than one whole consumed item"); else if (!S.P.entailsEq(j - G(S, "nsent"))) v(E, CB, S, "C21:sent", "sends a consumed item out of order, twice or not at all", {j}); S.g["nsent"] = G(S, "nsent") + Lin(1); }
    for (int t : {0, 1}) { State X = S; errnoIs(E, X, t ? 5 : 4, t ? 5 : 4); if (t) X.d["hard"] = 1; else X.d["soft"] = 1; X.d["out"] = 2; X.g["bytes"] = Lin(-1); X.env[CB] = Val::num(Lin(-1)); out.push_back(X); }
    S.d["out"] = 6; int r = E.fresh("sent"); S.P.addGe(Lin::var(r)); S.P.addEq(len - Lin::var(r)); S.g["bytes"] = Lin::var(r); S.env[CB] = Val::num(Lin::var(r)); if (!S.P.isBot()) out.push_back(S); }
  bool fdOf(State &S, const Lin &x, std::string &k) { for (auto &p : S.g) if (p.first.compare(0, 3, "fd:") == 0 && S.P.entailsEq(p.second - x)) { k = p.first.substr(3); return true; } return false; }
  bool onCall(Engine &E, CallBase *CB, const std::string &n, State &S, std::vector<State> &out) override {
    std::string T, b, h = headOf(n); auto A = [&](unsigned i) { return E.eval(S, CB->getArgOperand(i)); };
    auto ret = [&](State &X, const Val &x) { if (!CB->getType()->isVoidTy()) X.env[CB] = x; out.push_back(X); };
    if (queueItem(n, T, b)) {
      if (T == "unsigned long") { if (b == "SPSCQueue") { S.g["qcap"] = CB->arg_size() > 1 ? num(E, S, CB->getArgOperand(1)) : Lin(0); S.g["fill"] = Lin(0); S.d["filled"] = 0; return Blk::onCall(E, CB, n, S, out); }
        if (b == "push" || b == "try_push" || b == "emplace" || b == "try_emplace" || b == "force_push") { giveBack(E, CB, S, A(1), out, b[0] == 't'); return true; } if (b == "pop" || b == "try_pop") { take(E, CB, S, A(1), out, b == "pop"); return true; } if (b == "size" || b == "empty" || b == "space" || b == "capacity") { ret(S, E.freshOf(CB->getType(), "q", S)); return true; } return Blk::onCall(E, CB, n, S, out); }
      if (kind == "udp" && (T == "Blob" || T == "Pkt")) {
        bool w = b == "writeN", one = b == "push" || b == "try_push" || b == "emplace" || b == "try_emplace";
        if ((w || one) && !snk()) { Val p = A(1); Lin c = w ? num(E, S, CB->getArgOperand(2)) : Lin(1); delivering(E, CB, S, p, c); std::vector<State> o2; Lin before = Lin(0); std::string pk; if (!Blk::onCall(E, CB, n, S, o2)) return false;
          for (auto &X : o2) { Lin m = Lin(1); if (w) m = E.numOf(X, X.env[CB]); else if (b[0] == 't') { int t = X.env.count(CB) ? E.truth(X, E.condOf(X, X.env[CB])) : 1; if (t == 0) m = Lin(0); } X.g["ndel"] = G(X, "ndel") + m; out.push_back(X); } return true; }
        if (b == "readN" && snk()) { Val p = A(1); std::vector<State> o2; if (!Blk::onCall(E, CB, n, S, o2)) return false; for (auto &X : o2) { if (p.k == Val::Ptr) { X.d["rb"] = p.base; if (!X.P.entailsEq(p.l)) v(E, CB, X, "C21:sent", "reads items behind the start of its batch"); if (X.d["read"]) v(E, CB, X, "C21:sent", "reads a second batch over the first"); X.d["read"] = 1; } X.g["nin"] = E.numOf(X, X.env[CB]); out.push_back(X); } return true; }
        if (snk() && (b == "pop" || b == "try_pop" || b == "commit_read")) O.undecided.push_back(fn + ": item by item consumption not modelled"); }
      return Blk::onCall(E, CB, n, S, out); }
    if (n == "verif_begin") { fillCheck(E, CB, S); for (auto it = S.g.begin(); it != S.g.end();) { const std::string &k = it->first; if (k == "nacc" || k == "ndel" || k == "nrel" || k == "nsent" || k == "nnull" || k == "nin" || k == "cur" || k == "pl" || k == "bytes" || k == "errno" || k == "sentLen" || k.compare(0, 2, "ed") == 0 || k.compare(0, 2, "eo") == 0 || k.compare(0, 3, "ei:") == 0 || k.compare(0, 3, "el:") == 0 || k.compare(0, 4, "vei:") == 0 || k.compare(0, 4, "vel:") == 0) it = S.g.erase(it); else ++it; }
      for (const char *k : {"rx", "pb", "slot", "hard", "soft", "rxn", "rb", "read", "lenTodo", "out", "en", "sentTo"}) S.d.erase(k); return Blk::onCall(E, CB, n, S, out); }
    if (n == "__errno_location") { ret(S, Val::ptr(E.obj("errno", "extern", false), Lin(0))); return true; }
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "pthread_mutex_trylock") { ret(S, Val::num(Lin(0))); return true; }
    if (n == "recvmsg") { Val m = A(1); if (m.k != Val::Ptr) return false; Type *PT = PointerType::get(E.M->getContext(), 0); Val iov = E.loadCell(S, m.base, m.l + Lin(16), PT, CB); Val buf; Lin len; if (iov.k != Val::Ptr) { O.undecided.push_back(fn + ": message layout not understood"); return false; } buf = E.loadCell(S, iov.base, iov.l, PT, CB); len = E.numOf(S, E.loadCell(S, iov.base, iov.l + Lin(8), Type::getInt64Ty(E.M->getContext()), CB)); receive(E, CB, S, buf, len, &m, 0, out); return true; }
    if (n == "recv" || n == "recvfrom" || n == "read") { Val b0 = A(1); Lin len = num(E, S, CB->getArgOperand(2)); auto bit = [](const Value *V) { auto *C = dyn_cast<ConstantInt>(V); return C && (C->getZExtValue() & 0x20); }; auto fl = n == "read" ? std::nullopt : S.P.constOf(num(E, S, CB->getArgOperand(3))); int full = 0; if (fl) full = (*fl & 0x20) != 0; else if (n != "read") if (auto *Q = dyn_cast<BinaryOperator>(CB->getArgOperand(3))) full = Q->getOpcode() == Instruction::Or && (bit(Q->getOperand(0)) || bit(Q->getOperand(1))); receive(E, CB, S, b0, len, nullptr, full, out); return true; }
    if (n == "sendto" || n == "send" || n == "write") { send(E, CB, S, A(1), num(E, S, CB->getArgOperand(2)), out); return true; }
    if (n == "socket") { E.count("acquisitions"); State N = S; N.env[CB] = Val::num(Lin(-1)); out.push_back(N); std::string k = std::to_string(sid(CB)); int x = E.fresh("fd"); S.P.addGe(Lin::var(x)); S.d["lv:f" + k] = 1; S.g["fd:" + k] = Lin::var(x); ret(S, Val::num(Lin::var(x))); return true; }
    if (n == "close") { E.count("releases"); std::string k; Lin x = num(E, S, CB->getArgOperand(0)); if (!fdOf(S, x, k)) v(E, CB, S, "C19:release", "closes a descriptor it did not open", {x}); else if (S.d["lv:f" + k] != 1) v(E, CB, S, "C19:double-release", "closes a descriptor a second time"); else S.d["lv:f" + k] = 2; ret(S, E.freshOf(CB->getType(), "r", S)); return true; }
    if (n == "bind" || n == "setsockopt" || n == "inet_pton" || n == "unlink" || n == "fcntl" || n == "getsockopt") { if (n != "unlink" && n != "inet_pton") { std::string k; if (!fdOf(S, num(E, S, CB->getArgOperand(0)), k) || S.d["lv:f" + k] != 1) v(E, CB, S, "C19:use-after-release", "uses a descriptor that is not open"); } ret(S, E.freshOf(CB->getType(), "r", S)); return true; }
    if (n == "verif_filled") { fillCheck(E, CB, S); E.count("obligations"); Lin k = num(E, S, CB->getArgOperand(0)); if (!S.P.entailsEq(k - G(S, "fill"))) v(E, CB, S, "C20:fill", "the free list does not start with every slot exactly once", {k}); out.push_back(S); return true; }
    if (n == "verif_took") { E.count("obligations"); seen++; std::vector<State> a, c; E.assume(S, E.condOf(S, A(0)), true, a); E.assume(S, E.condOf(S, A(0)), false, c);
      for (auto &X : a) { auto R = [&](unsigned i) { return E.eval(X, CB->getArgOperand(i)); }; Val d = R(1), ow = R(4), me = R(5); Lin len = E.numOf(X, R(2)), sl = E.numOf(X, R(3)); if (X.d["slot"] != 1) v(E, CB, X, "C20:foreign", "hands out a slot that was not taken from the free list"); else { if (!X.P.entailsEq(sl - G(X, "cur"))) v(E, CB, X, "C20:region", "the blob's slot is not the one taken from the free list", {sl}); if (d.k != Val::Ptr || !X.g.count("ext:" + std::to_string(d.base)) || E.objs[d.base].kind != "heap" || !X.P.entailsEq(d.l - sl * 256)) v(E, CB, X, "C20:region", "the blob does not denote its slot's region of the slab", {d.l}); else if (!X.P.entailsGe(X.g["ext:" + std::to_string(d.base)] - d.l - len) || !X.P.entailsGe(Lin(256) - len)) v(E, CB, X, "C20:region", "the blob's region reaches beyond its slot", {len}); if (ow.k != Val::Ptr || ow.base != me.base || !X.P.entailsEq(ow.l - me.l)) v(E, CB, X, "C20:owner", "the blob does not name its slab as owner"); } out.push_back(X); }
      for (auto &X : c) { if (X.d["slot"] == 1) v(E, CB, X, "C20:lost", "fails although a slot was taken from the free list"); out.push_back(X); } return true; }
    if (n == "verif_gave") { E.count("obligations"); if (S.d["slot"] != 2) v(E, CB, S, "C20:lost", "releasing a blob does not return its slot to the free list"); S.d["slot"] = 0; out.push_back(S); return true; }
    if (n == "verif_rx") { E.count("obligations"); seen++; Lin r = num(E, S, CB->getArgOperand(0)); int o = S.d["out"]; if (o == 1 || o == 2) { if (!S.P.entailsEq(r + G(S, "errno"))) v(E, CB, S, "C21:class", "a failed reception is not reported as the negated error number", {r}); } else if (o == 4) { if (!S.P.entailsEq(r + Lin(90))) v(E, CB, S, "C21:class", "a truncated datagram is not reported as such", {r}); } else if (!S.P.entailsEq(r - G(S, "bytes"))) v(E, CB, S, "C21:class", "a received datagram's length is not reported", {r}); out.push_back(S); return true; }
    if (n == "verif_tx") { E.count("obligations"); seen++; Lin r = num(E, S, CB->getArgOperand(0)), l = num(E, S, CB->getArgOperand(2)); if (!S.d["sentTo"]) v(E, CB, S, "C21:sent", "reports a send that did not happen"); else if (!S.P.entailsEq(l - G(S, "sentLen"))) v(E, CB, S, "C21:sent", "does not send exactly what it was given"); else if (S.d["out"] == 2 ? !S.P.entailsGe(-r - Lin(1)) : !S.P.entailsEq(r - G(S, "bytes"))) v(E, CB, S, "C21:class", "does not report the outcome of a send", {r}); out.push_back(S); return true; }
    if (kind == "udp" && has(h, "GenericDatagramSocket::")) { std::string q = baseName(h); if (q == "make_receiver" || q == "make_sender" || q == "GenericDatagramSocket") { S.d["lv:s1"] = 1; Val s = A(0); if (s.k == Val::Ptr) E.havocArg(S, s, CB->getArgOperand(0)); out.push_back(S); return true; } if (q == "~GenericDatagramSocket") { if (S.d["lv:s1"] != 1) v(E, CB, S, "C19:double-release", "destroys its socket twice"); S.d["lv:s1"] = 2; out.push_back(S); return true; } }
    // user callbacks
    const Function *cf = CB->getCalledFunction(); if (!cf) { Val f = E.eval(S, CB->getCalledOperand()); if (f.k == Val::Fn) cf = f.fn; }
    if (cf && cf->getName().starts_with("verif_valid_")) { Val p = A(0); E.count("validations"); bool ok = blob() ? blobArg(E, CB, S, p) : pendAt(S, p); if (!ok) v(E, CB, S, "C21:validated", "the validation is not given the datagram just received"); else if (S.d["rx"] == 3) v(E, CB, S, "C21:validated", "a failed or incomplete reception is offered for validation"); State R = S; if (R.d["rx"] != 0) R.d["rx"] = 3; R.env[CB] = Val::boolean(cFalse()); out.push_back(R); if (S.d["rx"] == 1) S.d["rx"] = 2; S.env[CB] = Val::boolean(cTrue()); out.push_back(S); return true; }
    if (cf && cf->getName().starts_with("verif_cb_")) { if (!snk()) { Val p = A(0); int rx = S.d["rx"]; E.count("callbacks"); if (rx == 3 || rx == 0 && blob()) v(E, CB, S, "C21:callback", "the receive callback is given a rejected or failed datagram"); else if (rx == 1 && needValid()) v(E, CB, S, "C21:callback", "the receive callback is given a datagram before it is known to be valid"); else if (!(blob() ? blobArg(E, CB, S, p) : pendAt(S, p))) v(E, CB, S, "C21:callback", "the receive callback is not given the datagram just received"); } else if (blob()) { } out.push_back(S); return true; }
    if (n == "malloc" || n.compare(0, 14, "operator new[]") == 0) { size_t k = out.size(); if (!Blk::onCall(E, CB, n, S, out)) return false; if (blob() || kind == "slab") for (size_t i = k; i < out.size(); i++) { Val r = out[i].env[CB]; if (r.k == Val::Ptr && r.base && !out[i].d["filled"]) slabData = r.base; } return true; }
    return Blk::onCall(E, CB, n, S, out); }
  bool blobArg(Engine &E, CallBase *CB, State &S, const Val &p) { if (p.k != Val::Ptr) return false; Val d = E.loadCell(S, p.base, p.l, PointerType::get(E.M->getContext(), 0), CB), l = E.loadCell(S, p.base, p.l + Lin(8), Type::getInt64Ty(E.M->getContext()), CB); return d.k == Val::Ptr && d.base == slabData && slabData && S.P.entailsEq(d.l - G(S, "cur") * 256) && l.k == Val::Num && S.P.entailsEq(l.l - G(S, "bytes")); }
  void callEnd(Engine &E, CallBase *CB, State &S, const Lin &code) override {
    int t = S.P.entailsGe(code - Lin(1)) ? 1 : S.P.entailsEq(code) ? 0 : -1; if (t < 0) { Blk::callEnd(E, CB, S, code); return; }
    settle(E, CB, S); E.count("end_obligations"); bool io = t == 1 && S.P.entailsEq(code - Lin(ioerr));
    if (S.d["hard"]) { if (!io) v(E, CB, S, "C21:unreported", snk() ? "a hard send error is not reported as a fatal I/O error" : "a hard receive error is not reported as a fatal I/O error"); } else if (io && (snk() ? S.d["sentTo"] && !S.d["soft"] : S.d["rxn"])) v(E, CB, S, "C21:transient", "reports a fatal I/O error although nothing failed for good");
    if (!snk()) { if (S.d["slot"] == 1) v(E, CB, S, S.d["rx"] == 1 || S.d["rx"] == 2 ? "C20,C21:lost" : "C20:lost", "ends a call holding a slot that was neither delivered nor returned");
      Lin left = G(S, "nacc") - G(S, "ndel"); if (!S.P.entailsEq(left)) { if (blob() && !S.P.entailsEq(left - G(S, "nrel"))) v(E, CB, S, "C20:lost", "slots of blobs received in this call are neither delivered nor returned", {left}); v(E, CB, S, "C21:dropped", "accepted datagrams are not delivered", {left}); } else if (blob() && !S.P.entailsEq(G(S, "nrel"))) v(E, CB, S, "C20:double", "returns slots of delivered blobs"); }
    else { Lin nin = G(S, "nin"); if (blob() && !S.P.entailsEq(nin - G(S, "nrel"))) v(E, CB, S, "C20:lost", "slots of consumed blobs are not returned", {nin}); if (!S.d["hard"] && !S.d["soft"] && !S.P.entailsEq(nin - G(S, "nsent"))) v(E, CB, S, "C21:sent", "consumed items are not sent", {nin}); }
    Blk::callEnd(E, CB, S, code); }
};
int runUdp(Module &M, Output &O, const std::vector<std::string> &args) {
  std::string only = arg(args, "f"); bool trace = arg(args, "trace") == "1"; Poly::opposite() = true; devirtualise(M, O); i64 io = atol(arg(args, "ioerr", "0").c_str()); bool blk = arg(args, "set") == "blk";
  auto root = [](StringRef s) { return s.starts_with("blk_udp__") || s.starts_with("sock_") || s.starts_with("slab_"); };
  inlineAll(M, [&](const std::string &n, Function &F) { std::string h = headOf(n), b = baseName(h); return (F.hasExternalLinkage() && !F.hasLinkOnceODRLinkage() && root(F.getName())) || keepOpaque(n) || blk && has(h, "UDPBlock::GenericDatagramSocket::") && (b == "make_receiver" || b == "make_sender" || b == "GenericDatagramSocket" || b == "~GenericDatagramSocket" || b == "bind" || b == "set_receive_timeout"); });
  runPasses(M, "function(loop-simplify,lcssa,loop(loop-rotate,loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup>,adce)");
  for (auto &F : M) { std::string n = F.getName().str(); if (F.isDeclaration() || !root(n)) continue; bool b = n.compare(0, 4, "blk_") == 0; if (b != blk) continue; std::string nm = b ? n.substr(9) : n; if (!only.empty() && only != nm) continue;
    if (getenv("SA_DUMP")) F.print(errs());
    Udp U(O, b ? "udp" : n.substr(0, 4), nm, io); U.nerr = atol(arg(args, "errs", "0").c_str()); Engine E(&F, &U); E.trace = trace; E.exactEH = true; E.run(); O.take(E, nm); O.analysed.push_back(nm); O.stats[b ? "blocks" : "functions"]++;
    if (!E.aborted && (b ? !U.ends : !U.seen && nm != "sock_receiver" && nm != "sock_sender" && nm != "sock_moved")) O.broken.push_back(nm + ": no check is reached in the analysis"); }
  return 0;
}
