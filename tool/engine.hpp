// Typestate x polyhedra abstract interpreter over LLVM IR.
#pragma once
#include "poly.hpp"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <functional>
#include <memory>

struct Cond;
using CondP = std::shared_ptr<const Cond>;
struct Cond {
  enum K { True, False, Ge, Eq, Null, And, Or, Not } k;
  Lin l; int obj = 0; CondP a, b;
};
CondP cTrue(); CondP cFalse();
CondP cGe(const Lin &l); CondP cEq(const Lin &l); CondP cNull(int obj);
CondP cAnd(CondP a, CondP b); CondP cOr(CondP a, CondP b); CondP cNot(CondP a);

struct Val {
  enum K { Unknown, Num, Ptr, Bool, Agg, Fn } k = Unknown;
  Lin l; int base = 0; CondP c; std::vector<Val> e; const llvm::Function *fn = nullptr;
  static Val num(const Lin &l) { Val v; v.k = Num; v.l = l; return v; }
  static Val ptr(int b, const Lin &off) { Val v; v.k = Ptr; v.base = b; v.l = off; return v; }
  static Val boolean(CondP c) { Val v; v.k = Bool; v.c = c; return v; }
};

struct Obj {
  std::string name, kind;     // kind: param, alloca, heap, global, deref, span, extern
  bool maybeNull = false; const llvm::Value *site = nullptr; llvm::Type *hint = nullptr;
};

typedef std::pair<int, i64> Cell;
struct CellVal { Val v; unsigned size; };

struct State {
  std::map<const llvm::Value *, Val> env;
  std::map<Cell, CellVal> mem;
  std::map<int, int> ver;              // object version (havoc count id)
  std::map<int, int> nul;              // 1 null 2 non-null
  std::map<std::string, int> d;        // discrete ghosts
  std::map<std::string, Lin> g;        // numeric ghosts
  Poly P;
  size_t hist = 0;                     // path history outside loops (when partitioning by it)
};

struct Engine;
struct Report { std::string rule, func, msg, loc; };

struct Client {
  virtual ~Client() {}
  virtual void init(Engine &, State &) {}
  // return true when handled; resulting states appended to out (value of the call set by client)
  virtual bool onCall(Engine &, llvm::CallBase *, const std::string & /*demangled*/, State &, std::vector<State> & /*out*/) { return false; }
  virtual bool onLoad(Engine &, llvm::LoadInst *, const Val & /*ptr*/, State &, std::vector<State> &) { return false; }
  virtual bool onStore(Engine &, llvm::StoreInst *, const Val & /*ptr*/, const Val & /*v*/, State &, std::vector<State> &) { return false; }
  virtual bool onRMW(Engine &, llvm::Instruction *, const Val & /*ptr*/, State &, std::vector<State> &) { return false; }
  // a region [ptr, ptr+len) is read or written by the code (after the fact checks)
  virtual void onAccess(Engine &, llvm::Instruction *, const Val & /*ptr*/, const Lin & /*len*/, bool /*write*/, State &) {}
  virtual void onCopy(Engine &, llvm::Instruction *, const Val & /*dst*/, const Val & /*src*/, const Lin & /*len*/, State &) {}
  virtual void onFence(Engine &, llvm::FenceInst *, State &) {}
  virtual void onReturn(Engine &, llvm::ReturnInst *, const Val *, State &) {}
  virtual void onUnwind(Engine &, llvm::Instruction *, State &) {}
  // exception types (typeinfo names, empty: any, $cur: the one being handled) a call may raise; false: none
  virtual bool throws(Engine &, llvm::CallBase *, const std::string &, State &, std::vector<std::string> &) { return false; }
  virtual void onBranch(Engine &, llvm::Instruction *, CondP, bool, State &) {}
  virtual bool keepDisjoint(const std::string &) { return true; }
  // constants kept apart when states meet
  virtual bool product(Engine &, State &, const Lin &, const Lin &, Lin &) { return false; }
  virtual bool powerOfTwo(const Lin &) { return false; }
  virtual bool keyCell(int, i64) { return false; }
  virtual void afterLoad(Engine &, llvm::LoadInst *, const Val &, const Val &, State &) {}
  virtual bool keyEnv(const llvm::Value *) { return false; }
  virtual void tidy(struct Engine &, struct State &) {}
  virtual unsigned maxPartitions() { return 400; }
};

struct Engine {
  llvm::Function *F; Client *C; const llvm::DataLayout *DL; llvm::Module *M;
  std::vector<Obj> objs; std::map<std::string, int> objKey;
  std::map<std::pair<int, std::pair<i64, int>>, Val> initCell; // (obj,(off,ver)) -> initial value
  std::map<std::pair<Lin, Lin>, int> prodMemo; std::map<std::pair<Lin, Lin>, int> divMemo; std::map<double, int> fpMemo;
  std::vector<Lin> thresholds; // facts about the inputs, kept when widening
  bool reporting = false; std::vector<Report> reports; std::set<std::string> seen;
  std::map<std::string, long> stats; // coverage counters
  unsigned maxDisjuncts = 48; long steps = 0, maxSteps = 4000000; bool aborted = false; std::string abortWhy;
  bool trace = false, tracePart = false, phasePart = false, peelOuter = false, exactEH = false; std::map<const llvm::Loop *, bool> peelMemo; bool peeled(const llvm::Loop *L);
  std::map<std::string, int> excId; std::vector<std::string> excNm{""};
  int exc(const std::string &n) { if (n.empty()) return 0; auto it = excId.find(n); if (it != excId.end()) return it->second; excNm.push_back(n); return excId[n] = (int)excNm.size() - 1; }

  Engine(llvm::Function *f, Client *c);
  void run();
  void report(const std::string &rule, llvm::Instruction *I, const std::string &msg);
  void count(const std::string &k, long n = 1) { if (reporting) stats[k] += n; }
  std::string loc(const llvm::Instruction *I);

  int obj(const std::string &key, const std::string &kind, bool maybeNull, const llvm::Value *site = nullptr);
  Val eval(State &S, const llvm::Value *V);
  void def(State &S, const llvm::Instruction *I, const Val &v) { S.env[I] = v; }
  Val freshOf(llvm::Type *T, const std::string &nm, State &S, const std::string &objkey = "");
  Lin numOf(State &S, const Val &v, const std::string &nm = "u"); // numeric view (fresh if not numeric)
  int fresh(const std::string &n, bool real = false) { return VT().fresh(n, real); }
  CondP condOf(State &S, const Val &v);
  // assume; appends feasible refinements of S
  void assume(State S, CondP c, bool truth, std::vector<State> &out);
  int truth(State &S, CondP c); // 1 true 0 false -1 unknown
  Val loadCell(State &S, int base, const Lin &off, llvm::Type *T, const llvm::Instruction *I);
  void storeCell(State &S, int base, const Lin &off, unsigned size, const Val &v);
  void killRange(State &S, int base, const Lin &off, const Lin &len);
  void havocObj(State &S, int base); // all cells of the object
  void havocArg(State &S, const Val &p, const llvm::Value *V = nullptr); // object region reachable through an argument passed to unknown code
  Lin mul(State &S, const Lin &a, const Lin &b);
  // x / d ; returns several states for case splits
  Lin udivBy(State &S, const Lin &x, const Lin &d, Lin *rem);
  void urem(State &S, const Lin &x, const Lin &d, std::vector<std::pair<State, Lin>> &out);
  std::string calleeName(const llvm::CallBase *CB);

private:
  std::map<const llvm::BasicBlock *, int> order; std::vector<llvm::BasicBlock *> seq;
  std::map<const llvm::BasicBlock *, std::set<const llvm::Value *>> liveIn;
  std::set<const llvm::BasicBlock *> headers; std::map<const llvm::Instruction *, int> phase;
  void phaseMark(State &S, const llvm::Instruction *I, bool taken);
  struct Acc { State S; int n = 0, nb = 0; std::map<std::string, std::pair<Lin, i64>> stride; std::map<std::string, int> ded; std::map<std::pair<const llvm::BasicBlock *, int>, State> contrib; };
  std::map<const llvm::BasicBlock *, std::map<std::string, Acc>> acc;
  std::map<const llvm::BasicBlock *, std::vector<State>> pending;
  std::set<int> dirty; // order indices with pendings
  llvm::DominatorTree DT; llvm::LoopInfo LI;
  void computeOrder(); void computeLive();
  void execBlock(llvm::BasicBlock *BB, State S);
  void step(llvm::Instruction *I, State &S, std::vector<State> &out);
  bool mulReal(State &S, const Lin &a, const Lin &b, Lin &r);
  void stepCall(llvm::CallBase *CB, State &S, std::vector<State> &out);
  void flow(llvm::BasicBlock *from, llvm::BasicBlock *to, State S);
  void arrive(llvm::BasicBlock *BB, State S, bool back);
  std::string keyOf(const State &S);
  bool mergeInto(Acc &A, State N, bool header, bool back, const llvm::BasicBlock *at); std::map<const llvm::BasicBlock *, std::set<Lin>> cands;
  void gc(State &S);
  Val mergeVal(const Val &a, const Val &b, const std::string &ent, Acc &A, State &H, State &N, bool &ok);
  int depth = 0;
};
std::string demangled(llvm::StringRef n);
