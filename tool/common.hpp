// Shared driver pieces: module preparation, reports, JSON output.
#pragma once
#include "engine.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Verifier.h"
#include <map>
#include <set>
#include <string>
#include <vector>

struct Finding { std::string props, rule, func, loc, msg; };
struct Output {
  std::vector<Finding> findings; std::map<std::string, long> stats; std::vector<std::string> analysed; std::vector<std::string> broken, undecided;
  std::set<std::string> seen;
  void add(const std::string &props, const std::string &rule, const std::string &func, const std::string &loc, const std::string &msg) {
    if (seen.insert(rule + "|" + func + "|" + loc + "|" + msg).second) findings.push_back({props, rule, func, loc, msg}); }
  void take(Engine &E, const std::string &fn) {
    for (auto &r : E.reports) { auto p = r.rule.find(':'); add(r.rule.substr(0, p), r.rule.substr(p + 1), fn, r.loc, r.msg); }
    for (auto &s : E.stats) stats[s.first] += s.second;
    if (E.aborted) undecided.push_back(fn + ": " + E.abortWhy);
  }
  std::string json() const;
};
std::unique_ptr<llvm::Module> loadModule(const std::string &path, llvm::LLVMContext &C);
void runPasses(llvm::Module &M, const std::string &pipeline);
void inlineAll(llvm::Module &M, std::function<bool(const std::string &demangled, llvm::Function &)> keepOut);
std::string arg(const std::vector<std::string> &a, const std::string &k, const std::string &def = "");

int runQueue(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runSched(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runBlock(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runCore(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runRace(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runAssert(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runHidden(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runRtos(llvm::Module &M, Output &O, const std::vector<std::string> &args);
int runUdp(llvm::Module &M, Output &O, const std::vector<std::string> &args);
