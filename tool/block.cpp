#include "block.hpp"
int runBlock(Module &M, Output &O, const std::vector<std::string> &args) {
  std::string only = arg(args, "f"); bool trace = arg(args, "trace") == "1"; devirtualise(M, O);
  inlineAll(M, [&](const std::string &n, Function &F) { return (F.hasExternalLinkage() && F.getName().starts_with("blk_")) || keepOpaque(n); });
  runPasses(M, "function(loop-simplify,lcssa,loop(loop-rotate,loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup>,adce)");
  for (auto &F : M) { std::string n = F.getName().str(); if (F.isDeclaration() || n.compare(0, 4, "blk_")) continue; auto p = n.find("__"); std::string kind = n.substr(4, p - 4), nm = n.substr(p + 2); if (!only.empty() && only != nm) continue;
    if (getenv("SA_DUMP")) F.print(errs());
    Blk B(O, kind, nm); B.nerr = atol(arg(args, "errs", "0").c_str()); Engine E(&F, &B); E.trace = trace; E.exactEH = true; E.peelOuter = true; E.run(); O.take(E, nm); O.analysed.push_back(nm); O.stats["blocks"]++;
    if (!B.ends && !E.aborted) O.broken.push_back(nm + ": no processing call completes in the analysis"); }
  return 0;
}
