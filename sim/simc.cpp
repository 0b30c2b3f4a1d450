// simc: compile one codon source file with the real compiler (libcodonc built from /repo) into a
// position-independent object, optionally inserting simulator yield points into the generated code.
#include "codon/cir/llvm/llvisitor.h"
#include "codon/cir/llvm/optimize.h"
#include "codon/compiler/compiler.h"
#include "codon/compiler/error.h"
#include "codon/parser/common.h"
#include "codon/util/common.h"
#include "llvm/CodeGen/MachineModuleInfo.h"
#include "llvm/IR/LegacyPassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Target/TargetMachine.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>

#include "instr.h"

static void display(const codon::error::ParserErrorInfo &e) {
  for (auto &group : e.getErrors())
    for (auto &msg : group)
      fprintf(stderr, "%s:%d:%d: %s\n", msg.getFile().c_str(), msg.getLine(),
              msg.getColumn(), msg.getMessage().c_str());
}

static void emitObject(llvm::Module &M, const std::string &out) {
  auto machine = codon::ir::getTargetMachine(
      llvm::Triple(M.getTargetTriple()), "", "", llvm::TargetOptions(), /*pic=*/true);
  if (!machine) { fprintf(stderr, "no target machine\n"); exit(2); }
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  llvm::legacy::PassManager pm;
  if (machine->addPassesToEmitFile(pm, os, nullptr, llvm::CodeGenFileType::ObjectFile, true)) {
    fprintf(stderr, "cannot emit\n"); exit(2);
  }
  pm.run(M);
}

int main(int argc, char **argv) {
  std::string in, out, instr = "none", ll;
  bool keepLsr = false, debug = false, noopt = false, pynum = false, standalone = true;
  std::vector<std::string> disabled, cl;
  std::unordered_map<std::string, std::string> defs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-debug") debug = true;
    else if (a == "-no-llvm-opt") noopt = true;
    else if (a == "-py") pynum = true;
    else if (a == "-instr") instr = argv[++i];
    else if (a == "-keep-lsr") keepLsr = true;
    else if (a == "-ll") ll = argv[++i];
    else if (a == "-disable-opt") disabled.push_back(argv[++i]);
    else if (a.rfind("-L-", 0) == 0) cl.push_back(a.substr(2)); // an option of the compiler itself
    else if (a.rfind("-D", 0) == 0) {
      auto eq = a.find('=');
      defs[a.substr(2, eq - 2)] = a.substr(eq + 1);
    } else in = a;
  }
  // loop strength reduction keeps pointers outside their objects, which the collector does not see (known finding)
  if (!keepLsr) cl.push_back("-disable-lsr");
  if (!cl.empty()) {
    std::vector<const char *> v{argv[0]};
    for (auto &c : cl) v.push_back(c.c_str());
    llvm::cl::ParseCommandLineOptions((int)v.size(), v.data());
  }
  codon::Compiler compiler(argv[0], debug, disabled, false, pynum, false);
  compiler.getLLVMVisitor()->setStandalone(standalone);
  bool failed = false;
  llvm::handleAllErrors(compiler.parseFile(in, 0, defs),
                        [&](const codon::error::ParserErrorInfo &e) { display(e); failed = true; });
  if (failed) return 1;
  llvm::cantFail(compiler.compile());
  auto *v = compiler.getLLVMVisitor();
  auto *M = v->getModule();
  if (!noopt) codon::ir::optimize(M, debug, false, nullptr);
  if (instr != "none") sim::instrument(*M, instr);
  if (llvm::verifyModule(*M, &llvm::errs())) { fprintf(stderr, "instrumented module is invalid\n"); return 2; }
  if (!ll.empty()) { std::error_code ec; llvm::raw_fd_ostream os(ll, ec); os << *M; }
  // calls into the runtime that the simulator intercepts
  for (auto *n : {"seq_alloc", "seq_alloc_atomic", "seq_alloc_uncollectable", "seq_alloc_atomic_uncollectable",
                  "seq_realloc", "seq_free"})
    if (auto *f = M->getFunction(n))
      if (f->isDeclaration()) f->setName(std::string("sim_") + n);
  // keep symbols of several workloads apart: only main is exported
  if (auto *f = M->getFunction("main")) f->setName("sim_workload_main");
  emitObject(*M, out);
  return 0;
}
