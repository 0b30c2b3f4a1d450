// LLVM instrumentation: a call to sim_yield(kind) before shared-memory accesses of the generated code.
#pragma once
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include <string>

namespace sim {
inline bool isLocal(llvm::Value *p) {
  // follow the pointer to its base: an alloca whose address never escapes is private
  for (int d = 0; d < 16; d++) {
    if (auto *g = llvm::dyn_cast<llvm::GetElementPtrInst>(p)) p = g->getPointerOperand();
    else if (auto *c = llvm::dyn_cast<llvm::CastInst>(p)) p = c->getOperand(0);
    else break;
  }
  auto *a = llvm::dyn_cast<llvm::AllocaInst>(p);
  if (!a) {
    if (auto *g = llvm::dyn_cast<llvm::GlobalVariable>(p)) return g->isConstant();
    return false;
  }
  for (auto *u : a->users()) {
    if (llvm::isa<llvm::LoadInst>(u)) continue;
    if (auto *s = llvm::dyn_cast<llvm::StoreInst>(u)) { if (s->getValueOperand() == a) return false; continue; }
    return false;
  }
  return true;
}

// "mem": before every load/store that may touch shared memory and every atomic.
// "sync": before atomics and calls only.
inline void instrument(llvm::Module &M, const std::string &mode) {
  auto &C = M.getContext();
  auto *i32 = llvm::Type::getInt32Ty(C);
  auto fty = llvm::FunctionType::get(llvm::Type::getVoidTy(C), {i32}, false);
  auto yf = M.getOrInsertFunction("sim_yield", fty);
  if (auto *f = llvm::dyn_cast<llvm::Function>(yf.getCallee())) f->setDoesNotThrow();
  bool mem = mode == "mem";
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::vector<std::pair<llvm::Instruction *, int>> pts;
    for (auto &I : llvm::instructions(F)) {
      if (llvm::isa<llvm::AtomicRMWInst>(I) || llvm::isa<llvm::AtomicCmpXchgInst>(I)) pts.push_back({&I, 3});
      else if (auto *l = llvm::dyn_cast<llvm::LoadInst>(&I)) {
        if ((mem && !isLocal(l->getPointerOperand())) || l->isAtomic()) pts.push_back({&I, 1});
      } else if (auto *s = llvm::dyn_cast<llvm::StoreInst>(&I)) {
        if ((mem && !isLocal(s->getPointerOperand())) || s->isAtomic()) pts.push_back({&I, 2});
      }
    }
    for (auto &p : pts) {
      llvm::IRBuilder<> B(p.first);
      auto *c = B.CreateCall(yf, {llvm::ConstantInt::get(i32, p.second)});
      if (auto *sp = F.getSubprogram())
        if (!c->getDebugLoc())
          c->setDebugLoc(llvm::DILocation::get(C, 0, 0, sp));
    }
  }
}
} // namespace sim
