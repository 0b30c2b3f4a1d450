From f3193cdc5a53c6f50319516f86f4828f086c62c3 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 01/28] fix: handle except clauses without a variable when
 replacing variables in try-catch

---
 codon/cir/flow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/flow.cpp b/codon/cir/flow.cpp
index 172be5e..fb33d47 100644
--- a/codon/cir/flow.cpp
+++ b/codon/cir/flow.cpp
@@ -239,7 +239,7 @@ std::vector<Var *> TryCatchFlow::doGetUsedVariables() const {
 int TryCatchFlow::doReplaceUsedVariable(id_t id, Var *newVar) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getVar()->getId() == id) {
+    if (c.getVar() && c.getVar()->getId() == id) {
       c.setVar(newVar);
       ++count;
     }
-- 
2.43.0


From f41a08fc2fc9c8f56116309e7c48c6ecf41733a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 02/28] fix: parse the argument of the collapse clause in
 OpenMP pragmas

---
 codon/parser/peg/openmp.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/peg/openmp.peg b/codon/parser/peg/openmp.peg
index ae69cc4..1985180 100644
--- a/codon/parser/peg/openmp.peg
+++ b/codon/parser/peg/openmp.peg
@@ -41,7 +41,7 @@ clause <-
   / "ordered" {
     return std::vector<CallArg>{CallArg{"ordered", ast(Bool, LOC, true)}};
   }
-  / "collapse" {
+  / "collapse" _ "(" _ int _ ")" {
     return std::vector<CallArg>{CallArg{"collapse", ast(Int, LOC, ac<int>(V0))}};
   }
   / "gpu" {
-- 
2.43.0


From bb9cc7d01f6c96febf44c19adb5bc5847d6cb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 03/28] fix: store task privates at the offset the task routine
 reads them from

---
 stdlib/openmp.codon | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stdlib/openmp.codon b/stdlib/openmp.codon
index b333d80..7eaeae3 100644
--- a/stdlib/openmp.codon
+++ b/stdlib/openmp.codon
@@ -511,7 +511,6 @@ def _spawn_and_run_task(
     TaskThunk = TaskWithPrivates[P]
     flags = 1
     size_of_kmp_task_t = sizeof(TaskThunk)
-    size_of_privs = sizeof(P)
     size_of_shareds = sizeof(S)
     loc_ref = _default_loc()
 
@@ -524,8 +523,7 @@ def _spawn_and_run_task(
         shared_ptr = task[0].task.shareds
         str.memcpy(shared_ptr, __ptr__(shared).as_byte(), size_of_shareds)
     if static.len(priv) != 0:
-        priv_ptr = task.as_byte() + sizeof(Task)
-        str.memcpy(priv_ptr, __ptr__(priv).as_byte(), size_of_privs)
+        task[0] = TaskThunk(task[0].task, priv)
 
     _task_run(loc_ref, gtid, task.as_byte())
 
-- 
2.43.0


From a2a62a6eb749015e2318c9c457ea23ddf4cef566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 04/28] fix: pass captured variables of parallel loops as the
 nested tuple the template expects

---
 codon/cir/transform/parallel/openmp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/codon/cir/transform/parallel/openmp.cpp b/codon/cir/transform/parallel/openmp.cpp
index f186134..bc8b545 100644
--- a/codon/cir/transform/parallel/openmp.cpp
+++ b/codon/cir/transform/parallel/openmp.cpp
@@ -1620,10 +1620,8 @@ void OpenMPPass::handle(ImperativeForFlow *v) {
     auto *chunk = (sched->chunk && sched->chunk->getType()->is(types.i64))
                       ? sched->chunk
                       : M->getInt(1);
-    std::vector<Value *> forkExtraArgs = {chunk, v->getStart(), v->getEnd()};
-    for (auto *arg : extraArgs) {
-      forkExtraArgs.push_back(arg);
-    }
+    std::vector<Value *> forkExtraArgs = {chunk, v->getStart(), v->getEnd(),
+                                          util::makeTuple(extraArgs, M)};
 
     // fork call
     auto forkData = createForkCall(M, types, rawTemplateFunc, forkExtraArgs, sched);
-- 
2.43.0


From 5ba808ac0d95b676be9489651daf4fc1e7ba1332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 05/28] fix: keep assignments to the loop variable from
 changing the iterations of a parallel loop

---
 stdlib/openmp.codon | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/stdlib/openmp.codon b/stdlib/openmp.codon
index 7eaeae3..50cfd6a 100644
--- a/stdlib/openmp.codon
+++ b/stdlib/openmp.codon
@@ -372,12 +372,13 @@ def _static_loop_outline_template(gtid_ptr: Ptr[i32], btid_ptr: Ptr[i32], args):
     last, subloop, stride = _static_init(
         static_loop_loc_ref, gtid, schedtype=schedule, loop=loop, incr=1, chunk=1
     )
-    i = subloop.start
+    k = subloop.start
     stop = min(subloop.stop, loop.stop) if step >= 0 else max(subloop.stop, loop.stop)
 
-    while (step >= 0 and i < stop) or (step < 0 and i > stop):
+    while (step >= 0 and k < stop) or (step < 0 and k > stop):
+        i = k  # loop body might assign to the loop variable
         _loop_body_stub(i, extra)
-        i += step
+        k += step
     _static_fini(static_loop_loc_ref, gtid)
 
     if last:
@@ -429,10 +430,11 @@ def _static_chunked_loop_outline_template(gtid_ptr: Ptr[i32], btid_ptr: Ptr[i32]
     stop = min(subloop.stop, loop.stop) if step >= 0 else max(subloop.stop, loop.stop)
 
     while (step >= 0 and start < loop.stop) or (step < 0 and start > loop.stop):
-        i = start
-        while (step >= 0 and i < stop) or (step < 0 and i > stop):
+        k = start
+        while (step >= 0 and k < stop) or (step < 0 and k > stop):
+            i = k  # loop body might assign to the loop variable
             _loop_body_stub(i, extra)
-            i += step
+            k += step
 
         start += stride * step
         stop += stride * step
@@ -490,10 +492,11 @@ def _dynamic_loop_outline_template(gtid_ptr: Ptr[i32], btid_ptr: Ptr[i32], args)
         more, last, subloop = _dynamic_next(loc_ref, gtid, loop)
         if not more:
             break
-        i = subloop.start
-        while (step >= 0 and i < subloop.stop) or (step < 0 and i > subloop.stop):
+        k = subloop.start
+        while (step >= 0 and k < subloop.stop) or (step < 0 and k > subloop.stop):
+            i = k  # loop body might assign to the loop variable
             _loop_body_stub(i, extra)
-            i += step
+            k += step
             if ordered:
                 _dynamic_fini(loc_ref, gtid)
         if last:
-- 
2.43.0


From 22178e12251a5c5bfecc4fb192bca06ebc29cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 06/28] fix: do not collapse loop nests whose inner bounds
 depend on an outer loop

---
 codon/cir/transform/parallel/openmp.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/codon/cir/transform/parallel/openmp.cpp b/codon/cir/transform/parallel/openmp.cpp
index bc8b545..d61de55 100644
--- a/codon/cir/transform/parallel/openmp.cpp
+++ b/codon/cir/transform/parallel/openmp.cpp
@@ -1314,6 +1314,18 @@ struct LoopRange {
   Var *len;
 };
 
+bool usesVar(Value *value, Var *var) {
+  for (auto *used : value->getUsedVariables()) {
+    if (used->getId() == var->getId())
+      return true;
+  }
+  for (auto *child : value->getUsedValues()) {
+    if (usesVar(child, var))
+      return true;
+  }
+  return false;
+}
+
 CollapseResult collapseLoop(BodiedFunc *parent, ImperativeForFlow *v, int64_t levels) {
   auto fail = [](const std::string &error) {
     CollapseResult bad;
@@ -1337,6 +1349,12 @@ CollapseResult collapseLoop(BodiedFunc *parent, ImperativeForFlow *v, int64_t le
       return fail("loop nest not collapsible");
 
     curr = cast<ImperativeForFlow>(body->front());
+    // bounds are computed before the collapsed loop, so cannot depend on outer loops
+    for (auto *outer : loopNests) {
+      if (usesVar(curr->getStart(), outer->getVar()) ||
+          usesVar(curr->getEnd(), outer->getVar()))
+        return fail("loop bounds depend on an outer loop");
+    }
     loopNests.push_back(curr);
   }
 
-- 
2.43.0


From a0825e18de17491d40289661c938d7cc1248444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 07/28] fix: start float min/max reductions at the infinities

---
 codon/cir/transform/parallel/openmp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codon/cir/transform/parallel/openmp.cpp b/codon/cir/transform/parallel/openmp.cpp
index d61de55..8570f10 100644
--- a/codon/cir/transform/parallel/openmp.cpp
+++ b/codon/cir/transform/parallel/openmp.cpp
@@ -147,9 +147,9 @@ struct Reduction {
       case Kind::MUL:
         return M->getFloat(1.);
       case Kind::MIN:
-        return M->getFloat(std::numeric_limits<double>::max());
+        return M->getFloat(std::numeric_limits<double>::infinity());
       case Kind::MAX:
-        return M->getFloat(std::numeric_limits<double>::min());
+        return M->getFloat(-std::numeric_limits<double>::infinity());
       default:
         return nullptr;
       }
@@ -165,10 +165,10 @@ struct Reduction {
         value = 1.0;
         break;
       case Kind::MIN:
-        value = std::numeric_limits<float>::max();
+        value = std::numeric_limits<float>::infinity();
         break;
       case Kind::MAX:
-        value = std::numeric_limits<float>::min();
+        value = -std::numeric_limits<float>::infinity();
         break;
       default:
         return nullptr;
-- 
2.43.0


From 502dfdafac941162e494e2772c5e1d9747a179ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 08/28] fix: use the identity of the operator for reductions of
 bool and sized integers

---
 codon/cir/transform/parallel/openmp.cpp | 45 +++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/codon/cir/transform/parallel/openmp.cpp b/codon/cir/transform/parallel/openmp.cpp
index 8570f10..6f33cf9 100644
--- a/codon/cir/transform/parallel/openmp.cpp
+++ b/codon/cir/transform/parallel/openmp.cpp
@@ -175,6 +175,51 @@ struct Reduction {
       }
 
       return (*f32)(*M->getFloat(value));
+    } else if (isA<types::BoolType>(type)) {
+      switch (kind) {
+      case Kind::AND:
+        return M->getBool(true);
+      case Kind::OR:
+      case Kind::XOR:
+        return M->getBool(false);
+      default:
+        return nullptr;
+      }
+    } else if (auto *intN = cast<types::IntNType>(type)) {
+      const auto bits = intN->getLen();
+      int64_t value = 0;
+
+      switch (kind) {
+      case Kind::ADD:
+      case Kind::OR:
+      case Kind::XOR:
+        value = 0;
+        break;
+      case Kind::MUL:
+        value = 1;
+        break;
+      case Kind::AND:
+        value = ~0;
+        break;
+      case Kind::MIN:
+      case Kind::MAX:
+        if (bits > 64)
+          return nullptr;
+        if (!intN->isSigned())
+          value = (kind == Kind::MIN) ? ~0 : 0;
+        else if (kind == Kind::MIN)
+          value = std::numeric_limits<int64_t>::max() >> (64 - bits);
+        else
+          value = std::numeric_limits<int64_t>::min() >> (64 - bits);
+        break;
+      default:
+        return nullptr;
+      }
+
+      auto *init = (*type)(*M->getInt(value));
+      if (!init || !init->getType()->is(type))
+        return nullptr;
+      return init;
     }
 
     auto *init = (*type)();
-- 
2.43.0


From 03940822f085ad0382ee3a7dc572a96eae54616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 09/28] fix: run the finally blocks of all constructs left by
 return, exceptions and nested try statements

---
 codon/cir/llvm/llvisitor.cpp | 81 +++++++++++++++++++++++++++---------
 codon/cir/llvm/llvisitor.h   |  1 +
 2 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 189f59e..eca7c41 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -1477,9 +1477,28 @@ void LLVMVisitor::exitCatch() {
 }
 
 LLVMVisitor::TryCatchData *LLVMVisitor::getInnermostTryCatch() {
+  // inside an 'except' or 'else' block, the innermost construct that has to be left
+  // is the one whose 'finally' is pending, even though its 'try' has been exited
+  if (!finally.empty() && (trycatch.empty() || finally.back().sequenceNumber >
+                                                   trycatch.back().sequenceNumber))
+    return &finally.back();
   return trycatch.empty() ? nullptr : &trycatch.back();
 }
 
+size_t LLVMVisitor::getNumDelegates() {
+  int limit = -1;
+  for (auto &f : finally) {
+    bool inTry = std::any_of(trycatch.begin(), trycatch.end(), [&](const auto &tc) {
+      return tc.finallyBlock == f.finallyBlock;
+    });
+    if (!inTry)
+      limit = f.sequenceNumber;
+  }
+  return std::count_if(trycatch.begin(), trycatch.end(), [&](const auto &tc) {
+    return tc.sequenceNumber > limit;
+  });
+}
+
 LLVMVisitor::TryCatchData *LLVMVisitor::getInnermostTryCatchBeforeLoop() {
   if (!trycatch.empty() &&
       (loops.empty() || trycatch.back().sequenceNumber > loops.back().sequenceNumber))
@@ -2719,7 +2738,11 @@ bool anyMatch(types::Type *type, std::vector<types::Type *> types) {
 } // namespace
 
 void LLVMVisitor::visit(const TryCatchFlow *x) {
-  const bool isRoot = trycatch.empty();
+  // enclosing try-catches of this function to which exceptions can be delegated directly
+  // (i.e. without first leaving an 'except' or 'else' block with a pending 'finally')
+  const size_t delegateLimit = getNumDelegates();
+  auto *parent = getInnermostTryCatch();
+  const bool isRoot = !parent;
   const bool supportBreakAndContinue = !loops.empty();
   auto *finallyFlow = cast<SeriesFlow>(x->getFinally());
   const bool haveFinally = (finallyFlow && finallyFlow->begin() != finallyFlow->end());
@@ -2767,21 +2790,42 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
     B->CreateStore(B->getInt64(0), tc.delegateDepth);
     B->CreateStore(B->getInt64(-1), tc.loopSequence);
   } else {
-    tc.excFlag = trycatch[0].excFlag;
-    tc.catchStore = trycatch[0].catchStore;
-    tc.delegateDepth = trycatch[0].delegateDepth;
-    tc.retStore = trycatch[0].retStore;
-    tc.loopSequence = trycatch[0].loopSequence;
+    tc.excFlag = parent->excFlag;
+    tc.catchStore = parent->catchStore;
+    tc.delegateDepth = parent->delegateDepth;
+    tc.retStore = parent->retStore;
+    tc.loopSequence = parent->loopSequence;
   }
+  auto *parentFinallyBlock = isRoot ? nullptr : parent->finallyBlock;
+  auto parentSequenceNumber = isRoot ? -1 : parent->sequenceNumber;
 
   // translate finally
   block = tc.finallyBlock;
+  // the state is shared with the enclosing try-catches, whose other blocks may be part
+  // of 'finally' too, so what is pending has to be kept while 'finally' executes
+  std::vector<std::pair<llvm::Value *, llvm::Value *>> savedState;
+  if (!isRoot && haveFinally) {
+    B->SetInsertPoint(block);
+    auto save = [&](llvm::Value *ptr, llvm::Type *type) {
+      savedState.emplace_back(ptr, B->CreateLoad(type, ptr));
+    };
+    save(tc.excFlag, B->getInt8Ty());
+    save(tc.catchStore, padType);
+    save(tc.delegateDepth, B->getInt64Ty());
+    save(tc.loopSequence, B->getInt64Ty());
+    if (tc.retStore)
+      save(tc.retStore, func->getReturnType());
+    B->CreateStore(excStateNotThrown, tc.excFlag);
+    B->CreateStore(B->getInt64(0), tc.delegateDepth);
+  }
   process(x->getFinally());
   auto *finallyBlock = block;
   B->SetInsertPoint(finallyBlock);
+  for (auto &p : savedState)
+    B->CreateStore(p.second, p.first);
   auto *excFlagRead = B->CreateLoad(B->getInt8Ty(), tc.excFlag);
 
-  if (!isRoot) {
+  if (delegateLimit > 0) {
     auto *depthRead = B->CreateLoad(B->getInt64Ty(), tc.delegateDepth);
     auto *delegate = B->CreateICmpSGT(depthRead, B->getInt64(0));
     auto *finallyNormal =
@@ -2810,8 +2854,7 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
 
     B->CreateStore(finallyCaughtResult, tc.catchStore);
     B->CreateStore(excStateRethrow, tc.excFlag);
-    auto *depthMax = B->getInt64(trycatch.size());
-    B->CreateStore(depthMax, tc.delegateDepth);
+    B->CreateStore(B->getInt64(0), tc.delegateDepth);
     B->CreateBr(tc.finallyBlock);
   } else {
     B->CreateUnreachable();
@@ -2838,12 +2881,10 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
       B->CreateRetVoid();
     }
   } else {
-    theSwitch->addCase(excStateReturn, trycatch.back().finallyBlock);
+    theSwitch->addCase(excStateReturn, parentFinallyBlock);
   }
 
   if (supportBreakAndContinue) {
-    auto prevSeq = isRoot ? -1 : trycatch.back().sequenceNumber;
-
     auto *finallyBreak =
         llvm::BasicBlock::Create(*context, "trycatch.finally.break", func);
     auto *finallyBreakDone =
@@ -2870,11 +2911,9 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
         B->CreateSwitch(B->CreateLoad(B->getInt64Ty(), tc.loopSequence), endBlock, 0);
 
     for (auto &l : loops) {
-      if (!trycatch.empty() && l.sequenceNumber < prevSeq) {
-        breakSwitch->addCase(B->getInt64(l.sequenceNumber),
-                             trycatch.back().finallyBlock);
-        continueSwitch->addCase(B->getInt64(l.sequenceNumber),
-                                trycatch.back().finallyBlock);
+      if (!isRoot && l.sequenceNumber < parentSequenceNumber) {
+        breakSwitch->addCase(B->getInt64(l.sequenceNumber), parentFinallyBlock);
+        continueSwitch->addCase(B->getInt64(l.sequenceNumber), parentFinallyBlock);
       } else {
         breakSwitch->addCase(B->getInt64(l.sequenceNumber), finallyBreakDone);
         breakDoneSwitch->addCase(B->getInt64(l.sequenceNumber), l.breakBlock);
@@ -2934,6 +2973,10 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
   B->SetInsertPoint(unwindResumeBlock);
   if (DisableExceptions) {
     B->CreateUnreachable();
+  } else if (!isRoot && delegateLimit == 0) {
+    // leaving an 'except' or 'else' block of the parent
+    B->CreateStore(excStateRethrow, tc.excFlag);
+    B->CreateBr(parentFinallyBlock);
   } else {
     B->CreateResume(B->CreateLoad(padType, tc.catchStore));
   }
@@ -2946,7 +2989,7 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
 
   unsigned catchAllDepth = 0;
   for (auto it = trycatch.rbegin(); it != trycatch.rend(); ++it) {
-    if (catchAll) // can't ever delegate past catch-all
+    if (catchAll || depth > delegateLimit) // can't ever delegate past catch-all
       break;
 
     seqassertn(it->catchTypes.size() == it->handlers.size(), "handler mismatch");
@@ -2996,7 +3039,7 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
   auto *unwindException = B->CreateExtractValue(caughtResultOrUndef, 0);
   B->CreateStore(caughtResultOrUndef, tc.catchStore);
   B->CreateStore(excStateThrown, tc.excFlag);
-  auto *depthMax = B->getInt64(trycatch.size());
+  auto *depthMax = B->getInt64(delegateLimit);
   B->CreateStore(depthMax, tc.delegateDepth);
 
   auto *unwindExceptionClass = B->CreateLoad(
diff --git a/codon/cir/llvm/llvisitor.h b/codon/cir/llvm/llvisitor.h
index 6a3a020..e0fa431 100644
--- a/codon/cir/llvm/llvisitor.h
+++ b/codon/cir/llvm/llvisitor.h
@@ -211,6 +211,7 @@ private:
   void enterCatch(CatchData data);
   void exitCatch();
   TryCatchData *getInnermostTryCatch();
+  size_t getNumDelegates();
   TryCatchData *getInnermostTryCatchBeforeLoop();
 
   // Global constructor setup
-- 
2.43.0


From 5ace2694c8afc76b7375907cdae00af42ecc7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 10/28] fix: rethrow pending exceptions after a generator was
 suspended in a finally block

---
 codon/cir/llvm/llvisitor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index eca7c41..5d9ff2a 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -2977,6 +2977,13 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
     // leaving an 'except' or 'else' block of the parent
     B->CreateStore(excStateRethrow, tc.excFlag);
     B->CreateBr(parentFinallyBlock);
+  } else if (coro.exit && haveFinally) {
+    // the coroutine may have been suspended since the exception was caught, in which
+    // case there is no landing pad in the resumed function to continue unwinding from
+    auto throwFunc = makeThrowFunc();
+    auto *exc = B->CreateExtractValue(B->CreateLoad(padType, tc.catchStore), 0);
+    B->CreateCall(throwFunc, exc);
+    B->CreateUnreachable();
   } else {
     B->CreateResume(B->CreateLoad(padType, tc.catchStore));
   }
-- 
2.43.0


From 419b11ea69d9a20f07f0f0652450f90cafb2243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 11/28] fix: let break and continue in a loop's else clause
 refer to the enclosing loop

---
 codon/parser/visitors/typecheck/loops.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/codon/parser/visitors/typecheck/loops.cpp b/codon/parser/visitors/typecheck/loops.cpp
index a4a33cd..122f2ff 100644
--- a/codon/parser/visitors/typecheck/loops.cpp
+++ b/codon/parser/visitors/typecheck/loops.cpp
@@ -84,6 +84,8 @@ void TypecheckVisitor::visit(WhileStmt *stmt) {
   stmt->suite = SuiteStmt::wrap(transform(stmt->getSuite()));
   ctx->blockLevel--;
   ctx->staticLoops.pop_back();
+  // any break or continue within the else clause refers to the enclosing loop
+  ctx->getBase()->loops.pop_back();
 
   // Complete while-else clause
   if (stmt->getElse() && stmt->getElse()->firstInBlock()) {
@@ -91,7 +93,6 @@ void TypecheckVisitor::visit(WhileStmt *stmt) {
     stmt->elseSuite = nullptr;
     resultStmt = transform(N<SuiteStmt>(stmt, N<IfStmt>(N<IdExpr>(breakVar), es)));
   }
-  ctx->getBase()->loops.pop_back();
 
   if (stmt->getCond()->isDone() && stmt->getSuite()->isDone())
     stmt->setDone();
@@ -198,6 +199,8 @@ void TypecheckVisitor::visit(ForStmt *stmt) {
 
   if (ctx->getBase()->getLoop()->flat)
     stmt->flat = true;
+  // any break or continue within the else clause refers to the enclosing loop
+  ctx->getBase()->loops.pop_back();
 
   // Complete for-else clause
   if (stmt->getElse() && stmt->getElse()->firstInBlock()) {
@@ -208,8 +211,6 @@ void TypecheckVisitor::visit(ForStmt *stmt) {
     stmt->elseSuite = nullptr;
   }
 
-  ctx->getBase()->loops.pop_back();
-
   if (stmt->getIter()->isDone() && stmt->getSuite()->isDone())
     stmt->setDone();
 }
-- 
2.43.0


From f18911b71adc71c8b8202bf9b452924f83bbf2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 12/28] fix: execute the else clause of for loops over
 heterogeneous tuples

---
 codon/parser/visitors/typecheck/loops.cpp | 25 +++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/codon/parser/visitors/typecheck/loops.cpp b/codon/parser/visitors/typecheck/loops.cpp
index 122f2ff..6c038b4 100644
--- a/codon/parser/visitors/typecheck/loops.cpp
+++ b/codon/parser/visitors/typecheck/loops.cpp
@@ -262,6 +262,8 @@ Expr *TypecheckVisitor::transformForDecorator(Expr *decorator) {
 ///        while loop:
 ///          i = x; <suite>; break
 ///        loop = False   # also set to False on break
+/// If the loop has an else clause, it is guarded by a variable that is set just before
+/// the final `loop = False` if no break was executed.
 /// If a loop is flat, while wrappers are removed.
 /// A separate suite is generated for each static iteration.
 std::pair<bool, Stmt *> TypecheckVisitor::transformStaticForLoop(const ForStmt *stmt) {
@@ -288,6 +290,11 @@ std::pair<bool, Stmt *> TypecheckVisitor::transformStaticForLoop(const ForStmt *
   if (delay)
     return {true, nullptr};
 
+  Stmt *elseSuite = nullptr;
+  if (stmt->getElse() && stmt->getElse()->firstInBlock())
+    elseSuite = clean_clone(stmt->getElse());
+  auto noBreakVar = getTemporaryVar("no_break");
+
   // Close the loop
   auto block = N<SuiteStmt>();
   block->addStmt(preamble);
@@ -296,13 +303,27 @@ std::pair<bool, Stmt *> TypecheckVisitor::transformStaticForLoop(const ForStmt *
   Stmt *loop = nullptr;
   if (!stmt->flat) {
     ctx->blockLevel++;
+    if (elseSuite) {
+      // loop is False at this point iff it was left by a break
+      auto e = N<AssignStmt>(N<IdExpr>(noBreakVar), N<IdExpr>(loopVar));
+      e->setUpdate();
+      block->addStmt(e);
+    }
     auto a = N<AssignStmt>(N<IdExpr>(loopVar), N<BoolExpr>(false));
     a->setUpdate();
     block->addStmt(a);
-    loop = transform(N<SuiteStmt>(N<AssignStmt>(N<IdExpr>(loopVar), N<BoolExpr>(true)),
-                                  N<WhileStmt>(N<IdExpr>(loopVar), block)));
+    auto whole = N<SuiteStmt>(N<AssignStmt>(N<IdExpr>(loopVar), N<BoolExpr>(true)));
+    if (elseSuite)
+      whole->addStmt(N<AssignStmt>(N<IdExpr>(noBreakVar), N<BoolExpr>(true)));
+    whole->addStmt(N<WhileStmt>(N<IdExpr>(loopVar), block));
+    loop = transform(whole);
     ctx->blockLevel--;
+    if (elseSuite)
+      loop = N<SuiteStmt>(loop,
+                          transform(N<IfStmt>(N<IdExpr>(noBreakVar), elseSuite)));
   } else {
+    if (elseSuite)
+      block->addStmt(elseSuite);
     loop = transform(block);
   }
   return {false, loop};
-- 
2.43.0


From 3b115b5bf88f293a0efcfd38d6fcd4fea3b83ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 13/28] fix: never resume an exhausted generator

---
 codon/cir/llvm/llvisitor.cpp          | 3 ++-
 stdlib/internal/types/generator.codon | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 5d9ff2a..11d17f2 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -2641,7 +2641,8 @@ void LLVMVisitor::visit(const ForFlow *x) {
   process(x->getIter());
   auto *iter = value;
   B->SetInsertPoint(block);
-  B->CreateBr(condBlock);
+  // the generator might already be exhausted, in which case it can't be resumed
+  B->CreateCondBr(B->CreateCall(coroDone, iter), cleanupBlock, condBlock);
 
   block = condBlock;
   call(coroResume, {iter});
diff --git a/stdlib/internal/types/generator.codon b/stdlib/internal/types/generator.codon
index 54bfb3e..3a0aa28 100644
--- a/stdlib/internal/types/generator.codon
+++ b/stdlib/internal/types/generator.codon
@@ -15,6 +15,9 @@ class Generator:
         pass
 
     def done(self) -> bool:
+        # an exhausted generator can't be resumed
+        if self.__done__():
+            return True
         self.__resume__()
         return self.__done__()
 
@@ -62,9 +65,13 @@ class Generator:
         return Ptr._ptr_to_str(self.__raw__(), "generator")
 
     def send(self, what: T) -> T:
+        if self.__done__():
+            raise StopIteration()
         p = self.__promise__()
         p[0] = what
         self.__resume__()
+        if self.__done__():
+            raise StopIteration()
         return p[0]
 
     @nocapture
-- 
2.43.0


From b7eae106104db5e308c41cc7192e4bb5feb54eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 14/28] fix: stop zip from advancing further iterators once one
 is exhausted

---
 stdlib/internal/builtin.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/builtin.codon b/stdlib/internal/builtin.codon
index eea6672..fe558f8 100644
--- a/stdlib/internal/builtin.codon
+++ b/stdlib/internal/builtin.codon
@@ -200,7 +200,7 @@ def zip(*args):
         done = False
         while not done:
             for i in iters:
-                if i.done():
+                if not done and i.done():
                     done = True
             if not done:
                 yield tuple(i.__next__() for i in iters)
-- 
2.43.0


From 5cef640c959e619ebd41293985a45480ae1ffa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 15/28] fix: stop islice from consuming an element past its
 stop

---
 stdlib/itertools.codon | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stdlib/itertools.codon b/stdlib/itertools.codon
index 3c9a121..a532fb3 100644
--- a/stdlib/itertools.codon
+++ b/stdlib/itertools.codon
@@ -114,12 +114,15 @@ def islice(iterable: Generator[T], stop: Optional[int], T: type) -> Generator[T]
         raise ValueError(
             "Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize."
         )
+    if stop is not None and stop.__val__() == 0:
+        return
     i = 0
     for x in iterable:
-        if stop is not None and i >= stop.__val__():
-            break
         yield x
         i += 1
+        # don't consume more elements than requested
+        if stop is not None and i >= stop.__val__():
+            break
 
 @overload
 def islice(
-- 
2.43.0


From 6949abe50075a60643009c2e57cbfe99bc306ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 16/28] fix: keep sum, any and all of generators with clean-up
 code as loops over the generator

---
 codon/cir/transform/pythonic/generator.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/codon/cir/transform/pythonic/generator.cpp b/codon/cir/transform/pythonic/generator.cpp
index d5aef56..ef40a72 100644
--- a/codon/cir/transform/pythonic/generator.cpp
+++ b/codon/cir/transform/pythonic/generator.cpp
@@ -28,6 +28,13 @@ bool isAll(Func *f) {
          f->getName().rfind(ast::getMangledFunc("std.internal.builtin", "all"), 0) == 0;
 }
 
+// Whether leaving the given try-catch executes clean-up code. A return or an abandoned
+// generator then isn't the same as a return from the transformed function.
+bool hasFinally(TryCatchFlow *v) {
+  auto *finally = cast<SeriesFlow>(v->getFinally());
+  return finally && finally->begin() != finally->end();
+}
+
 // Replaces yields with updates to the accumulator variable.
 struct GeneratorSumTransformer : public util::Operator {
   Var *accumulator;
@@ -71,6 +78,11 @@ struct GeneratorSumTransformer : public util::Operator {
   }
 
   void handle(YieldInInstr *v) override { valid = false; }
+
+  void handle(TryCatchFlow *v) override {
+    if (hasFinally(v))
+      valid = false;
+  }
 };
 
 // Replaces yields with conditional returns of the any/all answer.
@@ -112,6 +124,11 @@ struct GeneratorAnyAllTransformer : public util::Operator {
   }
 
   void handle(YieldInInstr *v) override { valid = false; }
+
+  void handle(TryCatchFlow *v) override {
+    if (hasFinally(v))
+      valid = false;
+  }
 };
 
 Func *genToSum(BodiedFunc *gen, types::Type *startType, types::Type *outType) {
-- 
2.43.0


From 62ab9f3b5a314c228ff14d065f06ee5f044d4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 17/28] fix: keep evaluating the operand when folding int
 multiplication or division with zero

---
 codon/cir/transform/folding/const_fold.cpp |  6 ++++--
 codon/cir/transform/folding/rule.h         | 13 +++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 1146d9a..976236e 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -236,8 +236,10 @@ void FoldingPass::registerStandardRules(Module *m) {
   registerRule(
       "int-floor-div-by-one",
       intSingleRule(m, 1, id_val(m), Module::FLOOR_DIV_MAGIC_NAME, Kind::RIGHT));
-  registerRule("int-zero-floor-div",
-               intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
+  if (!pyNumerics) { // division by zero raises with Python numerics
+    registerRule("int-zero-floor-div",
+                 intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
+  }
   registerRule("int-pos", intNoOp(m, Module::POS_MAGIC_NAME));
   registerRule("int-double-neg", intDoubleApplyNoOp(m, Module::NEG_MAGIC_NAME));
   registerRule("int-double-inv", intDoubleApplyNoOp(m, Module::INVERT_MAGIC_NAME));
diff --git a/codon/cir/transform/folding/rule.h b/codon/cir/transform/folding/rule.h
index 16b1fe8..b36051c 100644
--- a/codon/cir/transform/folding/rule.h
+++ b/codon/cir/transform/folding/rule.h
@@ -7,6 +7,7 @@
 
 #include "codon/cir/transform/pass.h"
 #include "codon/cir/transform/rewrite.h"
+#include "codon/cir/util/cloning.h"
 #include "codon/cir/util/irtools.h"
 
 namespace codon {
@@ -44,8 +45,16 @@ public:
                                 std::string magic, Kind kind, types::Type *type)
       : val(val), type(type), magic(std::move(magic)), kind(kind) {
     calc = [=](Value *v) -> Value * {
-      return v->getModule()->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), val,
-                                                             type);
+      auto *M = v->getModule();
+      Value *result = M->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), newVal, type);
+      if (isA<Const>(v) || isA<VarValue>(v))
+        return result;
+      // the operand's value is irrelevant but it must still be evaluated; dead code
+      // elimination removes it if it has no side effects
+      util::CloneVisitor cv(M);
+      auto *series = M->N<SeriesFlow>(v->getSrcInfo());
+      series->push_back(cv.clone(v));
+      return M->N<FlowInstr>(v->getSrcInfo(), series, result);
     };
   }
   /// Constructs a commutative rule.
-- 
2.43.0


From 28dd289648ff800c0d43b9c73f67bfe6b2d04a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 18/28] fix: treat slices with start past stop as empty in
 optimised list addition

---
 stdlib/internal/types/collections/list.codon | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 80bd536..0378304 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -506,9 +506,8 @@ class List:
             ans.len += n
         elif s.step is None:
             start, stop, step, length = s.adjust_indices(v.__len__())
-            n = stop - start
-            str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), n * sizeof(T))
-            ans.len += n
+            str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), length * sizeof(T))
+            ans.len += length
         else:
             start, stop, step, length = s.adjust_indices(v.__len__())
             for i in range(start, stop, step):
-- 
2.43.0


From 356fdc9ad186d65b5f165b8cd9d3f338d4a29926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 19/28] fix: keep evaluation order and non-constant defaults in
 optimised dict updates; empty result for negative string repeats

---
 codon/cir/transform/pythonic/dict.cpp        | 21 ++++++++++++++++++--
 stdlib/internal/str.codon                    |  2 ++
 stdlib/internal/types/collections/dict.codon |  7 +++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/codon/cir/transform/pythonic/dict.cpp b/codon/cir/transform/pythonic/dict.cpp
index 583a9f3..d50c846 100644
--- a/codon/cir/transform/pythonic/dict.cpp
+++ b/codon/cir/transform/pythonic/dict.cpp
@@ -21,7 +21,7 @@ struct GetCall {
   Value *dict = nullptr;
   /// the key, must not be a call
   Value *key = nullptr;
-  /// the default value, may be null
+  /// the default value, null for __getitem__
   Const *dflt = nullptr;
 };
 
@@ -53,6 +53,8 @@ GetCall analyzeGet(CallInstr *call) {
   // get calls have a default
   if (unmangled == "get" && std::distance(it, call->end()) == 1) {
     auto *dflt = cast<Const>(*it);
+    if (!dflt)
+      return {};
     return {func, dict, k, dflt};
   } else if (unmangled == "__getitem__" && std::distance(it, call->end()) == 0) {
     return {func, dict, k, nullptr};
@@ -61,6 +63,19 @@ GetCall analyzeGet(CallInstr *call) {
   // call is not correct
   return {};
 }
+
+/// Check whether a value can be evaluated before the dictionary is accessed rather
+/// than after, i.e. its evaluation neither changes the dictionary nor raises.
+/// @param v the value
+/// @return true if the value is made up of constants, variables and pure calls
+bool canEvaluateEarly(Value *v) {
+  if (isA<Const>(v) || isA<VarValue>(v))
+    return true;
+  auto *call = cast<CallInstr>(v);
+  auto *func = call ? util::getFunc(call->getCallee()) : nullptr;
+  return func && util::hasAttribute(func, util::PURE_ATTR) &&
+         std::all_of(call->begin(), call->end(), canEvaluateEarly);
+}
 } // namespace
 
 const std::string DictArithmeticOptimization::KEY = "core-pythonic-dict-arithmetic-opt";
@@ -104,8 +119,10 @@ void DictArithmeticOptimization::handle(CallInstr *v) {
     if (!getAnalysis.func)
       return;
 
-    // second argument can be any non-null value
+    // second argument will be evaluated before the dictionary access
     auto *secondValue = opCall->back();
+    if (!canEvaluateEarly(secondValue))
+      return;
 
     // verify that we are dealing with the same dictionary and key
     if (util::match(dictValue, getAnalysis.dict, false, true) &&
diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index 8f15446..8771735 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -107,6 +107,8 @@ class str:
             i -= 1
 
     def __mul__(self, x: int) -> str:
+        if x <= 0:
+            return ""
         total = x * self.len
         p = Ptr[byte](total)
         n = 0
diff --git a/stdlib/internal/types/collections/dict.codon b/stdlib/internal/types/collections/dict.codon
index b9d3fff..e48d654 100644
--- a/stdlib/internal/types/collections/dict.codon
+++ b/stdlib/internal/types/collections/dict.codon
@@ -194,8 +194,11 @@ class Dict:
             self._vals[x] = op(self._vals[x], other)
 
     def __dict_do_op__(self, key: K, other: Z, dflt: V, op: F, F: type, Z: type):
-        ret, x = self._kh_put(key)
-        self._vals[x] = op(dflt if ret != 0 else self._vals[x], other)
+        x = self._kh_get(key)
+        if x == self._kh_end():
+            self[key] = op(dflt, other)  # insert only once 'op' has succeeded
+        else:
+            self._vals[x] = op(self._vals[x], other)
 
     def update(self, other):
         if isinstance(other, Dict[K, V]):
-- 
2.43.0


From 68c902ac7b67b1b596b21d948f07635ae37ab0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 20/28] fix: assign captured parameters in place instead of
 shadowing them with an uninitialised variable

---
 codon/parser/visitors/scoping/scoping.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codon/parser/visitors/scoping/scoping.cpp b/codon/parser/visitors/scoping/scoping.cpp
index 1adc5e6..aa990fa 100644
--- a/codon/parser/visitors/scoping/scoping.cpp
+++ b/codon/parser/visitors/scoping/scoping.cpp
@@ -794,7 +794,11 @@ bool ScopingVisitor::visitName(const std::string &name, bool adding, ASTNode *ro
       }
     } else {
       if (auto i = in(ctx->childCaptures, name)) {
-        if (*i != BindingsAttribute::CaptureType::Global && ctx->functionScope) {
+        auto it = in(ctx->map, name);
+        bool isParam = it && !it->empty() && it->back().binding &&
+                       it->back().binding == ctx->functionScope;
+        if (!isParam && *i != BindingsAttribute::CaptureType::Global &&
+            ctx->functionScope) {
           auto newScope = std::vector<int>{ctx->scope[0].id};
           seqassert(ctx->scope.front().suite, "invalid suite");
           if (!ctx->scope.front().suite->hasAttribute(Attr::Bindings))
-- 
2.43.0


From 7f67e01542aa78f0eaa3d5a47928894733f6f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 21/28] fix: invalidate analyses of passes that fail part-way

---
 codon/cir/transform/manager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codon/cir/transform/manager.cpp b/codon/cir/transform/manager.cpp
index b949d9f..6779c2b 100644
--- a/codon/cir/transform/manager.cpp
+++ b/codon/cir/transform/manager.cpp
@@ -112,7 +112,14 @@ void PassManager::runPass(Module *module, const std::string &name) {
     }
 
     Timer timer("  ir pass    : " + meta.pass->getKey());
-    meta.pass->run(module);
+    try {
+      meta.pass->run(module);
+    } catch (...) {
+      // the pass may have changed the module before it failed
+      for (auto &inv : meta.invalidates)
+        invalidate(inv);
+      throw;
+    }
     timer.log();
 
     for (auto &inv : meta.invalidates)
-- 
2.43.0


From 9874f01c8c643cfefb8b9989810847e6e737eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 22/28] fix: enter loop bodies from the end of the loop
 condition in control-flow graphs

---
 codon/cir/analyze/dataflow/cfg.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 6563f9a..e98033d 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -195,11 +195,12 @@ void CFVisitor::visit(const WhileFlow *v) {
   auto *loopBegin = graph->newBlock("whileBegin", true);
   original->successors_insert(loopBegin);
   process(v->getCond());
-  graph->getCurrentBlock()->successors_insert(end);
+  auto *loopCheck = graph->getCurrentBlock(); // the condition may span several blocks
+  loopCheck->successors_insert(end);
 
   loopStack.emplace_back(loopBegin, end, v->getId(), tryCatchStack.size() - 1);
   auto *body = graph->newBlock("whileBody", true);
-  loopBegin->successors_insert(body);
+  loopCheck->successors_insert(body);
   process(v->getBody());
   loopStack.pop_back();
   graph->getCurrentBlock()->successors_insert(loopBegin);
-- 
2.43.0


From e0005bb0c84e7120d50cd94aa17f1976e0b8167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 23/28] fix: do not defer copying list addition operands past
 effects of later operands

---
 codon/cir/transform/pythonic/list.cpp | 54 ++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/codon/cir/transform/pythonic/list.cpp b/codon/cir/transform/pythonic/list.cpp
index 35fa800..200b9e7 100644
--- a/codon/cir/transform/pythonic/list.cpp
+++ b/codon/cir/transform/pythonic/list.cpp
@@ -6,6 +6,7 @@
 
 #include "codon/cir/util/cloning.h"
 #include "codon/cir/util/irtools.h"
+#include "codon/cir/util/side_effect.h"
 
 namespace codon {
 namespace ir {
@@ -50,7 +51,7 @@ struct ElementHandler {
     }
   }
 
-  static std::unique_ptr<ElementHandler> get(Value *v, types::Type *ty);
+  static std::unique_ptr<ElementHandler> get(Value *v, types::Type *ty, bool inPlace);
 };
 
 struct DefaultHandler : public ElementHandler {
@@ -180,9 +181,12 @@ struct LiteralHandler : public ElementHandler {
   }
 };
 
-std::unique_ptr<ElementHandler> ElementHandler::get(Value *v, types::Type *ty) {
-  if (auto h = SliceHandler::get(v, ty))
-    return std::move(h);
+std::unique_ptr<ElementHandler> ElementHandler::get(Value *v, types::Type *ty,
+                                                    bool inPlace) {
+  if (!inPlace) {
+    if (auto h = SliceHandler::get(v, ty))
+      return std::move(h);
+  }
 
   if (auto h = LiteralHandler::get(v, ty))
     return std::move(h);
@@ -190,6 +194,33 @@ std::unique_ptr<ElementHandler> ElementHandler::get(Value *v, types::Type *ty) {
   return DefaultHandler::get(v, ty);
 }
 
+// Checks (conservatively) that evaluating the given value cannot modify a list.
+bool isPassive(Value *v) {
+  if (isA<Const>(v) || isA<VarValue>(v))
+    return true;
+
+  if (auto *attr = v->getAttribute<ListLiteralAttribute>()) {
+    return std::all_of(attr->elements.begin(), attr->elements.end(),
+                       [](const auto &e) { return !e.star && isPassive(e.value); });
+  }
+
+  if (auto *c = cast<CallInstr>(v)) {
+    auto *func = util::getFunc(c->getCallee());
+    if (!func || !std::all_of(c->begin(), c->end(), isPassive))
+      return false;
+    if (util::hasAttribute(func, util::PURE_ATTR))
+      return true;
+    const auto name = func->getUnmangledName();
+    return (name == Module::NEW_MAGIC_NAME && isSlice(v)) ||
+           (name == Module::GETITEM_MAGIC_NAME && c->numArgs() == 2 &&
+            isList(c->front()) &&
+            (isSlice(c->back()) ||
+             c->back()->getType()->is(v->getModule()->getIntType())));
+  }
+
+  return false;
+}
+
 struct InspectionResult {
   bool valid = true;
   std::vector<Value *> args;
@@ -222,8 +253,19 @@ Value *optimize(BodiedFunc *parent, InspectionResult &r) {
   util::CloneVisitor cv(M);
   std::vector<std::unique_ptr<ElementHandler>> handlers;
 
-  for (auto *v : r.args) {
-    handlers.push_back(ElementHandler::get(cv.clone(v), ty));
+  // The optimized code copies elements only after all operands are evaluated. If an
+  // operand might modify the preceding ones, slices must hence be evaluated in place,
+  // and other lists must not need to be copied before that operand is evaluated.
+  auto last = r.args.size() - 1;
+  while (last > 0 && isPassive(r.args[last]))
+    --last;
+
+  for (size_t i = 0; i < r.args.size(); i++) {
+    auto *v = r.args[i];
+    if (i < last && last > 1 && !SliceHandler::get(v, ty) &&
+        !LiteralHandler::get(v, ty))
+      return nullptr;
+    handlers.push_back(ElementHandler::get(cv.clone(v), ty, /*inPlace=*/i < last));
   }
 
   auto *opt = M->Nr<SeriesFlow>();
-- 
2.43.0


From e00cf4da0cb938d2500f323d70b9f8b8c21c177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 24/28] fix: treat the later operands of comparison chains as
 conditional scopes

---
 codon/parser/ast/expr.h                   |  2 ++
 codon/parser/visitors/scoping/scoping.cpp | 13 +++++++++++++
 codon/parser/visitors/scoping/scoping.h   |  1 +
 3 files changed, 16 insertions(+)

diff --git a/codon/parser/ast/expr.h b/codon/parser/ast/expr.h
index b320808..e99de5e 100644
--- a/codon/parser/ast/expr.h
+++ b/codon/parser/ast/expr.h
@@ -396,6 +396,8 @@ struct ChainBinaryExpr : public AcceptorExtend<ChainBinaryExpr, Expr> {
   explicit ChainBinaryExpr(std::vector<std::pair<std::string, Expr *>> exprs = {});
   ChainBinaryExpr(const ChainBinaryExpr &, bool);
 
+  const std::vector<std::pair<std::string, Expr *>> &getExprs() const { return exprs; }
+
   ACCEPT(ChainBinaryExpr, ASTVisitor, exprs);
 
 private:
diff --git a/codon/parser/visitors/scoping/scoping.cpp b/codon/parser/visitors/scoping/scoping.cpp
index aa990fa..dd2645b 100644
--- a/codon/parser/visitors/scoping/scoping.cpp
+++ b/codon/parser/visitors/scoping/scoping.cpp
@@ -249,6 +249,19 @@ void ScopingVisitor::visit(BinaryExpr *expr) {
   }
 }
 
+void ScopingVisitor::visit(ChainBinaryExpr *expr) {
+  // The first two operands are always evaluated; the rest might be skipped
+  // (`a < b < c` is `a < b and b < c`).
+  const auto &exprs = expr->getExprs();
+  for (size_t i = 0; i < exprs.size(); i++) {
+    if (i < 2) {
+      CHECK(transform(exprs[i].second));
+    } else {
+      CHECK(transformScope(exprs[i].second));
+    }
+  }
+}
+
 void ScopingVisitor::visit(AssignExpr *expr) {
   seqassert(cast<IdExpr>(expr->getVar()),
             "only simple assignment expression are supported");
diff --git a/codon/parser/visitors/scoping/scoping.h b/codon/parser/visitors/scoping/scoping.h
index d4805d0..076640b 100644
--- a/codon/parser/visitors/scoping/scoping.h
+++ b/codon/parser/visitors/scoping/scoping.h
@@ -163,6 +163,7 @@ public:
   void visit(GeneratorExpr *) override;
   void visit(IfExpr *) override;
   void visit(BinaryExpr *) override;
+  void visit(ChainBinaryExpr *) override;
   void visit(LambdaExpr *) override;
   void visit(YieldExpr *) override;
   void visit(AssignExpr *) override;
-- 
2.43.0


From 4b85e6e464cbd37d872035fa91df80774db5c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:26 +0000
Subject: [PATCH 25/28] fix: do not auto-free an allocation that is carried to
 the next loop iteration

---
 codon/cir/llvm/optimize.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codon/cir/llvm/optimize.cpp b/codon/cir/llvm/optimize.cpp
index c0224f7..3cf2812 100644
--- a/codon/cir/llvm/optimize.cpp
+++ b/codon/cir/llvm/optimize.cpp
@@ -857,6 +857,12 @@ struct AllocationAutoFree : public llvm::PassInfoMixin<AllocationAutoFree> {
             if (call->getCalledFunction() && info.isFree(call->getCalledFunction()))
               return false;
 
+          // A PHI that can be reached without going through the allocation may hold
+          // the pointer from an earlier iteration, after it has been freed.
+          if (llvm::isa<llvm::PHINode>(Inst) &&
+              !DT.dominates(Alloc, Inst))
+            return false;
+
           if (llvm::isa<llvm::GetElementPtrInst>(Inst) ||
               llvm::isa<llvm::BitCastInst>(Inst) || llvm::isa<llvm::PHINode>(Inst) ||
               llvm::isa<llvm::SelectInst>(Inst)) {
-- 
2.43.0


From 26a09dc5c9f9f5a78760eefc0bf1272efe493e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:26 +0000
Subject: [PATCH 26/28] fix: do not auto-free before a terminator that uses the
 allocation

---
 codon/cir/llvm/optimize.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/codon/cir/llvm/optimize.cpp b/codon/cir/llvm/optimize.cpp
index 3cf2812..5e8a60b 100644
--- a/codon/cir/llvm/optimize.cpp
+++ b/codon/cir/llvm/optimize.cpp
@@ -834,6 +834,7 @@ struct AllocationAutoFree : public llvm::PassInfoMixin<AllocationAutoFree> {
     llvm::SmallVector<llvm::Value *, 8> Worklist;
     llvm::SmallPtrSet<llvm::Value *, 8> Visited;
     llvm::SmallVector<llvm::BasicBlock *, 8> UseBlocks;
+    llvm::SmallPtrSet<llvm::BasicBlock *, 8> TerminatorUses;
 
     // We need to find a basic block that:
     //   1. Post-dominates the allocation block (so we always free it)
@@ -870,6 +871,8 @@ struct AllocationAutoFree : public llvm::PassInfoMixin<AllocationAutoFree> {
           } else {
             // If this is a real use, record the block.
             UseBlocks.push_back(Inst->getParent());
+            if (Inst->isTerminator())
+              TerminatorUses.insert(Inst->getParent());
           }
         }
       }
@@ -904,6 +907,12 @@ struct AllocationAutoFree : public llvm::PassInfoMixin<AllocationAutoFree> {
       return false;
     }
 
+    // The free goes before the block's terminator, so the latter (e.g. an invoke)
+    // must not use the pointer.
+    if (TerminatorUses.contains(PostDomBlock)) {
+      return false;
+    }
+
     llvm::IRBuilder<> B(PostDomBlock->getTerminator());
     auto *FreeFunc = F.getParent()->getFunction(info.free);
     if (!FreeFunc) {
-- 
2.43.0


From 7c30b4fa92e6e601f9207ccfa518ca773feda83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 27/28] fix: give union types their name, so types built from
 different unions are not confused

---
 codon/cir/types/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/types/types.h b/codon/cir/types/types.h
index 4b7c743..74209f3 100644
--- a/codon/cir/types/types.h
+++ b/codon/cir/types/types.h
@@ -561,7 +561,7 @@ public:
   /// Constructs a UnionType.
   /// @param types the alternative types (must be sorted by caller)
   explicit UnionType(std::vector<types::Type *> types)
-      : AcceptorExtend(), types(std::move(types)) {}
+      : AcceptorExtend(getInstanceName(types)), types(std::move(types)) {}
 
   const_iterator begin() const { return types.begin(); }
   const_iterator end() const { return types.end(); }
-- 
2.43.0


From b1b3282d7d6a297cecbd223f1602e562b608b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 28/28] fix: do not lose data of a union member that falls into
 the padding of the largest member

---
 codon/cir/llvm/llvisitor.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 11d17f2..612a971 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -2280,22 +2280,25 @@ llvm::Type *LLVMVisitor::getLLVMType(types::Type *t) {
 
   if (auto *x = cast<types::UnionType>(t)) {
     auto &layout = M->getDataLayout();
-    llvm::Type *largest = nullptr;
     size_t maxSize = 0;
+    size_t maxAlign = 1;
 
     for (auto *t : *x) {
       auto *llvmType = getLLVMType(t);
-      size_t size = layout.getTypeAllocSizeInBits(llvmType);
-      if (!largest || size > maxSize) {
-        largest = llvmType;
-        maxSize = size;
-      }
+      maxSize = std::max<size_t>(maxSize, layout.getTypeAllocSize(llvmType));
+      maxAlign = std::max<size_t>(maxAlign, layout.getABITypeAlign(llvmType).value());
     }
 
-    if (!largest)
-      largest = llvm::StructType::get(*context, {});
+    // Union values are copied as a whole, and padding is not copied. So the payload
+    // must not be one of the types themselves: data of another type would be lost if
+    // it fell into the padding of that type.
+    llvm::Type *word = B->getIntNTy(8 * maxAlign);
+    if (layout.getABITypeAlign(word).value() != maxAlign ||
+        layout.getTypeAllocSize(word) != maxAlign)
+      word = llvm::FixedVectorType::get(B->getInt8Ty(), maxAlign);
+    auto *payload = llvm::ArrayType::get(word, (maxSize + maxAlign - 1) / maxAlign);
 
-    return llvm::StructType::get(*context, {B->getInt8Ty(), largest});
+    return llvm::StructType::get(*context, {B->getInt8Ty(), payload});
   }
 
   if (auto *x = cast<dsl::types::CustomType>(t)) {
-- 
2.43.0

