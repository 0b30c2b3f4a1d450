#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single place where properties are stated)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import sys
sys.path.insert(0, HERE)
from registry import MODULES

OMP = ["codon/cir/transform/parallel/openmp.cpp", "codon/cir/transform/parallel/schedule.cpp", "stdlib/openmp.codon",
       "codon/cir/transform/lowering/imperative.cpp", "codon/cir/util/outlining.cpp", "codon/parser/peg/openmp.peg"]
LL = ["codon/cir/llvm/llvisitor.cpp", "codon/cir/llvm/coro/Coroutines.cpp"]
RT = ["codon/runtime/lib.cpp", "codon/runtime/exc.cpp"]
TEST = ("The 85 tests are C++ unit tests of the IR data structures; none of them runs a compiled program, and a test could "
        "only sample ")

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, technique, level, note
P = [
 ("P01", "Parallel loops execute every iteration exactly once and join before continuing",
  "For every loop marked @par, whatever its iterable, schedule, chunk size, thread count, collapse depth or ordered clause, "
  "the set of iterations executed, each with the loop variable and captured variables it would have in the sequential loop, "
  "equals that of the sequential loop, each exactly once. All iterations complete before the statement after the loop runs. "
  "A variable assigned by the iterations and read after the loop holds the value of the sequentially last iteration "
  "(imperative loops) or of some iteration (task loops).",
  ["schedules", "programs", "inputs"], "all schedules of the team's threads, all loop shapes and clauses, all trip counts, "
  "chunk sizes and team sizes", TEST + "one schedule of a few loops", OMP,
  [("outlining of the body into a function", "codon/cir/util/outlining.cpp"),
   ("loop templates calling the OpenMP runtime", "stdlib/openmp.codon:_static_loop_outline_template.._task_loop_outline_template"),
   ("template instantiation, shared/private handling", "codon/cir/transform/parallel/openmp.cpp:OpenMPPass::handle")]),
 ("P02", "Parallel reductions equal the sequential result",
  "A variable updated in a @par loop only by one associative and commutative operator recognised as a reduction has, after the "
  "loop, the value the sequential loop would give. This holds for every type, operator, initial value, team size, schedule and "
  "reduction method the runtime may choose.",
  ["schedules", "programs", "inputs"], "all schedules, reduction methods, operand values and team sizes",
  TEST + "one interleaving of the combination step", OMP,
  [("reduction recognition and generation", "codon/cir/transform/parallel/openmp.cpp:Reduction,ReductionIdentifier"),
   ("runtime reduction entry points", "stdlib/openmp.codon:_reduce_nowait,_taskred_init"),
   ("atomic read-modify-write helpers", "stdlib/openmp.codon:_atomic_*")]),
 ("P03", "Locks and synchronisation constructs exclude, order and release correctly",
  "At most one thread is inside a critical section, a held lock or an ordered region at a time; re-entrant locks admit their "
  "owner; acquire reports success exactly when the lock is obtained and a timed acquire gives up no earlier than its timeout. "
  "single, master and ordered bodies run on the right threads, the right number of times and in order. A lock is released when "
  "its block is left by an exception, so no thread waits forever.",
  ["schedules", "fault_sequences", "programs"], "all interleavings of the competing threads, stalls of the holder, exceptions "
  "leaving the protected block", TEST + "one interleaving of two threads",
  ["stdlib/threading.codon", "stdlib/openmp.codon", "codon/runtime/lib.cpp"],
  [("Lock/RLock over the runtime's timed mutexes", "codon/runtime/lib.cpp:seq_lock_*,seq_rlock_*"),
   ("critical/single/master/ordered decorators", "stdlib/openmp.codon:critical,single,master,ordered")]),
 ("P04", "The event loop runs each callback once, in order; timers never fire early",
  "Every callback handed to the event loop and not cancelled runs exactly once, ready callbacks run in the order they were "
  "scheduled, and a timer's callback runs no earlier than its due time and in due-time order. Awaiting a task or future "
  "returns its result or raises its exception to every waiter; a program that only awaits things that finish terminates.",
  ["schedules", "histories", "programs"], "all programs of tasks, futures, timers, gathers and locks, all due times, all "
  "clock advances between steps", TEST + "a few real-time sleeps", ["stdlib/asyncio.codon"],
  [("ready queue and timer heap", "stdlib/asyncio.codon:EventLoop"), ("task stepping", "stdlib/asyncio.codon:Task"),
   ("coroutine lowering", "codon/cir/llvm/llvisitor.cpp")]),
 ("P05", "Cancellation, timeouts and failures reach the right asynchronous task only",
  "Cancelling a task, or a timeout expiring, delivers a cancellation to that task at its next suspension point and runs its "
  "clean-up code; the awaiting code sees it as cancellation or timeout. Tasks that are not cancelled are unaffected, and "
  "locks, queues and semaphores stay usable afterwards.",
  ["schedules", "fault_sequences", "histories"], "all points at which the cancellation, the timeout or the exception can land",
  TEST + "one cancellation point", ["stdlib/asyncio.codon"],
  [("cancellation", "stdlib/asyncio.codon:Task.cancel,Future.cancel"), ("timeouts", "stdlib/asyncio.codon:wait_for,Timeout")]),
 ("P06", "Exceptions run exactly the handlers and clean-up code Python semantics prescribe",
  "Wherever an exception is raised inside nested try, except, else, finally, with, loop and function constructs, the handlers, "
  "else and finally blocks and context-manager exits that run, their order and the final outcome are those of the Python "
  "language. This includes return, break and continue leaving try blocks, re-raising and exceptions raised by handlers.",
  ["fault_sequences", "programs"], "all programs of nested exception constructs and all subsets of fault points raising",
  TEST + "single fault points in hand-written programs", LL + ["codon/runtime/exc.cpp", "codon/cir/flow.cpp"],
  [("lowering of try/finally to landing pads and route blocks", "codon/cir/llvm/llvisitor.cpp:visit(TryCatchFlow)"),
   ("personality routine and unwinding", "codon/runtime/exc.cpp:seq_personality")]),
 ("P07", "Generators behave as Python generators under every driving sequence",
  "For every sequence of next, send, throw, close and abandonment applied to a generator, the values yielded, statements "
  "executed, exceptions observed and the done state are those of the Python language. Two generator objects never disturb each "
  "other's state.",
  ["histories", "fault_sequences", "programs"], "all generator bodies and driving histories, with faults inside the body",
  TEST + "straight-line for loops over generators", LL + ["stdlib/internal/types/generator.codon", "codon/runtime/exc.cpp"],
  [("coroutine frames", "codon/cir/llvm/llvisitor.cpp:makeLLVMFunction,visit(YieldInstr)"),
   ("generator methods", "stdlib/internal/types/generator.codon")]),
 ("P08", "Garbage collection is unobservable: reachable objects survive, whenever it runs",
  "Running a collection at any allocation, any number of times, and reusing all memory it frees, changes nothing a program "
  "can observe: objects reachable from locals, globals, closures, generator frames, exceptions in flight, containers, other "
  "threads' stacks or task captures keep their contents.",
  ["fault_sequences", "programs", "schedules"], "all placements of collections at allocation points, in every thread schedule",
  TEST + "heaps too small for the collector to run at all", ["codon/runtime/lib.cpp", "codon/cir/llvm/llvisitor.cpp",
  "stdlib/internal/gc.codon", "codon/cir/transform/cleanup/"],
  [("allocation entry points and root registration", "codon/runtime/lib.cpp:seq_alloc*,seq_gc_add_roots"),
   ("choice between scanned and atomic allocation", "codon/cir/llvm/llvisitor.cpp, stdlib/internal/gc.codon")]),
 ("P09", "File operations lose, duplicate or invent no data and report disk failures",
  "Whatever the sizes, buffering and modes, data read is what was written, in order, line by line or in blocks, and positions "
  "reported match. When the disk returns short or interrupted transfers the result is unchanged; when it fails or is full the "
  "program gets an error from the operation, the flush or the close, and never silently continues with missing data.",
  ["fault_sequences", "inputs", "histories"], "all operation histories and all placements of short, interrupted and failing "
  "reads, writes, seeks and closes", TEST + "a healthy disk", ["stdlib/internal/file.codon", "stdlib/internal/c_stubs.codon"],
  [("stdio wrappers", "stdlib/internal/file.codon:File"), ("error checks", "stdlib/internal/file.codon:_errcheck")]),
 ("P10", "The compiler reports success only when the artefact on disk is complete",
  "When compilation to an object, bitcode, IR or executable file succeeds, the file is complete and equal to the one written "
  "on a healthy disk. When the disk is full, fails or the linker fails, the compiler reports an error and exits unsuccessfully.",
  ["fault_sequences", "crash_points"], "all placements of open, write and close failures and of failing or killed tools",
  TEST + "no output path at all", ["codon/cir/llvm/llvisitor.cpp", "codon/compiler/compiler.cpp"],
  [("file writers", "codon/cir/llvm/llvisitor.cpp:writeToBitcodeFile,writeToObjectFile,writeToLLFile,writeToExecutable"),
   ("tool invocation", "codon/cir/llvm/llvisitor.cpp:executeCommand")]),
 ("P11", "Incremental (JIT) sessions behave as one program and survive failed inputs",
  "Executing inputs one after another in a session has the same effects as executing them as one program; an input that fails "
  "to parse, type-check or that raises leaves the session usable and earlier definitions intact, and the failure is reported.",
  ["histories", "fault_sequences"], "all histories of inputs, valid and failing", TEST + "no session",
  ["codon/compiler/jit.cpp", "codon/compiler/engine.cpp", "codon/cir/llvm/llvisitor.cpp"],
  [("incremental execution", "codon/compiler/jit.cpp:JIT::compile,JIT::run")]),
 ("P12", "Optimisation never changes observable behaviour",
  "A program compiled with and without IR and LLVM optimisation, or with any optimisation pass disabled, performs the same "
  "sequence of observable effects, under every injected exception, collection and schedule. This covers constant folding, "
  "propagation, dead-code elimination, inlining and the library-specific rewrites.",
  ["programs", "fault_sequences", "configurations"], "all programs and pass configurations, with faults at every point",
  TEST + "the result of single IR rewrites", ["codon/cir/transform/", "codon/cir/analyze/", "codon/cir/llvm/optimize.cpp"],
  [("pass pipeline", "codon/cir/transform/manager.cpp"), ("folding and propagation", "codon/cir/transform/folding/"),
   ("side-effect and capture analyses", "codon/cir/analyze/module/side_effect.cpp, codon/cir/analyze/dataflow/capture.cpp")]),
 ("P13", "The pass manager runs every pass once in order and never serves stale analyses",
  "For every registration history, each enabled pass runs in registration order the requested number of times, its required "
  "analyses are computed before it and after the last pass that could have invalidated them, and disabled passes never run. "
  "Registered keys are unique and requests for them are honoured.",
  ["histories", "configurations"], "all histories of registering, disabling and running passes and analyses with any "
  "dependency and invalidation sets", TEST + "a handful of fixed pipelines",
  ["codon/cir/transform/manager.cpp", "codon/cir/transform/pass.cpp", "codon/cir/transform/rewrite.cpp"],
  [("registration and dependency graph", "codon/cir/transform/manager.cpp:PassManager::registerPass,registerAnalysis"),
   ("invalidation", "codon/cir/transform/manager.cpp:PassManager::invalidate")]),
 ("P14", "Containers match their model, even when user code they call raises",
  "For every history of operations, lists, dictionaries, sets, deques and heaps contain exactly what the corresponding Python "
  "container would. When a user-defined hash, equality, comparison or key function raises in the middle of an operation, the "
  "container afterwards still satisfies its invariants and no element is lost or duplicated beyond what Python permits.",
  ["histories", "fault_sequences"], "all operation histories with an exception at any call-back", TEST + "no container",
  ["stdlib/internal/types/collections/", "stdlib/collections.codon", "stdlib/heapq.codon", "stdlib/algorithms/"],
  [("hash table", "stdlib/internal/types/collections/dict.codon, stdlib/internal/khash.codon"),
   ("list growth and sorting", "stdlib/internal/types/collections/list.codon, stdlib/algorithms/timsort.codon")]),
 ("P15", "Clocks, sleeps and timed waits follow the clock they promise",
  "A monotonic clock never goes back and is unaffected by wall-clock jumps; a sleep or timed wait lasts at least as long as "
  "requested and ends once the time has passed; conversions between time structures are consistent.",
  ["fault_sequences", "schedules"], "all wall-clock jumps, stalls and requested durations", TEST + "no clock",
  ["stdlib/time.codon", "codon/runtime/lib.cpp"],
  [("clock sources", "codon/runtime/lib.cpp:seq_time,seq_time_monotonic"), ("sleep", "stdlib/time.codon:sleep")]),
 ("P16", "Printing from several threads keeps every item whole, once and in order",
  "Each print call's text appears once in the output, whole runs written by one call are not torn, and each thread's prints "
  "appear in its program order; captured output contains exactly what was printed since the previous capture.",
  ["schedules"], "all interleavings of printing threads", TEST + "one thread", ["codon/runtime/lib.cpp", "stdlib/internal/core.codon"],
  [("print buffer lock", "codon/runtime/lib.cpp:seq_print_full")]),
 ("P17", "Compilation is deterministic",
  "Compiling the same program with the same options and environment produces the same output, whatever the addresses handed "
  "out by the allocator and the state of the process.",
  ["configurations"], "all allocator layouts and hash seeds", TEST + "one compilation",
  ["codon/parser/visitors/typecheck/", "codon/parser/visitors/translate/", "codon/cir/llvm/llvisitor.cpp"],
  [("ordered traversal of caches", "codon/parser/cache.cpp")]),
 ("P19", "Pipelines pass every item once, in order, and parallel stages join",
  "In a pipeline every item produced by a stage reaches each following stage exactly once and, without a parallel marker, in "
  "order; with a parallel marker all items have been processed when the pipeline statement ends.",
  ["schedules", "programs"], "all pipelines, stage kinds, schedules and buffer boundaries", TEST + "no pipeline",
  ["codon/cir/transform/lowering/pipeline.cpp", "codon/cir/llvm/llvisitor.cpp", "stdlib/internal/core.codon"],
  [("pipeline lowering", "codon/cir/transform/lowering/pipeline.cpp")]),
 ("P90", "Type checking accepts exactly the programs with a valid typing",
  "The type checker accepts a program if and only if a consistent assignment of types exists under the language rules, and "
  "instantiates generics with those types.", ["programs"], "all programs", TEST + "nothing of the type checker",
  ["codon/parser/visitors/typecheck/"], [("inference", "codon/parser/visitors/typecheck/infer.cpp")]),
 ("P91", "Numeric, string and array library functions return correct values",
  "Arithmetic, string, statistics and array functions return the mathematically or Python-prescribed result for every input.",
  ["inputs"], "all inputs", TEST + "nothing of the library", ["stdlib/math.codon", "stdlib/internal/types/str.codon", "stdlib/numpy/"],
  [("library functions", "stdlib/")]),
 ("P92", "GPU kernels compute what the sequential loop computes",
  "A loop or kernel compiled for the GPU has the effects of its sequential execution.", ["programs", "schedules"],
  "all kernels", TEST + "no GPU", ["codon/cir/llvm/gpu.cpp", "stdlib/gpu.codon"], [("PTX generation", "codon/cir/llvm/gpu.cpp")]),
]

NA = {
 "P90": "pure function of the program text: no time, I/O, concurrency or multi-party behaviour for a simulator to vary",
 "P91": "pure functions of their inputs: deterministic simulation has no schedule or fault to search over",
 "P92": "needs a CUDA device and the libdevice bitcode, neither of which exists in the sandbox; a stub device would execute none of the real code",
}
NOTES = {}


def main():
    lines, checks, na = [], [], []
    for pid, title, st, over, qt, why, files, mech in P:
        lines.append(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
                                 "why_tests_cant": why,
                                 "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}))
        assert len(title) <= 80, title
        if pid in MODULES:
            import importlib
            sys.path.insert(0, os.path.join(ROOT, "props"))
            import check
            m = check.campaign(pid)
            checks.append({"property": pid, "quick_cmd": f"python3 tools/check.py {pid} quick",
                           "thorough_cmd": f"python3 tools/check.py {pid} thorough",
                           "technique": getattr(m, "TECHNIQUE", "deterministic simulation: seeded search over schedules and "
                                                "injected faults"),
                           "level": m.LEVEL, "level_note": m.NOTE})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
    open(ROOT + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is taken at link time or in the generated code. tools/replay.py FILE "
                    "re-executes a recorded violation."}
    json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)


main()
