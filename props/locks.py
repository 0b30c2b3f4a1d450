"""P03: locks, re-entrant locks, critical/single/master/ordered sections and thread-local variables."""
import random
import simlib as S

ID, LEVEL = "P03", "exploration"
RULE = ("an evaluation is one simulated execution of a generated set of competing threads under one seeded schedule with "
        "stalls and exceptions at seeded points; distinct = different event history")
ASSUMPTIONS = ["threads are those of the parallel loops; the OpenMP runtime below the constructs is simulated",
               "the simulated mutex primitives implement the POSIX contract"]
NOTE = ("Real lock wrappers, constructs and lowering over simulated threads and primitives; every wait is visible to the "
        "scheduler, so a lost release shows up as a deadlock of the run.")
PROGRAMS = {"quick": 96, "thorough": 2000}
RUNS = {"quick": 70, "thorough": 250}

HDR = """from C import sim_log(int, int, int, int)
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
from C import sim_now() -> int
from C import sim_stall(int)
from C import sim_point(int) -> int
import openmp as omp
import threading as thr

A = thr.Lock()
B = thr.Lock()
R = thr.RLock()
cnt = [0, 0, 0, 0, 0]
tl: thr.ThreadLocal[int] = 0
TO = (0.0, 0.000001, 0.001, 2.5)

def bump(l: int):
    c = cnt[l]
    cnt[l] = c + 1

class Oops(Exception):
    def __init__(self):
        super().__init__("oops")

def fault(p: int):
    if sim_point(p) != 0:
        sim_log(23, p, 0, 0)
        raise Oops()

@omp.critical
def crit(i: int, st: int):
    sim_log(14, i, 0, 0)
    bump(3)
    if st > 0:
        sim_stall(st)
    fault(14)
    bump(3)
    sim_log(15, i, 0, 0)

@omp.critical
def crit2(i: int, st: int):
    sim_log(14, i, 1, 0)
    bump(3)
    bump(3)
    sim_log(15, i, 1, 0)

@omp.single
def single(i: int):
    sim_log(17, i, omp.get_thread_num(), 0)
    fault(17)

@omp.master
def master(i: int):
    sim_log(19, i, omp.get_thread_num(), 0)
    fault(19)

@omp.ordered
def ordered(i: int, st: int):
    sim_log(21, i, 0, 0)
    bump(4)
    if st > 0:
        sim_stall(st)
    bump(4)
    fault(21)
    sim_log(22, i, 0, 0)

def op_with(l: int, st: int):
    sim_log(10, l, -1, 0)
    with (A if l == 0 else B):
        sim_log(11, l, 1, 0)
        bump(l)
        if st > 0:
            sim_stall(st)
        try:
            fault(10)
            bump(l)
        finally:
            sim_log(12, l, 0, 0)
    sim_log(13, l, 0, 0)

def op_timed(l: int, to: int, st: int):
    sim_log(10, l, to, 0)
    ok = (A if l == 0 else B).acquire(timeout=TO[to])
    sim_log(11, l, int(ok), 0)
    if ok:
        try:
            bump(l)
            fault(11)
            if st > 0:
                sim_stall(st)
            bump(l)
        finally:
            sim_log(12, l, 0, 0)
            (A if l == 0 else B).release()
            sim_log(13, l, 0, 0)

def op_try(l: int, st: int):
    sim_log(10, l, -2, 0)
    ok = (A if l == 0 else B).acquire(False)
    sim_log(11, l, int(ok), 0)
    if ok:
        bump(l)
        if st > 0:
            sim_stall(st)
        bump(l)
        sim_log(12, l, 0, 0)
        (A if l == 0 else B).release()
        sim_log(13, l, 0, 0)

def op_nest(st: int):
    sim_log(10, 0, -1, 0)
    with A:
        sim_log(11, 0, 1, 0)
        sim_log(10, 1, -1, 0)
        with B:
            sim_log(11, 1, 1, 0)
            bump(0)
            bump(1)
            if st > 0:
                sim_stall(st)
            bump(1)
            sim_log(12, 1, 0, 0)
        sim_log(13, 1, 0, 0)
        bump(0)
        sim_log(12, 0, 0, 0)
    sim_log(13, 0, 0, 0)

def op_r(d: int, how: int, to: int, st: int):
    sim_log(10, 2, (-1, -2, to)[how], 0)
    ok = True
    if how == 0:
        R.acquire()
    elif how == 1:
        ok = R.acquire(False)
    else:
        ok = R.acquire(True, TO[to])
    sim_log(11, 2, int(ok), 0)
    if not ok:
        return
    try:
        c = cnt[2]
        if d > 0:
            op_r(d - 1, (how + d) % 3, to, st)
        elif st > 0:
            sim_stall(st)
        if d == 0:
            cnt[2] = c + 1
        fault(12)
    finally:
        sim_log(12, 2, 0, 0)
        R.release()
        sim_log(13, 2, 0, 0)

def op_again(l: int, to: int):
    sim_log(10, l, -1, 0)
    with (A if l == 0 else B):
        sim_log(11, l, 1, 0)
        bump(l)
        sim_log(10, l, to, 0)
        ok = (A if l == 0 else B).acquire(True, TO[to])
        sim_log(11, l, int(ok), 0)
        bump(l)
        sim_log(12, l, 0, 0)
    sim_log(13, l, 0, 0)

def op_bad():
    try:
        A.acquire(False, timeout=1.0)
        sim_log(40, 0, 0, 0)
    except ValueError:
        pass

def run(code: int, i: int):
    global tl
    k = code % 16
    p = (code // 16) % 16
    st = (0, 0, 0, 50000, 5000000, 3000000000)[(code // 256) % 6]
    try:
        if k == 0: op_with(p % 2, st)
        elif k == 1: op_timed(p % 2, (p // 2) % 4, st)
        elif k == 2: op_try(p % 2, st)
        elif k == 3: op_nest(st)
        elif k == 4: op_r(p % 3, (p // 3) % 3, p % 4, st)
        elif k == 5: crit(i, st)
        elif k == 6: crit2(i, st)
        elif k == 7:
            sim_log(16, i, omp.get_thread_num(), 0)
            single(i)
        elif k == 8:
            sim_log(18, i, omp.get_thread_num(), 0)
            master(i)
        elif k == 9:
            tl += 1
        elif k == 10: op_bad()
        elif k == 11: op_again(p % 2, (p // 2) % 4)
    except Oops:
        sim_log(24, i, 0, 0)

def script(i: int, no: int, base: int):
    j = 0
    n = sim_nargs() - base
    while j < no and n > 0:
        run(sim_arg(base + (i * no + j) % n), i)
        j += 1

def gen(n: int):
    for i in range(n):
        yield i

"""
NL = 5


def gen_program(rng):
    parts = [HDR]
    Ls = []
    for k in range(NL):
        kind = rng.choice(["range", "range", "ordered", "ordered", "gen", "list", "nested"])
        par = ["num_threads=nt"]
        if rng.random() < 0.7:
            par.append(f"schedule='{rng.choice(['static', 'dynamic', 'guided', 'runtime'])}'")
            if "runtime" not in par[-1] and rng.random() < 0.5:
                par.append(f"chunk_size={rng.choice([1, 2, 3])}")
        if kind == "ordered":
            par.append("ordered=True")
        it = {"range": "range(n)", "ordered": "range(n)", "gen": "gen(n)", "list": "src", "nested": "range(n)"}[kind]
        src = [f"def loop{k}(n: int, nt: int, no: int, base: int):"]
        if kind == "list":
            src.append("    src = list(range(n))")
        src += [f"    @par({', '.join(par)})", f"    for i in {it}:"]
        body = ["sim_log(2, i, 0, 0)", f"script(i, no, base)"]
        if kind == "ordered":
            body.insert(rng.randrange(1, 3), "try:\n            sim_log(20, i, 0, 0)\n            ordered(i, %d)\n        except Oops:\n            sim_log(24, i, 0, 0)"
                        % rng.choice([0, 0, 200000]))
        if kind == "nested":
            body = ["sim_log(2, i, 0, 0)", "@par(num_threads=2)", "for q in range(2):", "    script(i * 2 + q, no, base)"]
        src += ["        " + b for b in body]
        parts.append("\n".join(src) + "\n\n")
        Ls.append(kind)
    parts.append("def main():\n    k, n, nt, no = sim_arg(0), sim_arg(1), sim_arg(2), sim_arg(3)\n")
    parts.append("    omp.set_schedule('dynamic', 1)\n")
    if "nested" in Ls:
        parts.append("    omp.set_max_active_levels(sim_arg(4))\n")
    for k in range(NL):
        parts.append(f"    if k == {k}:\n        loop{k}(n, nt, no, 5)\n")
    parts.append("    for l in range(5):\n        sim_log(30, l, cnt[l], 0)\n")
    parts.append("    @par(num_threads=nt, schedule='static', chunk_size=1)\n    for i in range(nt):\n"
                 "        sim_log(31, omp.get_thread_num(), tl, 0)\n")
    parts.append("main()\n")
    return "".join(parts), Ls


def make_job(rng):
    src, Ls = gen_program(rng)
    return dict(name="locks", src=src, loops=Ls, flags=["-instr", "mem"] + (["-debug"] if rng.random() < .3 else []))


def gen_spec(rng, job):
    k = rng.randrange(NL)
    kind = job["loops"][k]
    n = rng.choice([1, 2, 3, 4, 6, 9])
    nt = rng.choice([1, 2, 2, 3, 4])
    no = rng.choice([1, 1, 2, 3])
    focus = rng.sample([0, 1, 2, 3, 4, 5, 6, 11], rng.choice([1, 2, 3])) + ([9] if rng.random() < .3 else []) + ([10] if rng.random() < .1 else [])
    if kind not in ("gen", "nested") and rng.random() < 0.4:
        focus += [7, 8]
    codes = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        codes.append(rng.choice(focus) + 16 * rng.randrange(16) + 256 * rng.randrange(6))
    s = dict(seed=rng.randrange(1 << 40), args=[k, n, nt, no, rng.choice([1, 3])] + codes, threads=4, budget=300000)
    s.update(S.schedule_knobs(rng))
    s["kinds"] = {"RT": (50000,)}
    if rng.random() < 0.4:
        s["kinds"]["POINT"] = (rng.choice([6000, 20000]), 4, 1)
    if rng.random() < 0.3:
        s["kinds"]["STALL"] = (rng.choice([50, 400]), 5, rng.choice([100000, 4000000000]))
    return s


TO = {0: 0, 1: 1000, 2: 1000000, 3: 2500000000}


def judge(job, spec, res):
    if not res.ok():
        return f"the program ended with '{res.outcome()}' instead of completing; stderr: {res.err[-300:]!r}"
    ev = [e for e in res.events if e.k < 9000]
    k, n, nt, no = spec["args"][:4]
    codes = spec["args"][5:]
    kind = job["loops"][k]
    owner = {}          # lock -> (tid, depth)
    calls = {}          # tid -> stack of (lock, mode, time, event index)
    holds = []          # (lock, tid, first index, last index)
    open_hold = {}
    tries = []
    crit = None
    single_n, single_done, master_n = {}, {}, [0, 0]
    ordered_in, ordered_seq, ordered_want = None, [], []
    nops = {0: 0, 1: 0, 2: 0, 3: 0, 4: 0}
    iters, tlc, tls, faults, caught = [], 0, {}, 0, 0
    finished = {}
    slack = res.h["yields"] * spec.get("tick", 100) + 1000
    stalls = sum(v for kk, i, v in res.dec if S.KINDS[kk] == "STALL")
    for idx, e in enumerate(ev):
        t = e.tid
        if e.k == 2:
            iters.append(e.a)
        elif e.k == 10:
            calls.setdefault(t, []).append((e.a, e.b, e.t, idx))
        elif e.k == 11:
            l, mode, t0, i0 = calls[t].pop()
            if l != e.a:
                return f"harness: result of another lock {e}"
            limit = (TO[mode] if mode >= 0 else 0) + slack + stalls
            if mode != -1 and e.t - t0 > limit:
                return (f"acquire of lock {l} with {'timeout %d ns' % TO[mode] if mode >= 0 else 'block=False'} "
                        f"took {e.t - t0} ns, later than the schedule explains ({limit} ns)")
            if e.b:
                o = owner.get(l)
                if o and o[1] > 0 and (o[0] != t or l != 2):
                    return f"lock {l} acquired by thread {t} while thread {o[0]} holds it (event {idx})"
                owner[l] = (t, o[1] + 1 if o and o[1] > 0 else 1)
                if owner[l][1] == 1:
                    open_hold[l] = (t, i0)
                bumps = 0
            else:
                if mode == -1:
                    return f"blocking acquire of lock {l} returned failure in thread {t}"
                o = owner.get(l)
                if l == 2 and o and o[1] > 0 and o[0] == t:
                    return f"re-entrant lock refused its owner, thread {t}"
                tries.append((l, t, i0, idx))
                if mode >= 0 and e.t - t0 < TO[mode]:
                    return f"acquire of lock {l} with timeout {TO[mode]} ns gave up after {e.t - t0} ns (thread {t})"
        elif e.k == 12:
            o = owner.get(e.a)
            if not o or o[0] != t or o[1] < 1:
                return f"harness: release without holding {e}"
            owner[e.a] = (t, o[1] - 1)
            if o[1] == 1:
                holds.append([e.a, t, open_hold[e.a][1], None])
                finished.setdefault((t, e.a), []).append(len(holds) - 1)
        elif e.k == 13:
            for h in holds:
                if h[0] == e.a and h[1] == t and h[3] is None and not (owner[e.a][0] == t and owner[e.a][1] > 0):
                    h[3] = idx
        elif e.k == 14:
            if crit is not None:
                return f"thread {t} entered a critical section while thread {crit} was inside (event {idx})"
            crit = t
        elif e.k == 15:
            crit = None
        elif e.k == 23:
            faults += 1
            if e.a == 14:
                crit = None
            if e.a == 21:
                ordered_in = None
            if e.a in (10,):
                for h in holds:
                    pass
        elif e.k == 24:
            caught += 1
        elif e.k == 16:
            single_n[t] = single_n.get(t, 0) + 1
        elif e.k == 17:
            j = single_n.get(t, 0)
            if j in single_done:
                return f"single section number {j} ran in thread {single_done[j]} and again in thread {t}"
            single_done[j] = t
        elif e.k == 18:
            master_n[0] += e.b == 0
        elif e.k == 19:
            if e.b != 0:
                return f"master section ran in thread number {e.b}"
            master_n[1] += 1
        elif e.k == 21:
            if ordered_in is not None:
                return f"ordered section of iteration {e.a} began inside that of iteration {ordered_in}"
            ordered_in = e.a
            ordered_seq.append(e.a)
        elif e.k == 22:
            ordered_in = None
        elif e.k == 30:
            nops[e.a] = e.b
        elif e.k == 31:
            tls[e.a] = e.b
        elif e.k == 40:
            return "acquire(False, timeout=1.0) was accepted; a timeout with a non-blocking call is an error"
    if sorted(iters) != list(range(n)):
        return f"iterations executed: {sorted(iters)[:20]}, expected 0..{n - 1}"
    if faults != caught:
        return f"{faults} exceptions raised inside protected sections but {caught} caught around them"
    for l, t, i0, i1 in tries:
        if not any(h[0] == l and h[2] < i1 and (h[3] is None or h[3] > i0) for h in holds) and not any(
                l == q and oh[1] < i1 for q, oh in open_hold.items() if owner.get(q, (0, 0))[1] > 0):
            return f"acquire of lock {l} in thread {t} failed although no other thread held the lock during the call"
    if kind == "ordered" and ordered_seq != list(range(n)):
        return f"ordered sections ran in order {ordered_seq}, expected 0..{n - 1}"
    if kind != "nested":
        if single_n and kind != "gen":
            most = max(single_n.values())
            if set(single_done) != set(range(1, most + 1)):
                return f"single sections executed: {sorted(single_done)}; every one of 1..{most} must run once"
        if master_n[0] != master_n[1]:
            return f"master thread met {master_n[0]} master sections but ran {master_n[1]}"
    # every protected counter was incremented without losing an update
    exp = {0: 0, 1: 0, 2: 0, 3: 0, 4: 0}
    pend = {}
    for e in ev:
        if e.k == 11 and e.b and e.a == 2:
            d = pend.setdefault(e.tid, 0)
            pend[e.tid] += 1
    tot9 = 0
    reps = 2 if kind == "nested" else 1
    for i in range(n * reps):
        for j in range(no):
            c = codes[(i * no + j) % len(codes)]
            tot9 += c % 16 == 9
    if sum(tls.values()) != tot9 and kind != "nested":
        return f"thread-local counters sum to {sum(tls.values())} ({tls}), expected {tot9} increments"
    if faults == 0:
        for i in range(n * reps):
            for j in range(no):
                c = codes[(i * no + j) % len(codes)]
                if c % 16 in (5, 6):
                    exp[3] += 2
        exp[4] = 2 * n if kind == "ordered" else 0
        exp[3] = exp[3]
        # locks: two bumps per successful outermost acquisition of A and B
        acq = {0: 0, 1: 0}
        for e in ev:
            if e.k == 11 and e.b and e.a in (0, 1):
                acq[e.a] += 1
        exp[0], exp[1] = 2 * acq[0], 2 * acq[1]
        for l in (0, 1, 3, 4):
            if nops[l] != exp[l]:
                return f"counter protected by {'lock A,lock B,,the critical section,the ordered section'.split(',')[l]} is {nops[l]}, expected {exp[l]}: updates were lost"
    return None


def cover(job, spec, res):
    for c in spec["args"][5:]:
        yield "operations", c % 16
    yield "loop kinds", job["loops"][spec["args"][0]]
    for e in res.events:
        if e.k == 11:
            yield "acquire results", (e.a, e.b)
        if e.k == 23:
            yield "exceptions inside", e.a
