"""P01: @par loops execute every iteration exactly once, and the region is a barrier."""
import random
import simlib as S

HDR = """from C import sim_log(int, int, int, int)
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
import openmp as omp
import threading as thr

@omp.ordered
def in_order(k: int, i: int):
    sim_log(3, k, i, 0)

def gen_sq(n: int):
    for i in range(n):
        yield i * i - 3

def gen_rng(a: int, b: int, s: int):
    i = a
    while (s > 0 and i < b) or (s < 0 and i > b):
        yield i
        i += s

class Box:
    v: int
    w: float
    def __init__(self, v: int):
        self.v = v
        self.w = float(v)

@tuple
class Pt:
    x: int
    y: i32

@noinline
def work(i: int) -> int:
    return i * 3 + 1
"""


def cap_decl(rng, i):
    """captured variables: (declaration, int expression in codon, python value function of the start argument)"""
    opts = [
        (f"    c{i} = a + 5", f"c{i}", lambda a: a + 5),
        (f"    c{i} = [a, a + 1, a + 2]", f"c{i}[1]", lambda a: a + 1),
        (f"    c{i} = 2.5", f"int(c{i} * 2.0)", lambda a: 5),
        (f"    c{i} = (a, 'xy', 4)", f"(c{i}[0] + len(c{i}[1]))", lambda a: a + 2),
        (f"    c{i} = 'hello' + str(a)", f"len(c{i})", lambda a: len("hello" + str(a))),
        (f"    c{i} = Box(a - 1)", f"(c{i}.v + int(c{i}.w))", lambda a: 2 * (a - 1)),
        (f"    c{i} = Pt(a * 2, i32(7))", f"(c{i}.x + int(c{i}.y))", lambda a: a * 2 + 7),
        (f"    c{i} = {{1: a, 2: a + 9}}", f"c{i}[2]", lambda a: a + 9),
        (f"    c{i} = a > 0", f"(3 if c{i} else 4)", lambda a: 3 if a > 0 else 4),
        (f"    c{i} = byte(65)", f"int(c{i})", lambda a: 65),
        (f"    c{i} = Int[128](a)", f"int(c{i} + Int[128](1))", lambda a: a + 1),
        (f"    c{i} = Optional[int](a)", f"(c{i}.__val__() + 1)", lambda a: a + 1),
        (f"    c{i} = i32(11)", f"int(c{i})", lambda a: 11),
        (f"    c{i} = float32(1.5)", f"int(float(c{i}) * 2.0)", lambda a: 3),
    ]
    k = rng.randrange(len(opts))
    return k, opts[k]


def caps_value(caps, a):
    rng = random.Random(0)
    tot = 0
    for k, i in caps:
        tot += CAPF[k](a)
    return tot


CAPF = [lambda a: a + 5, lambda a: a + 1, lambda a: 5, lambda a: a + 2, lambda a: len("hello" + str(a)),
        lambda a: 2 * (a - 1), lambda a: a * 2 + 7, lambda a: a + 9, lambda a: 3 if a > 0 else 4, lambda a: 65,
        lambda a: a + 1, lambda a: a + 1, lambda a: 11, lambda a: 3]


def gen_loop(rng, k):
    """-> (codon source of loopK(a, b, chunk, nt), description used by the judge)"""
    L = {"k": k}
    kind = rng.choices(["range", "list", "gen", "rngvar", "dict", "enum", "collapse", "tri"], [10, 4, 4, 2, 1, 1, 4, 0.6])[0]
    L["kind"] = kind
    sched = rng.choice([None, "static", "static", "dynamic", "dynamic", "guided", "auto", "runtime"])
    imperative = kind in ("range", "list", "collapse", "tri")
    ordered = imperative and rng.random() < 0.2
    par = []
    text = []
    if sched:
        par.append(f"schedule='{sched}'")
        text.append(f"schedule({sched}" + "%s)")
    ch = rng.choice(["none", "const", "var"]) if sched not in ("auto", "runtime") else "none"
    if not imperative and rng.random() < 0.5:
        ch = "none"
    L["sched"], L["chunkkind"] = sched, ch
    cv = rng.choice([1, 1, 2, 3, 5, 1000])
    if ch == "const":
        par.append(f"chunk_size={cv}")
    elif ch == "var":
        par.append("chunk_size=chunk")
    nt = rng.choice(["none", "const", "var", "var"])
    if nt == "const":
        par.append(f"num_threads={rng.choice([1, 2, 3, 5])}")
    elif nt == "var":
        par.append("num_threads=nt")
    if ordered:
        par.append("ordered=True")
    step = rng.choice([1, 1, 1, 2, 3, -1, -2, 7])
    L["step"], L["ordered"] = step, ordered
    if kind in ("collapse", "tri"):
        depth = rng.choice([2, 2, 3]) if kind == "collapse" else 2
        L["depth"] = depth
        L["steps"] = [step] + [rng.choice([1, 2, -1, -3]) for _ in range(depth - 1)]
        L["inner"] = [(rng.choice([0, 2, -4]), rng.choice([0, 1, 3, 4])) for _ in range(depth - 1)]  # start, count
        par.append(f"collapse={rng.choice([1] + [depth] * 4) if kind == 'collapse' else 2}")
    if ordered and (kind == "tri" or "collapse=1" in par):  # at most one ordered region per iteration
        ordered = L["ordered"] = False
        par.remove("ordered=True")
    deco = "@par" if not par else f"@par({', '.join(par)})"
    # the C/C++ pragma spelling of the same thing
    if rng.random() < 0.2 and par:
        pr = []
        if sched:
            pr.append(f"schedule({sched}" + (f", {cv})" if ch == "const" else ")"))
            if ch == "var":
                L["chunkkind"] = "none"
        if nt == "const" and any(p.startswith("num_threads") for p in par):
            pr.append([p for p in par if p.startswith("num_threads")][0].replace("=", "(") + ")")
        if ordered:
            pr.append("ordered")
        for p in par:
            if p.startswith("collapse"):
                pr.append(p.replace("=", "(") + ")")
        if pr:
            deco = "@par('" + " ".join(pr) + "')"
    src = [f"def loop{k}(a: int, b: int, chunk: int, nt: int):"]
    ncap = rng.choice([0, 1, 2, 3, 4])
    caps = []
    for i in range(ncap):
        ck, (d, e, f) = cap_decl(rng, i)
        caps.append((ck, e))
        src.append(d)
    L["caps"] = [(c[0], 0) for c in caps]
    capx = " + ".join(c[1] for c in caps) or "0"
    L["last"] = rng.random() < 0.6
    L["arr"] = imperative and kind in ("range", "list") and rng.random() < 0.5
    L["lastf"] = rng.random() < 0.3
    if L["last"]:
        src.append("    last = -777777")
    if L["lastf"]:
        src.append("    lastf = 0.5")
    if kind == "range":
        it, var = f"range(a, b, {step})", "i"
    elif kind == "list":
        src.append(f"    src = [q * 2 for q in range(a, b, {step})]")
        it, var = "src", "i"
    elif kind == "gen":
        it, var = "gen_sq(max(0, b - a))", "i"
    elif kind == "rngvar":
        src.append(f"    st = {step}")
        it, var = "gen_rng(a, b, st)", "i"
    elif kind == "dict":
        src.append(f"    src = {{q: q + 1 for q in range(a, b, {step})}}")
        it, var = "src", "i"
    elif kind == "enum":
        src.append(f"    src = [q * 2 for q in range(a, b, {step})]")
        it, var = "enumerate(src)", "e"
    else:
        it, var = f"range(a, b, {step})", "i0"
    if L["arr"]:
        src.append("    y = [0] * 4096")
    src.append("    sim_log(1, %d, a, b)" % k)
    src.append("    " + deco)
    src.append(f"    for {var} in {it}:")
    ind = "        "
    if kind == "enum":
        src.append(ind + "i = e[0] * 100000 + e[1]")
    if kind in ("collapse", "tri"):
        names = ["i0"]
        for d in range(1, L["depth"]):
            s0, cnt = L["inner"][d - 1]
            st = L["steps"][d]
            if kind == "tri":
                src.append(ind + f"for i{d} in range(0, i0 - a, 1):")
            else:
                src.append(ind + f"for i{d} in range({s0}, {s0 + cnt * st}, {st}):")
            ind += "    "
            names.append(f"i{d}")
        src.append(ind + "i = " + " + ".join(f"({n} + 500) * {1000 ** j}" for j, n in enumerate(names)))
    if rng.random() < 0.4:
        src.append(ind + "t = work(i) - 3 * i")
        vx = f"(i * 2 + t + ({capx}))"
    else:
        src.append(ind + "t = 1")
        vx = f"(i * 2 + t + ({capx}))"
    src.append(ind + f"v = {vx}")
    L["skip"] = rng.random() < 0.15 and not L["last"] and not L["lastf"] and not ordered and not L["arr"]
    if L["skip"]:
        src.append(ind + "if i % 3 == 1:")
        src.append(ind + "    sim_log(2, %d, i, v)" % k)
        src.append(ind + "    continue")
    if rng.random() < 0.2:
        src.append(ind + "try:")
        src.append(ind + "    if v % 2 == 0:")
        src.append(ind + "        raise ValueError('x')")
        src.append(ind + "except ValueError:")
        src.append(ind + "    t = 9")
    src.append(ind + "sim_log(2, %d, i, v)" % k)
    if ordered:
        src.append(ind + f"in_order({k}, i)")
    if L["last"]:
        src.append(ind + "last = v")
    if L["lastf"]:
        src.append(ind + "lastf = float(v) + 0.25")
    if L["arr"]:
        src.append(ind + "y[%s] = v" % ("(i - a) // %d" % step if kind == "range" else "(i // 2 - a) // %d" % step))
    if rng.random() < 0.15 and kind == "range" and not L["arr"]:
        src.append(ind + "i += 17")
    src.append("    sim_log(4, %d, %s, %s)" % (k, "last" if L["last"] else "0", "int(lastf * 4.0)" if L["lastf"] else "0"))
    if L["arr"]:
        src.append("    for q in range(40):")
        src.append("        if y[q] != 0:")
        src.append("            sim_log(5, %d, q, y[q])" % k)
    return "\n".join(src) + "\n", L


def gen_program(rng, nloops):
    parts, Ls = [HDR], []
    for k in range(nloops):
        s, L = gen_loop(rng, k)
        parts.append(s)
        Ls.append(L)
    parts.append("def main():\n    p = 0\n    while p < sim_nargs():\n        k = sim_arg(p)\n"
                 "        a, b, chunk, nt = sim_arg(p + 1), sim_arg(p + 2), sim_arg(p + 3), sim_arg(p + 4)\n        p += 5\n"
                 "        sk = nt // 16\n        nt %= 16\n"
                 "        omp.set_schedule(('static', 'dynamic', 'guided', 'auto')[sk % 4], 0 if sk % 4 == 3 else chunk)\n")
    for k in range(nloops):
        parts.append(f"        if k == {k}:\n            loop{k}(a, b, chunk, nt)\n")
    parts.append("main()\n")
    return "".join(p if p.endswith("\n") else p + "\n" for p in parts), Ls


def expected(L, a, b):
    st, kind = L["step"], L["kind"]
    if kind == "range" or kind == "rngvar":
        it = list(range(a, b, st))
    elif kind == "list":
        it = [q * 2 for q in range(a, b, st)]
    elif kind == "gen":
        it = [i * i - 3 for i in range(max(0, b - a))]
    elif kind == "dict":
        it = list(range(a, b, st))
    elif kind == "enum":
        it = [j * 100000 + 2 * q for j, q in enumerate(range(a, b, st))]
    elif kind == "tri":
        it = [(i + 500) + (j + 500) * 1000 for i in range(a, b, st) for j in range(0, i - a)]
    else:
        it = []

        def rec(d, acc):
            if d == L["depth"]:
                it.append(acc)
                return
            s0, cnt = L["inner"][d - 1]
            s = L["steps"][d]
            for x in range(s0, s0 + cnt * s, s):
                rec(d + 1, acc + (x + 500) * 1000 ** d)
        for x in range(a, b, st):
            rec(1, x + 500)
    cap = sum(CAPF[c](a) for c, _ in L["caps"])
    return [(i, i * 2 + 1 + cap) for i in it]


def gen_args(rng, job):
    args = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        L = rng.choice(job["loops"])
        st = L["step"]
        small = L["kind"] in ("collapse", "tri")
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 17, 25] if not small else [0, 1, 2, 3, 4, 6])
        a = rng.choice([0, 0, 1, 5, -6])
        b = a + n * st + (rng.choice([0, 0, -1 if st > 1 else 1 if st < -1 else 0]) if n else rng.choice([0, -st]))
        args += [L["k"], a, b, rng.choice([1, 1, 2, 3, 4, 7, 30]), rng.choice([1, 2, 2, 3, 4, 6]) + 16 * rng.randrange(4)]
    return args


def judge(job, spec, res):
    if not res.ok():
        return f"the program ended with '{res.outcome()}' instead of completing; stderr: {res.err[-300:]!r}"
    ev = [e for e in res.events if e.k < 9000]
    args = spec["args"]
    pos = 0
    for p in range(0, len(args), 5):
        k, a, b = args[p:p + 3]
        L = job["loops"][k]
        d = f"loop {k} ({describe(L)}) over a={a} b={b} chunk={args[p + 3]} nt={args[p + 4]}"
        if pos >= len(ev) or ev[pos].k != 1:
            return f"{d}: expected the start of the region, saw {ev[pos:pos + 1]}"
        pos += 1
        exp = expected(L, a, b)
        seen, order = [], []
        while pos < len(ev) and ev[pos].k in (2, 3):
            e = ev[pos]
            (seen if e.k == 2 else order).append((e.b, e.c) if e.k == 2 else e.b)
            if e.a != k:
                return f"{d}: event of another loop {e}"
            pos += 1
        if pos >= len(ev) or ev[pos].k != 4:
            return f"{d}: expected the end of the region, saw {ev[pos:pos + 1]}"
        if sorted(seen) != sorted(exp):
            miss = [x for x in exp if x not in seen]
            extra = list(seen)
            for x in exp:
                if x in extra:
                    extra.remove(x)
            return (f"{d}: iterations executed differ from the sequential loop: missing {miss[:8]} unexpected or repeated "
                    f"{extra[:8]} (expected {len(exp)}, ran {len(seen)})")
        if L["ordered"] and order != [i for i, _ in exp]:
            return f"{d}: ordered sections ran in order {order[:30]}"
        fin = ev[pos]
        pos += 1
        imperative = L["kind"] in ("range", "list", "collapse", "tri")
        if L["last"]:
            ok = {exp[-1][1]} if exp and imperative else {v for _, v in exp} if exp else {-777777}
            if fin.b not in ok:
                return f"{d}: variable assigned in every iteration is {fin.b} after the loop, expected {sorted(ok)[:5]}"
        if L["lastf"]:
            f = lambda v: v * 4 + 1
            ok = {f(exp[-1][1])} if exp and imperative else {f(v) for _, v in exp} if exp else {2}
            if fin.c not in ok:
                return f"{d}: float variable assigned in every iteration is {fin.c / 4} after the loop"
        if L["arr"]:
            want = {j: v for j, (_, v) in enumerate(exp) if v}
            got = {}
            while pos < len(ev) and ev[pos].k == 5:
                got[ev[pos].b] = ev[pos].c
                pos += 1
            if got != want:
                return f"{d}: array written by the iterations is {got}, expected {want}"
    if pos != len(ev):
        return f"events after the last region: {ev[pos:pos + 3]}"
    return None


def describe(L):
    return f"{L['kind']} schedule={L['sched']} chunk={L['chunkkind']} ordered={L['ordered']} step={L['step']}"


# ------------------------------------------------------------------ campaign
ID, LEVEL = "P01", "exploration"
RULE = ("an evaluation is one simulated execution of a generated program of @par loops under one seeded schedule; two "
        "executions count as distinct when their event histories differ (event history = every logged event with its "
        "thread and simulated time, and every decision taken)")
ASSUMPTIONS = ["the OpenMP runtime is a simulated one that hands out iterations, chunks and tasks by seeded choice within "
               "what the OpenMP interface allows; sequential consistency between threads",
               "loop bodies do not share unsynchronised data"]
PROGRAMS = {"quick": 72, "thorough": 1500}
RUNS = {"quick": 40, "thorough": 150}


def make_job(rng):
    src, Ls = gen_program(rng, 10)
    return dict(name="parallel loops", src=src, loops=Ls,
                flags=["-instr", rng.choice(["mem", "mem", "sync"])] + (["-debug"] if rng.random() < .3 else []))


def gen_spec(rng, job):
    s = dict(seed=rng.randrange(1 << 40), args=gen_args(rng, job), threads=rng.choice([1, 2, 3, 4, 4, 6]), budget=400000)
    s.update(S.schedule_knobs(rng))
    s["kinds"] = {"RT": (50000,)}
    if rng.random() < 0.3:
        s["kinds"]["GC"] = (rng.choice([3000, 30000]), 30, 2)
    return s


def cover(job, spec, res):
    for i in range(0, len(spec["args"]), 5):
        L = job["loops"][spec["args"][i]]
        yield "loop shapes", (L["kind"], L["sched"], L["chunkkind"], L["ordered"])
    yield "team sizes", spec["threads"]


NOTE = ("Real compiler, OpenMP lowering, standard library, runtime and collector; simulated threads, clock and OpenMP "
        "runtime. Every violation found is a real execution; absence is evidence over the schedules sampled only.")
