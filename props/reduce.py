"""P02: reductions in @par loops equal the sequential fold."""
import random, re, struct
import simlib as S

ID, LEVEL = "P02", "exploration"
RULE = ("an evaluation is one simulated execution of a generated program of @par loops with reductions under one seeded "
        "schedule and choice of reduction method; distinct = different event history")
ASSUMPTIONS = ["floating-point operands are chosen so that every association order gives the same sum or product",
               "user-defined reduction types have a commutative, associative + with the default value as its zero, as documented",
               "the OpenMP runtime is simulated; it chooses tree, critical or atomic combination per region by seeded choice"]
NOTE = ("Real compiler, lowering, library; simulated threads and OpenMP runtime. Evidence over the sampled schedules, "
        "combination methods and values.")
PROGRAMS = {"quick": 72, "thorough": 1500}
RUNS = {"quick": 40, "thorough": 150}

HDR = """from C import sim_log(int, int, int, int)
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
import openmp as omp

def gen_rng(a: int, b: int, s: int):
    i = a
    while i < b:
        yield i
        i += s

@noinline
def work(i: int) -> int:
    return i * 3 + 1

def fbits(x: float) -> int:
    return Ptr[int](__ptr__(x).as_byte())[0]

@tuple
class Vec:
    x: int
    y: int
    def __new__():
        return Vec(0, 0)
    def __add__(self, o: Vec):
        return Vec(self.x + o.x, self.y + o.y)

class Acc:
    s: int
    n: int
    def __init__(self):
        self.s = 0
        self.n = 0
    def __init__(self, s: int, n: int):
        self.s = s
        self.n = n
    def __add__(self, o: Acc):
        return Acc(self.s + o.s, self.n + o.n)

@tuple
class Mx:
    v: int
    def __new__():
        return Mx(0)
    def __add__(self, o: Mx):
        return Mx(self.v + o.v)
    def __atomic_add__(self: Ptr[Mx], o: Mx):
        _atomic_critical(self, o)

@omp.critical
def _atomic_critical(p: Ptr[Mx], o: Mx):
    p[0] = Mx(p[0].v + o.v)
"""


def wrap(x, bits, signed=True):
    x &= (1 << bits) - 1
    return x - (1 << bits) if signed and x >> (bits - 1) else x


# type name -> (constructor of an int expression, logged ints, operators, int width or None)
INTS = {"int": (64, True), "i32": (32, True), "u8": (8, False), "i16": (16, True), "u64": (64, False), "u32": (32, False)}
OPS = ["+", "*", "&", "|", "^", "min", "max"]


def operand(rng, T, op):
    """-> codon/python expression of i giving an int"""
    k, c, m = rng.choice([1, 3, 7, 11]), rng.randrange(20), rng.choice([5, 13, 50, 1000])
    e = f"((i + 40) * {k} + {c}) % {m}"
    if op == "*":
        if T in ("float", "float32"):
            return f"(2 if ((i + 40) % 7) == {rng.randrange(7)} else 1)" if rng.random() < .5 else f"(1 - 2 * ((i + 40) % 2))"
        return f"({e} | 1)"
    if T in INTS and not INTS[T][1]:
        return f"({e})"
    r = rng.random()
    if r < 0.3:
        return f"({e} - {m})"      # all negative
    if r < 0.5:
        return f"({e} - {m // 2})"
    if r < 0.6:
        return f"({e} * 1000)" if T in ("int", "u64") else f"({e})"
    return f"({e})"


def gen_red(rng, j, kind):
    T = rng.choices(["int", "float", "float32", "bool", "Vec", "Acc", "Mx", "i32", "u8", "i16", "u64", "u32"],
                    [9, 7, 4, 3, 2, 2, 1, 2, 1, 1, 1, 1])[0]
    R = {"T": T}
    n = f"r{j}"
    if T in ("Vec", "Acc", "Mx"):
        e = operand(rng, "int", "+")
        R.update(op="+", e=e, init=rng.randrange(50))
        dec = {"Vec": f"{n} = Vec({R['init']}, 1)", "Acc": f"{n} = Acc({R['init']}, 1)", "Mx": f"{n} = Mx({R['init']})"}[T]
        val = {"Vec": f"Vec({e}, 1)", "Acc": f"Acc({e}, 1)", "Mx": f"Mx({e})"}[T]
        log = {"Vec": (f"{n}.x", f"{n}.y"), "Acc": (f"{n}.s", f"{n}.n"), "Mx": (f"{n}.v", "0")}[T]
    elif T == "bool":
        op = rng.choice(["&", "|", "^"])
        e = f"((i + 40) % {rng.choice([3, 5, 50])} {rng.choice(['==', '!='])} {rng.randrange(3)})"
        R.update(op=op, e=e, init=rng.choice([0, 1]))
        dec, val, log = f"{n} = {bool(R['init'])}", e, (f"int({n})", "0")
    elif T in ("float", "float32"):
        op = rng.choice(["+", "+", "*", "min", "max"])
        e = operand(rng, T, op)
        R.update(op=op, e=e, init=rng.choice([0, 1, -5, -3000, 3000]) if op != "*" else rng.choice([1, -3]))
        con = "float(%s)" if T == "float" else "float32(float(%s))"
        q = "" if op == "*" else " * 0.25"
        if op in ("min", "max") and rng.random() < 0.15:
            R["init"] = "-inf" if op == "max" else "inf"
            dec = f"{n} = {T}(float('{R['init']}'))" if T == "float" else f"{n} = float32(float('{R['init']}'))"
        else:
            dec = f"{n} = " + con % R["init"]
        if T == "float":
            val = f"(float({e}){q})"
        else:
            val = f"float32(float({e}){q})"
        R["q"] = 1.0 if op == "*" else 0.25
        log = (f"fbits(float({n}))", "0")
    else:
        op = rng.choice(OPS)
        e = operand(rng, T, op)
        R.update(op=op, e=e, init=rng.choice([0, 1, 7, 100]) if not INTS[T][1] or op == "*" else rng.choice([0, 1, -9, 100]))
        con = "%s" if T == "int" else T + "(%s)"
        dec, val, log = f"{n} = " + con % R["init"], con % e, (f"int({n})", "0")
    op = R["op"]
    forms = []
    if op in ("min", "max"):
        forms = [f"{n} = {op}({n}, {val})", f"{n} = {op}({val}, {n})"]
    else:
        forms = [f"{n} {op}= {val}", f"{n} = {n} {op} {val}"]
        if T not in ("Acc",):
            forms += [f"{n} = {val} {op} {n}"]
        if T not in ("u8", "i16"):
            forms += ["chain"]
    f = rng.choice(forms)
    R["times"] = 1
    if f == "chain":
        f = f"{n} = {n} {op} {val} {op} {val}"
        R["times"] = 2
    body = [f]
    R["when"] = "True"
    x = rng.random()
    if x < 0.2:
        R["when"] = f"(i + 40) % {rng.choice([2, 3, 11])} == {rng.randrange(2)}"
        body = [f"if {R['when']}:", "    " + f]
    elif x < 0.3:
        c = rng.choice([2, 3])
        R["times"] *= c
        body = [f"for q{j} in range({c}):", "    " + f]
    elif x < 0.37 and kind != "gen":
        body = ["try:", f"    if (i + 40) % 3 == 1:", "        raise ValueError('e')", "    " + f, "except ValueError:", "    " + f]
    elif x < 0.44:
        body = [f, f]
        R["times"] *= 2
    return R, dec, body, log


def gen_program(rng, n):
    parts, Ls = [HDR], []
    for k in range(n):
        kind = rng.choices(["range", "list", "gen", "collapse", "nested"], [10, 3, 5, 2, 1.5])[0]
        L = {"kind": kind, "k": k, "step": rng.choice([1, 1, 2, -1, 3]) if kind in ("range", "list", "nested") else 1}
        par = []
        sched = rng.choice([None, "static", "dynamic", "guided", "auto", "runtime"])
        if sched:
            par.append(f"schedule='{sched}'")
        if sched in ("static", "dynamic", "guided") and rng.random() < 0.6:
            par.append("chunk_size=" + rng.choice(["chunk", "1", "3"]))
        if rng.random() < 0.7:
            par.append("num_threads=nt")
        if kind == "collapse":
            par.append("collapse=2")
        L["sched"] = sched
        src = [f"def red{k}(a: int, b: int, chunk: int, nt: int):"]
        reds = [gen_red(rng, j, kind) for j in range(rng.choice([1, 1, 2, 3, 4]))]
        L["reds"] = [r[0] for r in reds]
        L["glob"] = rng.random() < 0.15
        if L["glob"]:  # the reduction variables are module globals
            def ren(x, k=k):
                return re.sub(r"\br(\d)\b", rf"g{k}_\1", x)
            reds = [(R, ren(d), [ren(x) for x in bd], tuple(ren(x) for x in lg)) for R, d, bd, lg in reds]
            parts.append("\n".join(r[1] for r in reds) + f"\ndef touch{k}():\n    return (" + ", ".join(r[3][0] for r in reds) + ",)\n")
            src.append("    global " + ", ".join(f"g{k}_{j}" for j in range(len(reds))))
        cap = rng.random() < 0.5
        L["cap"] = cap
        for r in reds:
            src.append("    " + r[1])
        if cap:
            src.append("    cc = [a, b]")
        ind = "        "
        deco = "    @par" + (f"({', '.join(par)})" if par else "")
        if kind == "range":
            src += [deco, f"    for i in range(a, b, {L['step']}):"]
        elif kind == "list":
            src += [f"    src = [z for z in range(a, b, {L['step']})]", deco, "    for i in src:"]
        elif kind == "gen":
            src += [deco, f"    for i in gen_rng(a, b, 1):"]
        elif kind == "collapse":
            src += [deco, "    for i0 in range(a, b):", "        for i1 in range(0, 3):"]
            ind += "    "
            src.append(ind + "i = i0 * 3 + i1")
        else:  # a parallel loop inside a sequential loop
            src += ["    for rep in range(3):", "    " + deco, f"        for i in range(a, b, {L['step']}):"]
            ind += "    "
        if cap:
            src.append(ind + "cz = cc[0] + i")
        if rng.random() < 0.3:
            src.append(ind + "w = work(i)")
        for r in reds:
            src += [ind + x for x in r[2]]
        for j, r in enumerate(reds):
            src.append(f"    sim_log(1, {k * 10 + j}, {r[3][0]}, {r[3][1]})")
        parts.append("\n".join(src) + "\n")
        Ls.append(L)
    parts.append("def main():\n    p = 0\n    while p < sim_nargs():\n        k = sim_arg(p)\n"
                 "        a, b, chunk, nt = sim_arg(p + 1), sim_arg(p + 2), sim_arg(p + 3), sim_arg(p + 4)\n        p += 5\n"
                 "        sk = nt // 16\n        nt %= 16\n"
                 "        omp.set_schedule(('static', 'dynamic', 'guided', 'auto')[sk % 4], 0 if sk % 4 == 3 else chunk)\n")
    for k in range(n):
        parts.append(f"        if k == {k}:\n            red{k}(a, b, chunk, nt)\n")
    parts.append("main()\n")
    return "".join(parts), Ls


def expect(L, a, b):
    kind = L["kind"]
    if kind == "collapse":
        it = [x * 3 + y for x in range(a, b) for y in range(3)]
    elif kind == "gen":
        it = list(range(a, b))
    else:
        it = list(range(a, b, L["step"])) * (3 if kind == "nested" else 1)
    out = []
    for R in L["reds"]:
        T, op, init = R["T"], R["op"], R["init"]
        code, when = compile(R["e"], "e", "eval"), compile(R["when"], "w", "eval")
        vals = [eval(code, {"i": i}) for i in it if eval(when, {"i": i}) for _ in range(R["times"])]
        if T in ("Vec", "Acc"):
            out.append((init + sum(vals), 1 + len(vals)))
            continue
        if T == "Mx":
            out.append((init + sum(vals), 0))
            continue
        if T == "bool":
            acc = init
            for v in vals:
                acc = acc & v if op == "&" else acc | v if op == "|" else acc ^ v
            out.append((int(acc), 0))
            continue
        if T in ("float", "float32"):
            acc = float(init)
            for v in vals:
                v = v * R["q"]
                acc = acc + v if op == "+" else acc * v if op == "*" else min(acc, v) if op == "min" else max(acc, v)
            if T == "float32":
                acc = struct.unpack("<f", struct.pack("<f", acc))[0] if abs(acc) < 3e38 else acc
            out.append((struct.unpack("<q", struct.pack("<d", acc))[0], 0))
            continue
        bits, signed = INTS[T]
        acc = wrap(init, bits, signed)
        for v in vals:
            v = wrap(v, bits, signed)
            acc = {"+": lambda: acc + v, "*": lambda: acc * v, "&": lambda: acc & v, "|": lambda: acc | v,
                   "^": lambda: acc ^ v, "min": lambda: min(acc, v), "max": lambda: max(acc, v)}[op]()
            acc = wrap(acc, bits, signed)
        out.append((wrap(acc, 64), 0))
    return out


def make_job(rng):
    src, Ls = gen_program(rng, 8)
    return dict(name="reductions", src=src, loops=Ls,
                flags=["-instr", "mem"] + (["-debug"] if rng.random() < .3 else []))


def gen_spec(rng, job):
    args = []
    for _ in range(rng.choice([1, 1, 2])):
        L = rng.choice(job["loops"])
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30]) if L["kind"] not in ("collapse", "nested") else rng.choice([0, 1, 2, 5, 9])
        a = rng.choice([0, 0, 3, -7])
        args += [L["k"], a, a + n * L["step"], rng.choice([1, 2, 3, 7]), rng.choice([1, 2, 3, 4, 6]) + 16 * rng.randrange(4)]
    s = dict(seed=rng.randrange(1 << 40), args=args, threads=rng.choice([1, 2, 3, 4, 4, 6]), budget=400000)
    s.update(S.schedule_knobs(rng))
    s["kinds"] = {"RT": (50000,)}
    if rng.random() < 0.2:
        s["kinds"]["GC"] = (rng.choice([3000, 30000]), 20, 2)
    return s


def judge(job, spec, res):
    if not res.ok():
        return f"the program ended with '{res.outcome()}' instead of completing; stderr: {res.err[-300:]!r}"
    ev = [e for e in res.events if e.k < 9000]
    pos = 0
    for p in range(0, len(spec["args"]), 5):
        k, a, b, ch, nt = spec["args"][p:p + 5]
        L = job["loops"][k]
        for j, want in enumerate(expect(L, a, b)):
            R = L["reds"][j]
            d = (f"loop {k} ({L['kind']} schedule={L['sched']}) over a={a} b={b} chunk={ch} nt={nt}: reduction {R['T']} "
                 f"{R['op']} of {R['e']}")
            if pos >= len(ev):
                return d + ": result never logged"
            e = ev[pos]
            pos += 1
            if (e.a, e.b, e.c) != (k * 10 + j,) + want:
                f = (lambda x: struct.unpack("<d", struct.pack("<q", x))[0]) if R["T"].startswith("float") else (lambda x: x)
                return f"{d}: result {f(e.b)},{e.c} but the sequential loop gives {f(want[0])},{want[1]}"
    if pos != len(ev):
        return "unexpected events"
    return None


def cover(job, spec, res):
    for i in range(0, len(spec["args"]), 5):
        L = job["loops"][spec["args"][i]]
        for R in L["reds"]:
            yield "reductions", (L["kind"], R["T"], R["op"])
    yield "team sizes", spec["threads"]
