"""P06: exception control flow under injected exceptions, against CPython."""
import functools, random
import simlib as S
import pyoracle as O

ID, LEVEL = "P06", "fault_enumeration"
TECHNIQUE = "deterministic simulation: exceptions injected at seeded fault points, CPython as reference model"
RULE = ("an evaluation is one execution of a generated program of nested exception constructs with a seeded set of fault "
        "points raising; distinct = different event history")
ASSUMPTIONS = ["CPython 3.12 executing the same program text with the same faults defines the prescribed behaviour",
               "programs stay in the common subset of the two languages"]
NOTE = ("Real compiler, code generator, unwinder and personality; the reference is CPython. Evidence over the generated "
        "programs and fault sets.")
PROGRAMS = {"quick": 104, "thorough": 3000}
RUNS = {"quick": 60, "thorough": 200}

CODON_HDR = """from C import sim_log(int, int, int, int)
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
from C import sim_point(int) -> int

class E1(Exception):
    code: int
    def __init__(self, c: int):
        super().__init__("e")
        self.code = c
class E2(E1):
    def __init__(self, c: int):
        super().__init__(c)
class E3(Exception):
    code: int
    def __init__(self, c: int):
        super().__init__("e3")
        self.code = c
class E4(E3):
    extra: int
    def __init__(self, c: int):
        super().__init__(c)
        self.extra = c * 2
class E5(E2):
    def __init__(self, c: int):
        super().__init__(c)
class E6(E5):
    def __init__(self, c: int):
        super().__init__(c)
"""
PY_HDR = """
def inline(f): return f
def noinline(f): return f
class E1(Exception):
    def __init__(self, c):
        self.code = c
class E2(E1): pass
class E3(Exception):
    def __init__(self, c):
        self.code = c
class E4(E3):
    def __init__(self, c):
        self.code = c
        self.extra = c * 2
class E5(E2): pass
class E6(E5): pass
"""
COMMON = """
@noinline
def P(p: int) -> int:
    v = sim_point(p)
    if v == 1:
        raise E1(p)
    if v == 2:
        raise E2(p)
    if v == 3:
        raise E3(p)
    if v == 4:
        raise E4(p)
    if v == 5:
        raise ValueError("v")
    if v == 6:
        raise E5(p)
    if v == 7:
        raise E6(p)
    if v == 8:
        raise KeyError("k")
    return p

class Ctx:
    n: int
    def __init__(self, n: int):
        self.n = n
    def __enter__(self):
        sim_log(5, self.n, 0, 0)
        P(900 + self.n % 50)
        return self
    def __exit__(self, *args):
        sim_log(6, self.n, 0, 0)
        P(950 + self.n % 50)
"""
EXC = ["E1", "E2", "E3", "E4", "E5", "E6", "ValueError", "KeyError", "IndexError", "LookupError"]
OWN = EXC[:6]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.nid = 0
        self.size = 0
        self.gens = []

    def id(self):
        self.nid += 1
        return self.nid

    def log(self, ind):
        return f"{ind}sim_log(1, {self.id()}, x, y)"

    def block(self, ind, depth, ctx, lo=1, hi=3):
        out = []
        n = self.rng.randint(lo, hi)
        for _ in range(n):
            s, stop = self.stmt(ind, depth, ctx)
            out += s
            if stop:
                break
        return out

    def stmt(self, ind, depth, ctx):
        """ctx: dict(loop=bool, handler=[names], fin=bool, func=index, gen=bool). -> (lines, unconditionally leaves)"""
        r = self.rng
        self.size += 1
        deep = depth <= 0 or self.size > 60
        opts = ["log"] * 4 + ["point"] * 5 + ["assign"] * 2 + ["point_expr"] * 1
        if not deep:
            opts += ["try"] * 7 + ["with"] * 3 + ["for"] * 2 + ["while"] * 2 + ["if"] * 2
        if ctx["func"] > 0:
            opts += ["call"] * 3
        if self.gens and not ctx["gen"]:
            opts += ["forgen"] * 2 if not deep else []
        if not ctx.get("nojump"):
            opts += ["return"] * 2
        if ctx["loop"]:
            opts += ["break"] * 2 + ["continue"] * 2
        opts += ["raise"] * 1 + ["builtin"] * 1 + ["assertion"]
        if ctx["handler"]:
            opts += ["reraise"] * 3 + ["raisefrom"]
        if ctx["gen"]:
            opts += ["yield"] * 6
        k = r.choice(opts)
        i = ind
        if k == "log":
            return [self.log(i)], False
        if k == "point":
            return [f"{i}P({self.id()})"], False
        if k == "point_expr":
            return [f"{i}x = x + P({self.id()}) * (y + P({self.id()}))", f"{i}x %= 10007"], False
        if k == "assign":
            return [r.choice([f"{i}x += {r.randint(1, 9)}", f"{i}y = x + {r.randint(1, 5)}", f"{i}x = abs(y - x)"])], False
        if k == "call":
            return [f"{i}{r.choice(['x', 'y'])} = f{r.randrange(ctx['func'])}(x + {r.randint(0, 3)}) % 10007"], False
        if k == "forgen":
            g = r.choice(self.gens)
            c2 = dict(ctx, loop=True, nojump=True)
            c2["loop"] = False
            b = self.block(i + "    ", depth - 1, c2)
            v = f"z{self.id()}"
            return [f"{i}for {v} in {g}(x):", f"{i}    sim_log(4, {v}, x, y)"] + b, False
        if k == "yield":
            return [f"{i}yield x * 10 + {self.id()}"], False
        cond = f"(x + y) % {r.choice([2, 3, 4])} == {r.randrange(2)}"
        if k == "return":
            v = r.choice(["x", "y", "x * 2 + 1", f"P({self.id()}) + x"])
            if ctx["gen"]:
                v = ""
            if r.random() < 0.3:
                return [f"{i}return {v}"], True
            return [f"{i}if {cond}:", f"{i}    return {v}"], False
        if k in ("break", "continue"):
            if r.random() < 0.25:
                return [f"{i}{k}"], True
            return [f"{i}if {cond}:", f"{i}    {k}"], False
        if k == "raise":
            s = f"raise {r.choice(OWN)}({self.id()})"
            if r.random() < 0.25:
                return [f"{i}{s}"], True
            return [f"{i}if {cond}:", f"{i}    {s}"], False
        if k == "raisefrom":
            s = f"raise {r.choice(OWN)}({self.id()})"
            if ctx["handler"][-1]:
                s += f" from {ctx['handler'][-1]}"
            return [f"{i}if {cond}:", f"{i}    {s}"], False
        if k == "builtin":
            return [f"{i}if {cond}:",
                    f"{i}    " + r.choice(["y = [1, 2][x % 2 + 5]", "y = {1: 2}[x % 2 + 50]", "y = int('q' + str(x % 3))",
                                           "y = (lambda q: [q][3])(x)"])], False
        if k == "assertion":
            return [f"{i}if {cond}:", f"{i}    assert x < -100000, 'no'"], False
        if k == "reraise":
            if r.random() < 0.3:
                return [f"{i}raise"], True
            return [f"{i}if {cond}:", f"{i}    raise"], False
        if k == "if":
            out = [f"{i}if {cond}:"] + self.block(i + "    ", depth - 1, ctx)
            if r.random() < 0.5:
                out += [f"{i}else:"] + self.block(i + "    ", depth - 1, ctx)
            return out, False
        if k == "with":
            n = self.id()
            c2 = ctx
            if r.random() < 0.3:
                h = f"{i}with Ctx({n}) as c{n}, Ctx({n + 1000}) as d{n}:"
            elif r.random() < 0.5:
                h = f"{i}with Ctx({n}) as c{n}:"
            else:
                h = f"{i}with Ctx({n}):"
            return [h] + self.block(i + "    ", depth - 1, c2), False
        if k == "for":
            v = f"i{self.id()}"
            it = r.choice([f"range({r.randint(1, 3)})", f"[x, y]", "(1, x % 5, 7)", "(2, x % 3 == 1, y)", f"range(x % 3)"])
            out = [f"{i}for {v} in {it}:", f"{i}    y += int({v}) % 5"] + self.block(i + "    ", depth - 1, dict(ctx, loop=True))
            if r.random() < 0.25:
                out += [f"{i}else:"] + self.block(i + "    ", depth - 1, ctx, 1, 2)
            return out, False
        if k == "while":
            v = f"w{self.id()}"
            out = [f"{i}{v} = 0", f"{i}while {v} < {r.randint(1, 3)}:", f"{i}    {v} += 1"]
            out += self.block(i + "    ", depth - 1, dict(ctx, loop=True))
            if r.random() < 0.25:
                out += [f"{i}else:"] + self.block(i + "    ", depth - 1, ctx, 1, 2)
            return out, False
        # try
        out = [f"{i}try:"] + self.block(i + "    ", depth - 1, ctx, 1, 4)
        shape = r.choice(["except", "except", "except", "finally", "finally", "both", "both", "both"])
        if shape != "finally":
            left = r.sample(EXC, r.randint(1, 3))
            if r.random() < 0.3:
                left.append(r.choice(["Exception", "Exception", "BaseException"]))
            bare = r.random() < 0.2
            used = 0
            while left:
                j = self.id()
                name = left.pop(0)
                var = f"e{j}" if r.random() < 0.6 else ""
                out.append(f"{i}except {name}" + (f" as {var}" if var else "") + ":")
                if var and name in OWN:
                    out.append(f"{i}    sim_log(2, {j}, {var}.code, x)")
                else:
                    out.append(f"{i}    sim_log(2, {j}, 0, x)")
                if r.random() < 0.75:
                    out += self.block(i + "    ", depth - 1, dict(ctx, handler=ctx["handler"] + [var]))
                used += 1
            if bare:
                out.append(f"{i}except:")
                out.append(f"{i}    sim_log(2, {self.id()}, 0, x)")
                out += self.block(i + "    ", depth - 1, dict(ctx, handler=ctx["handler"] + [""]))
            if r.random() < 0.3:
                out.append(f"{i}else:")
                out += [self.log(i + "    ")] + self.block(i + "    ", depth - 1, ctx)
        if shape != "except":
            out.append(f"{i}finally:")
            out.append(f"{i}    sim_log(3, {self.id()}, x, y)")
            if r.random() < 0.75:
                c2 = dict(ctx, handler=[])
                if r.random() < self.finjump:
                    pass
                else:
                    c2["nojump"] = True
                    c2["loop"] = False
                out += self.block(i + "    ", depth - 1, c2)
        return out, False

    finjump = 0.0

    def program(self):
        r = self.rng
        out = []
        for g in range(r.choice([0, 0, 1, 2])):
            self.size = 30
            out += [f"def g{g}(x: int):", "    y = 3", "    yield x"]
            out += self.block("    ", 2, dict(loop=False, handler=[], func=0, gen=True), 2, 4)
            out += ["    yield x + y"]
            self.gens.append(f"g{g}")
        nf = r.choice([2, 3, 4])
        for f in range(nf):
            self.size = 0 if f == nf - 1 else 25
            deco = r.choice(["", "", "@inline", "@noinline"])
            if deco:
                out.append(deco)
            out += [f"def f{f}(x: int) -> int:", f"    y = x + {r.randint(1, 5)}"]
            out += self.block("    ", 4 if f == nf - 1 else 3, dict(loop=False, handler=[], func=f, gen=False), 2, 5)
            out += [self.log("    "), "    return x + y"]
        out += ["def main():", "    for t in range(sim_nargs()):", "        try:", "            sim_log(7, t, 0, 0)",
                f"            r = f{nf - 1}(sim_arg(t))", "            sim_log(8, r, 0, 0)"]
        for j, e in enumerate(["E6", "E5", "E2", "E1", "E4", "E3"]):
            out += [f"        except {e} as q{j}:", f"            sim_log(9, {j}, q{j}.code, 0)"]
        for j, e in enumerate(["ValueError", "KeyError", "IndexError", "AssertionError"]):
            out += [f"        except {e}:", f"            sim_log(9, {10 + j}, 0, 0)"]
        out += ["main()"]
        return "\n".join(out) + "\n", self.nid


def make_job(rng):
    g = Gen(rng)
    g.finjump = rng.choice([0.0, 0.0, 0.5])
    text, nid = g.program()
    return dict(name="exceptions", src=CODON_HDR + COMMON + text, text=COMMON + text,
                flags=["-instr", "none"] + (["-debug"] if rng.random() < .4 else []))


def gen_spec(rng, job):
    s = dict(seed=rng.randrange(1 << 40), args=[rng.randrange(60) for _ in range(rng.choice([1, 1, 2, 3]))], threads=1, budget=200000)
    if rng.random() < 0.9:
        s["kinds"] = {"POINT": (rng.choice([2000, 8000, 20000]), rng.choice([1, 1, 2, 3, 5]), 8)}
    if rng.random() < 0.1:
        s.setdefault("kinds", {})["GC"] = (rng.choice([3000, 30000]), 20, 2)
    return s


@functools.lru_cache(maxsize=8)
def oracle(text):
    return O.Oracle(PY_HDR, text)


def judge(job, spec, res):
    dec = res.dec
    try:
        want, n = oracle(job["text"]).run(spec["args"], dec)
    except O.Stop:
        return None
    if not res.ok():
        return f"the program ended with '{res.outcome()}' instead of completing; stderr: {res.err[-300:]!r}"
    return O.compare(want, O.events(res))


def cover(job, spec, res):
    k = [e.k for e in res.events]
    yield "outcomes", tuple(sorted({(e.k, e.a if e.k == 9 else 0) for e in res.events if e.k in (8, 9)}))
    yield "faults per run", sum(1 for d in res.dec if S.KINDS[d[0]] == "POINT")
