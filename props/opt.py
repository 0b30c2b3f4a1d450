"""P12: optimised and unoptimised builds of one program behave alike under injected exceptions and collections."""
import os, random
import simlib as S
import pyoracle as O
import rawbuf

ID, LEVEL = "P12", "fault_enumeration"
TECHNIQUE = ("deterministic simulation: each generated program is built with and without the optimisation passes and the builds "
             "are run under the same seeded exceptions and values; the unoptimised build is the reference")
RULE = ("an evaluation is one execution of an optimised build of a generated program compared, effect by effect, with the "
        "unoptimised build under the same injected exceptions and values; distinct = different event history")
ASSUMPTIONS = ["the debug build (lowering passes only, minimal LLVM optimisation) defines the behaviour",
               "programs avoid undefined operations: division of the smallest integer by -1, shifts by 64 or more, zero divisors "
               "under C numerics, conversion of huge floats to int"]
NOTE = ("Real compiler with its real pass manager; every pass can be switched off by its own option. Evidence over the "
        "generated programs, builds and fault sets.")
PROGRAMS = {"quick": 32, "thorough": 2000}
RUNS = {"quick": 50, "thorough": 200}
DISABLE = ["core-folding-pass-group", "core-pythonic-dict-arithmetic-opt", "core-pythonic-list-addition-opt",
           "core-pythonic-str-addition-opt", "core-pythonic-generator-argument-opt", "core-pythonic-io-cat-opt",
           "core-imperative-for-lowering"]

HDR = """from C import sim_log(int, int, int, int)
from C import sim_logs(int, str)
from C import sim_logf(int, int, float)
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
from C import sim_point(int) -> int

class E(Exception):
    code: int
    def __init__(self, c: int):
        super().__init__("e")
        self.code = c

@noinline
def P(n: int) -> int:
    v = sim_point(n)
    sim_log(1, n, v, 0)
    if v == 1:
        raise E(n)
    return n + v

@noinline
def Q(n: int) -> float:
    v = sim_point(n)
    sim_log(2, n, v, 0)
    if v == 1:
        raise E(n)
    return float(n) + float(v) / 4.0

def B(n: int) -> bool:
    v = sim_point(n)
    sim_log(3, n, v, 0)
    if v == 1:
        raise E(n)
    return v & 1 == 0

@noinline
def S(n: int) -> str:
    v = sim_point(n)
    sim_log(4, n, v, 0)
    if v == 1:
        raise E(n)
    return "s" + str(n + v)

def li(i: int, x: int):
    sim_log(10, i, x, 0)

def lf(i: int, x: float):
    sim_logf(11, i, x)

def lb(i: int, x: bool):
    sim_log(12, i, 1 if x else 0, 0)

def ls(i: int, x: str):
    sim_logs(13, x)

def lx(i: int, x):
    if isinstance(x, int):
        sim_log(15, i, x, 0)
    elif isinstance(x, float):
        sim_logf(16, i, x)
    else:
        sim_log(17, i, 1 if x else 0, 0)

def ll(i: int, x: List[int]):
    sim_log(14, i, len(x), 0)
    for k in range(len(x)):
        sim_log(15, x[k], 0, 0)

def ld(i: int, d: Dict[int, int]):
    sim_log(16, i, len(d), 0)
    for k in sorted(d.keys()):
        sim_log(17, k, d[k], 0)

def lsd(i: int, d: Dict[str, float]):
    sim_log(18, i, len(d), 0)
    for k in sorted(d.keys()):
        lf(i, d[k])

def pure(x: int) -> int:
    return x * 3 + 1

@noinline
def pure2(x: int, y: int) -> int:
    z = x
    if y > 3:
        z = y - x
    return z & 1023

@noinline
def wr(l: List[int], x: int):
    l.append(x)

@noinline
def poke(p: Ptr[int], x: int):
    p[0] = x

@noinline
def grow(l: List[int], x: int) -> List[int]:
    l.append(x)
    return l[:2] if x & 1 == 0 else l

def thr(x: int):
    if x > 4:
        raise E(x)

class K:
    v: int
    def __init__(self, v: int):
        self.v = v
    def bump(self, x: int) -> int:
        self.v += x
        return self.v
    def __add__(self, o: K) -> K:
        return K(self.v + o.v)
    def __lt__(self, o: K) -> bool:
        sim_log(5, self.v, o.v, 0)
        return self.v < o.v
    def __gt__(self, o: K) -> bool:
        sim_log(6, self.v, o.v, 0)
        return self.v > o.v
    def __eq__(self, o: K) -> bool:
        sim_log(7, self.v, o.v, 0)
        return self.v == o.v

class Base:
    n: int
    def __init__(self, n: int):
        self.n = n
    def f(self, x: int) -> int:
        return x + self.n
    def g(self) -> int:
        return self.f(2) * 2

class Der(Base):
    def __init__(self, n: int):
        super().__init__(n + 1)
    def f(self, x: int) -> int:
        sim_log(8, x, self.n, 0)
        return x * self.n

@tuple
class V2:
    a: int
    b: int
    def __add__(self, o: V2) -> V2:
        return V2(self.a + o.a, self.b + o.b)
    def __mul__(self, o: int) -> V2:
        return V2(self.a * o, self.b * o)

"""
INTS = [0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 7, 8, 10, -1, -2, -3, -8, 63, 64, 100, 255, 256, -255, 1000, 65535, 2 ** 31 - 1,
        2 ** 31, -2 ** 31, 2 ** 32, 2 ** 62, -2 ** 62, 2 ** 63 - 1, -2 ** 63 + 1]
FLTS = ["0.0", "1.0", "-1.0", "0.5", "2.0", "0.1", "0.2", "3.0", "1e10", "1e300", "1e-300", "-0.0", "7.25", "-2.5", "1e-9"]


class Gen:
    def __init__(self, rng, py):
        self.rng, self.py, self.n = rng, py, 0
        self.fty = {}
        self.globals = []

    def id(self):
        self.n += 1
        return self.n

    # ---------------------------------------------------------------- expressions
    def ic(self):
        c = self.rng.choice(INTS)
        return str(c) if c >= 0 else f"({c})"

    def nz(self):
        c = self.rng.choice([1, 1, 2, 3, 4, 7, 8, 10, 16, -2, -3, -8, 1000])
        return str(c) if c > 0 else f"({c})"

    def i(self, d, c):
        """int expression; c: variable context {'i': [...], 'f': [...], ...}"""
        r = self.rng
        if d <= 0 or r.random() < 0.12:
            x = r.random()
            if x < 0.36 and c["i"]:
                return r.choice(c["i"])
            if x < 0.72:
                return self.ic()
            if x < 0.9:
                return f"P({self.id()})"
            return f"sim_arg({r.randrange(4)})"
        k = r.choices(["arith", "ident", "div", "shift", "bit", "un", "cmp", "tern", "pure", "tup", "conv", "len", "mulv",
                       "chain", "pow", "idx", "cls", "call", "sum", "cc"],
                      [6, 7, 4, 3, 4, 5, 2, 3, 3, 3, 3, 2, 3, 4, 2, 2, 2, 2, 2, 5])[0]
        e = lambda: self.i(d - 1, c)
        if k == "arith":
            return f"({e()} {r.choice(['+', '-', '*'])} {e()})"
        if k == "cc":  # two constants
            return f"({self.ic()} {r.choice(['+', '-', '*', '&', '|', '^'])} {self.ic()})"
        if k == "ident":
            x = e()
            return r.choice([f"({x} * 0)", f"(0 * {x})", f"({x} * 1)", f"(1 * {x})", f"({x} + 0)", f"(0 + {x})", f"({x} - 0)",
                             f"(0 - {x})", f"({x} // 1)", f"(0 // (({x} & 7) + 1))", f"(-(-{x}))", f"(~(~{x}))", f"(+{x})",
                             f"({x} - {self.ic()})", f"({x} | 0)", f"({x} & 0)", f"({x} ^ 0)", f"({x} << 0)", f"({x} % 1)",
                             f"(1 // (({x} & 3) + 1))", f"(({x} & 7) ** 1)", f"(({x} & 7) ** 0)", f"(1 ** ({x} & 3))",
                             f"(0 << ({x} & 7))", f"(0 % (({x} & 7) + 1))"])
        if k == "div":
            if r.random() < 0.4:
                a = r.choice([0, 1, -1, 7, -7, 13, -13, 100, -100, 2 ** 40, -2 ** 40, 2 ** 63 - 1, -2 ** 63 + 1])
                b = r.choice([1, -1, 2, -2, 3, -3, 7, -7, 8, 10, 1000, -1000])
                return f"(({a}) {r.choice(['//', '%'])} ({b}))"
            if self.py and r.random() < 0.25:
                return f"(({e()} & 15) {r.choice(['//', '%'])} (P({self.id()}) & 3))"
            return f"(({e()} & {r.choice([15, 255, 65535])}) {r.choice(['//', '%'])} {self.nz()})"
        if k == "shift":
            a = r.choice([e, self.ic])()
            return f"({a} {r.choice(['<<', '>>'])} {r.choice([0, 1, 2, 5, 31, 32, 62, 63])})"
        if k == "bit":
            return f"({e()} {r.choice(['&', '|', '^'])} {e()})"
        if k == "un":
            return f"({r.choice(['-', '~', '+', '-', '~'])}{r.choice([e, self.ic])()})"
        if k == "cmp":
            return f"int({self.b(d - 1, c)})"
        if k == "tern":
            return f"({e()} if {self.b(d - 1, c)} else {e()})"
        if k == "pure":
            return r.choice([f"pure({e()})", f"pure2({e()}, {e()})"])
        if k == "tup":
            if r.random() < 0.5:
                return f"({e()}, {e()}, {e()})[{r.randrange(3)}]"
            if c["t"]:
                return f"{r.choice(c['t'])}[{r.randrange(2)}]"
            return f"V2({e()}, {e()}).{r.choice('ab')}"
        if k == "conv":
            return r.choice([f"int({r.choice(['0.0', '1.9', '-1.9', '2.5', '1e15', '-0.0', '0.999'])})", f"int({e()})",
                             f"int({r.choice(['True', 'False'])})", f"abs({e()} & 65535)", f"min({e()}, {e()})", f"max({e()}, {e()})"])
        if k == "len":
            return r.choice([f"len({self.s(d - 1, c)})", f"len({self.l(d - 1, c)})"])
        if k == "mulv":
            if not c["i"]:
                return self.ic()
            v = r.choice(c["i"])
            a, b = [r.choice([self.ic(), e(), r.choice(c["i"]), r.choice(c["i"])]) for _ in range(2)]
            if r.random() < 0.5:  # all ways to share a factor
                x, y = r.choice([(a, v), (v, a)]), r.choice([(b, v), (v, b)])
                return f"({x[0]} * {x[1]} {r.choice('++-')} {y[0]} * {y[1]})"
            return r.choice([f"({a} * {v} + {b} * {v})", f"({v} * {a} + {v})", f"({v} + {v} * {a})", f"({v} * {a} + {b} * {v})",
                             f"({v} + {v})", f"({v} * {a} - {v} * {b})", f"(({v} + {a}) * {b})"])
        if k == "chain":
            op = r.choice(["+", "*", "&", "|", "^"])
            ops = [r.choice([e, self.ic, self.ic])() for _ in range(r.randint(3, 5))]
            if r.random() < 0.4:
                ops = [f"({ops[0]} {op} {ops[1]})", f"({f' {op} '.join(ops[2:])})"]
            return "(" + f" {op} ".join(ops) + ")"
        if k == "pow":
            a = r.choice(["2", "3", "(-2)", "10", "0", "1", "(-1)", f"({e()} & 7)"])
            return f"({a} ** {r.choice([0, 1, 2, 3, 5, 10, 63, 64, 70])})"
        if k == "idx":
            if c["l"]:
                return f"{r.choice(c['l'])}[{r.choice(['0', '-1', '1', '(' + e() + ' & 3)'])}]"
            return f"[{e()}, {e()}][{e()} & 1]"
        if k == "cls":
            return r.choice([f"(K({e()}) + K({e()})).v", f"K({e()}).bump({e()})", f"Der({e()}).f({e()})", f"Base({e()}).g()",
                             f"(V2({e()}, {e()}) + V2({e()}, {e()})).a", f"(V2({e()}, {e()}) * {e()}).b"])
        if k == "call" and c["fn"]:
            return f"{r.choice(c['fn'])}({e()})"
        if k == "sum":
            v = f"q{self.id()}"
            c2 = dict(c, i=c["i"] + [v])
            c0 = c
            it = r.choice([f"range({r.randint(0, 4)})", f"[{self.i(d - 1, c0)}, {self.i(d - 1, c0)}]"])
            cond = f" if (B({self.id()}) and {self.b(d - 2, c2)})" if r.random() < 0.4 else ""
            st = r.choice(["", "", f", {e()}"])
            src = f"({self.i(d - 2, c2)} for {v} in {it}{cond})"
            return f"sum({src}{st})" if st or r.random() < 0.7 else f"len([a for a in {src}])"
        return e()

    def f(self, d, c):
        r = self.rng
        if d <= 0 or r.random() < 0.15:
            x = r.random()
            if x < 0.4 and c["f"]:
                return r.choice(c["f"])
            if x < 0.8:
                return "(" + r.choice(FLTS) + ")"
            return f"Q({self.id()})"
        e = lambda: self.f(d - 1, c)
        k = r.choices(["ar", "mix", "div", "un", "conv", "tern", "id", "pow", "fd", "cc"], [6, 4, 3, 2, 3, 2, 5, 1, 1, 4])[0]
        if k == "ar":
            return f"({e()} {r.choice('+-*')} {e()})"
        if k == "cc":
            return f"({r.choice(FLTS)} {r.choice('+-*')} {r.choice(FLTS)})"
        if k == "mix":
            return r.choice([f"({e()} {r.choice('+-*')} {self.i(d - 1, c)})", f"({self.i(d - 1, c)} {r.choice('+-*')} {e()})",
                             f"({self.ic()} {r.choice('+-*')} {r.choice(FLTS)})", f"({r.choice(FLTS)} {r.choice('+-*')} {self.ic()})"])
        if k == "div":
            return r.choice([f"({e()} / {e()})", f"({e()} / {self.i(d - 1, c)})", f"({self.i(d - 1, c)} / {e()})",
                             f"({self.i(d - 1, c)} / {self.i(d - 1, c)})", f"({r.choice(FLTS)} / {r.choice(FLTS)})",
                             f"({self.ic()} / {r.choice(FLTS)})", f"({r.choice(FLTS)} / {self.ic()})"])
        if k == "un":
            return f"({r.choice('-+')}{e()})"
        if k == "conv":
            return r.choice([f"float({self.i(d - 1, c)})", f"float({self.ic()})", f"float({e()})", f"float({r.choice(['True', 'False'])})"])
        if k == "tern":
            return f"({e()} if {self.b(d - 1, c)} else {e()})"
        if k == "id":
            x = e()
            return r.choice([f"({x} * 0.0)", f"({x} + 0.0)", f"({x} - 0.0)", f"(0.0 - {x})", f"({x} * 1.0)", f"({x} / 1.0)",
                             f"(-(-{x}))", f"({x} - {r.choice(FLTS)})", f"(0.0 + {x})", f"({x} * 0)", f"({x} + 0)", f"({x} - {self.ic()})"])
        if k == "pow":
            return r.choice(["(2.0 ** 3.0)", "(0.5 ** 2.0)", "(3.0 ** 2.0)", "(2.0 ** -2.0)", "(2.0 ** 10)", "(0.0 ** 0.0)"])
        return f"({e()} // {r.choice(['2.0', '0.5', '-3.0'])})" if r.random() < 0.5 else f"min({e()}, {e()})"

    def b(self, d, c):
        r = self.rng
        if d <= 0 or r.random() < 0.15:
            x = r.random()
            if x < 0.25 and c["b"]:
                return r.choice(c["b"])
            return r.choice(["True", "False", f"B({self.id()})", f"B({self.id()})"])
        e = lambda: self.b(d - 1, c)
        k = r.choices(["icmp", "fcmp", "and", "not", "bx", "scmp", "conv", "kcmp", "anyall", "mix", "in", "tup"],
                      [7, 3, 4, 3, 3, 1, 3, 2, 2, 2, 1, 1])[0]
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        if k == "icmp":
            return r.choice([f"({self.i(d - 1, c)} {op} {self.i(d - 1, c)})", f"({self.ic()} {op} {self.ic()})",
                             f"({self.ic()} {op} {self.i(d - 1, c)} {op} {self.i(d - 1, c)})"])
        if k == "fcmp":
            return r.choice([f"({self.f(d - 1, c)} {op} {self.f(d - 1, c)})", f"({r.choice(FLTS)} {op} {r.choice(FLTS)})"])
        if k == "mix":
            return r.choice([f"({self.f(d - 1, c)} {op} {self.i(d - 1, c)})", f"({self.ic()} {op} {r.choice(FLTS)})",
                             f"({r.choice(FLTS)} {op} {self.ic()})"])
        if k == "and":
            return f"({e()} {r.choice(['and', 'or'])} {e()})"
        if k == "not":
            return f"(not {e()})"
        if k == "bx":
            return f"({r.choice([e(), 'True', 'False'])} {r.choice('^&|')} {r.choice([e(), 'True', 'False'])})"
        if k == "scmp":
            return f"({self.s(d - 1, c)} {op} {self.s(d - 1, c)})"
        if k == "conv":
            return r.choice([f"bool({self.i(d - 1, c)})", f"bool({self.ic()})", f"bool({r.choice(FLTS)})", f"bool({e()})"])
        if k == "kcmp":
            return f"(K({self.i(d - 1, c)}) {r.choice(['<', '>', '=='])} K({self.i(d - 1, c)}))"
        if k == "in":
            return f"({self.i(d - 1, c)} in {self.l(d - 1, c)})"
        if k == "tup":
            return f"(({self.i(d - 1, c)}, {self.i(d - 1, c)}) {op} ({self.i(d - 1, c)}, {self.i(d - 1, c)}))"
        v = f"q{self.id()}"
        c2 = dict(c, i=c["i"] + [v])
        return f"{r.choice(['any', 'all'])}({self.b(d - 2, c2)} for {v} in range({r.randint(0, 3)}))"

    def s(self, d, c):
        r = self.rng
        if d <= 0 or r.random() < 0.2:
            x = r.random()
            if x < 0.4 and c["s"]:
                return r.choice(c["s"])
            return r.choice(['""', '"a"', '"xyz"', f"S({self.id()})"])
        e = lambda: self.s(d - 1, c)
        k = r.choice(["add", "add", "add", "f", "str", "mul", "sl", "tern", "cat", "join"])
        if k == "add":
            ops = [e() for _ in range(r.randint(2, 4))]
            if r.random() < 0.3:
                ops = [ops[0], "(" + " + ".join(ops[1:]) + ")"]
            return "(" + " + ".join(ops) + ")"
        if k == "f":
            return f"f'{{{self.i(0, dict(c, s=[])).replace(chr(34), '')}}}-{{{self.i(0, c)}}}'"
        if k == "str":
            return r.choice([f"str({self.i(d - 1, c)})", f"str({self.b(d - 1, c)})"])
        if k == "mul":
            return f"({e()} * {r.randint(-1, 3)})"
        if k == "sl":
            return f"{e()}[{r.choice(['', '0', '1', '-2'])}:{r.choice(['', '2', '-1', '5'])}]"
        if k == "tern":
            return f"({e()} if {self.b(d - 1, c)} else {e()})"
        if k == "cat":
            return f"str.cat({e()}, {e()}, {e()})"
        return f"({e()}).join([{e()}, {e()}])"

    def l(self, d, c):
        r = self.rng
        if d <= 0 or r.random() < 0.2:
            if c["l"] and r.random() < 0.6:
                return r.choice(c["l"])
            return "[" + ", ".join(self.i(max(d - 1, 0), c) for _ in range(r.randint(1, 3))) + "]"
        e = lambda: self.l(d - 1, c)
        k = r.choice(["add", "add", "add", "add", "sl", "comp", "lst", "mul"])
        if k == "add":
            ops = []
            for _ in range(r.randint(2, 4)):
                x = e()
                if r.random() < 0.4:
                    x += self.slice(c)
                ops.append(x)
            if r.random() < 0.25:
                ops = [ops[0], "(" + " + ".join(ops[1:]) + ")"]
            return "(" + " + ".join(ops) + ")"
        if k == "sl":
            return e() + self.slice(c)
        if k == "comp":
            v = f"q{self.id()}"
            c2 = dict(c, i=c["i"] + [v])
            return f"[{self.i(d - 2, c2)} for {v} in {r.choice([f'range({r.randint(0, 3)})', self.l(d - 1, dict(c))])}]"
        if k == "mul":
            return f"({e()} * {r.randint(0, 2)})"
        return "[" + ", ".join(self.i(d - 1, c) for _ in range(r.randint(1, 3))) + "]"

    def slice(self, c):
        r = self.rng
        x = lambda: r.choice(["", "", "0", "1", "2", "-1", "-2", "5", f"(P({self.id()}) & 3)"])
        return f"[{x()}:{x()}]" if r.random() < 0.75 else f"[{x()}:{x()}:{r.choice(['1', '2', '-1', '-2'])}]"

    def plain(self, d, c):
        """int expression over variables, constants and P only: a walrus inside a call is typed late and may be missed by later reads"""
        r = self.rng
        if d <= 0 or r.random() < 0.3:
            return r.choice([self.ic(), f"P({self.id()})"] + c["i"][:3] + c["mi"][:2])
        return f"({self.plain(d - 1, c)} {r.choice(['+', '-', '&', '*'])} {self.plain(d - 1, c)})"

    def wal(self, c):
        r = self.rng
        return f"(({r.choice(c['mi'])} := {self.plain(1, c)}) {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.ic()})"

    def cond(self, d, c):
        r = self.rng
        if not c["mi"] or r.random() > 0.25:
            return self.b(d, c)
        a = r.choice([f"B({self.id()})", f"{self.plain(0, c)} {r.choice(['<', '==', '!='])} {self.plain(0, c)}", self.wal(c)])
        return r.choice([self.wal(c), f"({a} and {self.wal(c)})", f"({a} or {self.wal(c)})", f"({self.wal(c)} if {a} else {self.wal(c)})",
                         f"({self.plain(0, c)} < {self.plain(0, c)} < ({r.choice(c['mi'])} := {self.plain(1, c)}))"])

    # ---------------------------------------------------------------- statements
    def block(self, ind, d, c, lo=1, hi=4):
        out = []
        for _ in range(self.rng.randint(lo, hi)):
            o = self.stmt(ind, d, c)
            out += o
        return out or [f"{ind}pass"]

    def log(self, ind, c):
        r = self.rng
        k = r.choice([t for t in "iifbsl" if c[t]] or ["i"])
        e = {"i": self.i, "f": self.f, "b": self.b, "s": self.s, "l": self.l}[k](r.choice([0, 0, 2]), c)
        return [f"{ind}l{k}({self.id()}, {e})"]

    def assign(self, ind, c, d=3):
        r = self.rng
        k = r.choice([t for t in "iiiifbsl" if c["m" + t]] or ["x"])
        if k == "x":
            return []
        v = r.choice(c["m" + k])
        x = r.random()
        if k == "i" and x < 0.35:
            return [f"{ind}{v} = {self.ic()}"]
        if k == "i" and x < 0.42:
            return [f"{ind}{v} = ({r.choice(c['mi'])} := {self.plain(2, c)}) {r.choice(['+', '-', '&'])} {self.plain(1, c)}"]
        if k == "i" and x < 0.6:
            return [f"{ind}{v} {r.choice(['+=', '-=', '*=', '&=', '|=', '^='])} {self.i(d - 1, c)}"]
        if k == "f" and x < 0.3:
            return [f"{ind}{v} = {r.choice(FLTS)}"]
        if k == "b" and x < 0.3:
            return [f"{ind}{v} = {r.choice(['True', 'False'])}"]
        if k == "l" and x < 0.3:
            return [f"{ind}{v} += {self.l(1, c)}"]
        return [f"{ind}{v} = {dict(i=self.i, f=self.f, b=self.b, s=self.s, l=self.l)[k](d, c)}"]

    def stmt(self, ind, d, c):
        r = self.rng
        kinds = ["assign"] * 9 + ["log"] * 6 + ["dead"] * 4 + ["dict"] * 3 + ["print"] * 2 + ["tuple", "swap", "ptr", "obj", "lst", "lst", "tens", "kobj"]
        if d > 0:
            kinds += ["if"] * 4 + ["flow"] * 4 + ["for"] * 3 + ["while"] * 2 + ["try"] * 4 + ["inner", "ifc", "ifc", "wh0", "forc", "forc", "gen", "fx", "fx"]
        if self.globals:
            kinds += ["gptr"]
        if c["loop"]:
            kinds += ["brk", "brk"]
        if c["fun"]:
            kinds += ["ret"]
        k = r.choice(kinds)
        i2 = ind + "    "
        if k == "assign":
            return self.assign(ind, c)
        if k == "log":
            return self.log(ind, c)
        if k == "dead":
            return [ind + r.choice([self.i(2, c), self.b(2, c), self.f(1, c), f"[{self.i(1, c)}, {self.i(1, c)}]",
                                    f"pure({self.i(1, c)})", f"pure2({self.i(1, c)}, {self.i(1, c)})", f"P({self.id()})",
                                    f"({self.i(1, c)}, {self.b(1, c)})", f"V2({self.i(1, c)}, {self.i(1, c)})",
                                    f"thr({self.i(1, c)} & 7)", f"K({self.i(1, c)}).bump({self.i(0, c)})", self.l(2, c), self.s(2, c),
                                    f"[{self.i(1, c)} for qq in range(3)]"])]
        if k == "dict":
            if c["di"] and r.random() < 0.7:
                dd = r.choice(c["di"])
                key = r.choice(["1", "2", "k0", f"({self.i(1, c)} & 3)", f"P({self.id()})"] + c["i"][:2])
                if key == "k0":
                    key = c["i"][0] if c["i"] else "0"
                rhs = r.choice([self.i(2, c), f"P({self.id()})", self.ic(), f"{dd}.get(1, 5)", f"len({dd})", f"{dd}.pop({key})"])
                op = r.choice(["+", "-", "*", "&", "|", "^", "+"])
                return [ind + r.choice([f"{dd}[{key}] = {dd}[{key}] {op} {rhs}", f"{dd}[{key}] {op}= {rhs}",
                                        f"{dd}[{key}] = {dd}.get({key}, {self.ic()}) {op} {rhs}",
                                        f"{dd}[{key}] = {dd}.get({key}, {self.i(1, c)}) {op} {rhs}", f"{dd}[{key}] = {rhs}",
                                        f"{dd}[{key}] = {dd}.get({r.choice([key, '1'])}, 0) {op} {rhs}"]),
                        f"{ind}ld({self.id()}, {dd})"]
            if c["ds"]:
                dd = r.choice(c["ds"])
                key = r.choice(['"a"', '"b"'] + c["s"][:1])
                op = r.choice("+-*/")
                return [ind + r.choice([f"{dd}[{key}] = {dd}.get({key}, {r.choice(FLTS)}) {op} {self.f(2, c)}",
                                        f"{dd}[{key}] = {dd}[{key}] {op} {self.f(2, c)}", f"{dd}[{key}] += {self.f(2, c)}"]),
                        f"{ind}lsd({self.id()}, {dd})"]
            return []
        if k == "print":
            a = r.choice([f"{self.s(2, c)}", f"{self.s(1, c)} + {self.s(1, c)} + str({self.i(1, c)})", f"{self.i(2, c)}, {self.s(1, c)}",
                          f"f'a{{{self.i(0, c)}}}b{{{self.i(0, c)}}}'", f"{self.s(2, c)} + {self.s(1, c)}, {self.i(1, c)}, sep='|'",
                          f"{self.s(1, c)} + {self.s(1, c)}, end={r.choice([repr(';'), repr('')])}", f"str.cat({self.s(1, c)}, {self.s(1, c)})"])
            return [f"{ind}print({a})"]
        if k == "tuple":
            if not c["mt"]:
                return []
            t = r.choice(c["mt"])
            return [f"{ind}{t} = ({self.i(1, c)}, {self.i(1, c)})"]
        if k == "swap":
            if len(c["mi"]) < 2:
                return []
            a, b = r.sample(c["mi"], 2)
            return [f"{ind}{a}, {b} = {r.choice([b, self.i(1, c)])}, {r.choice([a, self.i(1, c)])}"]
        if k == "ptr":
            if not c["mi"] or c.get("noptr"):
                return []
            v, p = r.choice(c["mi"]), f"p{self.id()}"
            return [f"{ind}{v} = {self.ic()}", f"{ind}{p} = __ptr__({v})", ind + r.choice([f"{p}[0] = {self.i(1, c)}", f"poke({p}, {self.i(1, c)})"]),
                    f"{ind}li({self.id()}, {v})"]
        if k == "gptr":  # a global assigned once by name, then through a pointer
            g = r.choice(self.globals)
            return [f"{ind}poke(__ptr__({g}), {self.i(1, c)})", f"{ind}li({self.id()}, get{g}())", f"{ind}li({self.id()}, {g})"][:r.choice([1, 2, 3, 3])]
        if k == "fx":  # code that is pure apart from one effect at one unusual place
            if not c["fun"] or c.get("noptr") or r.random() < 0.4:
                return self.fx(ind, 2, r.choice(["1", "2", self.ic()]))
            f = f"fx{self.id()}"
            body = [f"{ind}def {f}(y: int) -> int:"] + self.fx(i2, r.choice([1, 1, 2, 3]), "y")
            return body + [f"{i2}return y", ind + r.choice([f"{f}({self.i(1, c)})", f"{f}({self.ic()})", f"li({self.id()}, {f}({self.i(1, c)}))"])]
        if k == "obj":
            if not c["k"]:
                return []
            o = r.choice(c["k"])
            return [ind + r.choice([f"{o}.v = {self.i(2, c)}", f"{o}.bump({self.i(1, c)})", f"{o}.v += {self.i(1, c)}", f"{o}.v *= 0"]),
                    f"{ind}li({self.id()}, {o}.v)"]
        if k == "kobj":
            return [f"{ind}lb({self.id()}, K({self.i(1, c)}) {r.choice(['<', '>', '=='])} K({self.i(1, c)}))",
                    f"{ind}li({self.id()}, (Der({self.ic()}) if {self.b(1, c)} else Base({self.ic()})).f({self.i(1, c)}))"][:1]
        if k == "flow":
            ms = [r.choice(c["mi"])] if c["mi"] and r.random() < 0.8 else [f"m{self.id()}"]
            pre = [] if ms[0] in c["mi"] else [f"{ind}{ms[0]} = {self.ic()}"]
            if r.random() < 0.4:
                ms.append(f"m{self.id()}")
                x = r.choice(["1", "0", "True", "2.5"])
                self.fty[ms[1]] = {"T": "b", "2": "f"}.get(x[0], "i")
                pre.append(f"{ind}{ms[1]} = {x}")
            fl = dict(ms=ms)
            return pre + self.flow(ind, r.randint(2, 3), fl, c["loop"], c["fun"]) + [f"{ind}lx({self.id()}, {m})" for m in ms]
        if k == "lst":
            if not c["ml"]:
                return []
            v = r.choice(c["ml"])
            return [ind + r.choice([f"wr({v}, {self.i(1, c)})", f"{v}.append({self.i(1, c)})", f"{v}[0] = {self.i(1, c)}",
                                    f"{v}[-1] += {self.i(1, c)}", f"{v} = {v} + {v}[1:] + [{self.i(1, c)}]", f"{v} = {v} + grow({v}, {self.i(1, c)})",
                                    f"ll({self.id()}, {v}[:2] + grow({v}, 1) + {v})"]), f"{ind}ll({self.id()}, {v}[:6])",
                    f"{ind}{v} = {v}[:5]"]
        if k == "tens":
            return [f"{ind}thr({self.i(1, c)} & 7)"]
        if k == "if":
            out = [f"{ind}if {self.cond(2, c)}:"] + self.block(i2, d - 1, c)
            if r.random() < 0.3:
                out += [f"{ind}elif {self.cond(2, c)}:"] + self.block(i2, d - 1, c)
            if r.random() < 0.5:
                out += [f"{ind}else:"] + self.block(i2, d - 1, c)
            return out
        if k == "ifc":  # constant condition through a variable
            v = f"v{self.id()}"
            x, y = r.choice([("3", f"{v} > 2"), ("0", f"{v} != 0"), ("1", f"{v} == 1"), ("True", f"not {v}"), ("False", v), ("2.5", f"{v} < 2"),
                             (self.ic(), f"{v} {r.choice(['<', '>=', '=='])} {self.ic()}")])
            mid = self.block(ind, 0, c, 0, 2)
            reassign = []
            if r.random() < 0.35 and x not in ("True", "False", "2.5"):
                reassign = [f"{ind}if {self.b(1, c)}:", f"{i2}{v} = {self.ic()}"]
            out = [f"{ind}{v} = {x}"] + [m for m in mid if m.strip() != "pass"] + reassign + [f"{ind}if {y}:"] + self.block(i2, d - 1, c)
            if r.random() < 0.6:
                out += [f"{ind}else:"] + self.block(i2, d - 1, c)
            return out
        if k == "for":
            v = f"a{self.id()}"
            it = r.choice([f"range({self.i(1, c)} & 3)", f"range({r.randint(0, 4)})", self.l(1, c) + "[:4]"])
            c2 = dict(c, i=c["i"] + [v], loop=True)
            if r.random() < 0.3:
                c2["mi"] = c["mi"] + [v]
            out = [f"{ind}for {v} in {it}:"] + self.block(i2, d - 1, c2)
            if r.random() < 0.2:
                out += [f"{ind}else:"] + self.block(i2, d - 1, c)
            return out
        if k == "forc":  # constant bounds and steps, empty and extreme ranges
            v = f"a{self.id()}"
            a, b, s = r.choice([(0, 3, 1), (3, 0, -1), (3, 0, 1), (0, 3, -1), (5, 5, 1), (0, 10, 4), (10, 0, -4), (0, 1, 100), (-3, 3, 2),
                                (2 ** 63 - 4, 2 ** 63 - 2, 1), (-2 ** 63 + 4, -2 ** 63 + 1, -1), (1, 0, 1), (0, 0, -1), (0, -1, -1)])
            lo, hi = (a, b) if r.random() < 0.6 else (f"({self.i(0, c)} & 1) + ({a})", b) if abs(a) < 100 else (a, b)
            st = f", {s}" if s != 1 or r.random() < 0.3 else ""
            c2 = dict(c, i=c["i"] + [v], loop=True)
            return [f"{ind}for {v} in range({lo}, {hi}{st}):"] + self.block(i2, d - 1, c2, 1, 3)
        if k == "while":
            v = f"w{self.id()}"
            pre = [f"{ind}{v} = 0"]
            c2 = dict(c, i=c["i"] + [v], loop=True)
            lim = r.randint(1, 3)
            cond = r.choice([f"{v} < {lim}", f"{v} < {lim}", f"{v} < {lim} and {self.cond(1, c)}", f"({self.cond(1, c)} if {v} < {lim} else False)",
                             f"not ({v} >= {lim} or {self.cond(1, c)})"])
            out = pre + [f"{ind}while {cond}:", f"{i2}{v} += 1"]
            out += self.block(i2, d - 1, c2)
            if r.random() < 0.2:
                out += [f"{ind}else:"] + self.block(i2, d - 1, c)
            return out
        if k == "wh0":
            return [f"{ind}while {r.choice(['False', '0 > 1', '1 * 0 != 0'])}:"] + self.block(i2, d - 1, dict(c, loop=True))
        if k == "try":
            out = [f"{ind}try:"] + self.block(i2, d - 1, c, 2, 5)
            sh = r.choice(["e", "e", "f", "b"])
            if sh != "f":
                x = f"x{self.id()}"
                out += [f"{ind}except E as {x}:", f"{i2}li({self.id()}, {x}.code)"] + self.block(i2, d - 1, c)
                if r.random() < 0.2:
                    out += [f"{ind}else:"] + self.block(i2, d - 1, c)
            if sh != "e":
                out += [f"{ind}finally:"] + self.block(i2, d - 1, dict(c, loop=False, fun=False), 1, 3)
            return out
        if k == "inner":
            f = f"in{self.id()}"
            pre = []
            cap = None
            if c["fun"] and r.random() < 0.5:  # a captured variable is only used inside arithmetic (see the language notes)
                cap = f"cp{self.id()}"
                pre = [f"{ind}{cap} = {self.i(1, c)}"]
            # only frozen copies are captured: a captured variable that is also assigned conditionally may be read uninitialised
            # by the (unoptimised) language implementation, which leaves nothing to compare with
            ci = dict(self.ctx(), i=["y"], mi=[cap] if cap else [], fun=False, noptr=True)
            for t in r.sample("ifbslt", 2):
                if c[t]:
                    z = f"z{self.id()}"
                    pre.append(f"{ind}{z} = {r.choice(c[t])}")
                    ci[t] = ci[t] + [z]
            body = ([f"{i2}nonlocal {cap}"] if cap else []) + self.block(i2, 0, ci, 1, 3) + [f"{i2}return {self.i(1, ci)}"]
            return pre + [f"{ind}def {f}(y: int) -> int:"] + body + [f"{ind}li({self.id()}, {f}({self.i(1, c)}))"] + \
                ([f"{ind}li({self.id()}, {cap} + {self.i(0, c)})"] if cap else self.log(ind, c))
        if k == "gen":
            f = f"ge{self.id()}"
            ci = dict(c, i=["y", "z"], mi=["z"], mf=[], mb=[], ms=[], ml=[], mt=[], f=[], b=[], s=[], l=[], t=[], k=[], di=[], ds=[], fn=[],
                      loop=False, fun=False, noptr=True)
            x = r.random()
            early = [f"{i2}if {self.b(1, ci)}:"] + ([f"{i2}    yield {self.i(0, ci)}"] if r.random() < .5 else []) + [f"{i2}    return"] \
                if x < 0.3 else [f"{i2}for zz in range(z & 3):", f"{i2}    z += zz"] + \
                ([f"{i2}    if {self.b(1, ci)}:", f"{i2}        {r.choice(['break', 'continue', 'return'])}"]) + [f"{i2}    yield z"] if x < 0.5 else \
                [f"{i2}try:", f"{i2}    yield {self.i(1, ci)}", f"{i2}except E as ex:", f"{i2}    yield ex.code"] if x < 0.65 else []
            body = [f"{i2}z = {self.ic()}"] + self.block(i2, 0, ci, 0, 2) + early + [f"{i2}yield {self.i(1, ci)}"] + self.assign(i2, ci) + \
                   [f"{i2}yield {self.i(1, ci)}"] + self.block(i2, 0, ci, 0, 1)
            v = f"a{self.id()}"
            use = r.choice([[f"{ind}for {v} in {f}({self.i(1, c)}):", f"{i2}li({self.id()}, {v})"], [f"{ind}li({self.id()}, sum({f}({self.i(1, c)})))"],
                            [f"{ind}ll({self.id()}, list({f}({self.i(1, c)})))"], [f"{ind}{f}({self.i(1, c)})"],
                            [f"{ind}lb({self.id()}, any({v} > 2 for {v} in {f}({self.i(1, c)})))"],
                            [f"{ind}lb({self.id()}, {r.choice(['any', 'all'])}({f}({self.i(1, c)})))"],
                            [f"{ind}li({self.id()}, len(list({f}({self.i(1, c)}))))"]])
            if r.random() < 0.35:  # a generator of truth values for any()/all(), which the compiler rewrites into its body
                leave = lambda: r.choice([[f"{i2}if {r.choice([f'y & {r.choice([1, 2, 4])} == 0', f'B({self.id()})', f'y < {self.ic()}'])}:"] +
                                          ([f"{i2}    z = {self.ic()}"] if r.random() < .3 else []) + [f"{i2}    return"], []])
                body = [f"{i2}z = {self.ic()}"]
                for _ in range(r.randint(1, 3)):
                    body += leave()
                    yv = r.choice([f"z == {self.ic()}", self.b(1, ci), f"B({self.id()})", "True", "False", f"y > {self.ic()}"])
                    if r.random() < 0.5:
                        body += [f"{i2}yield {yv}"]
                    else:
                        q = f"a{self.id()}"
                        body += [f"{i2}for {q} in range({r.randint(0, 4)}):"] + [f"{i2}    " + x.strip() if not x.startswith(i2 + "    ") else "    " + x for x in leave()] + \
                                [f"{i2}    yield {r.choice([yv, f'{q} < {r.randint(1, 4)}', f'{q} == y'])}"]
                use = [f"{ind}lb({self.id()}, {r.choice(['any', 'all'])}({f}({self.i(1, c)})))" for _ in range(r.randint(1, 3))]
            return [f"{ind}def {f}(y: int):"] + body + use
        if k == "brk":
            return [f"{ind}if {self.cond(1, c)}:", i2 + r.choice(["break", "continue"])]
        if k == "ret":
            if r.random() < 0.5:
                return [f"{ind}if {self.cond(1, c)}:", f"{i2}return {self.i(1, c)}"]
            return []
        raise KeyError(k)

    def fx(self, ind, d, y):
        """statements with exactly one place that has an effect; every other place is pure"""
        r, i2, n = self.rng, ind + "    ", self.id()
        if d <= 0:
            return [ind + r.choice([f"li({n}, {y})", f"li({n}, {y})", f"P({n})", f"poke(__ptr__({self.globals[0]}), {n})" if self.globals else f"li({n}, 0)"])]
        nop = lambda: [i2 + r.choice(["pass", f"z{n} = {y} * 2", f"pure({y})", f"z{n} = 1"])]
        sub = lambda: self.fx(i2, d - 1, y)
        k = r.choice(["fin", "fin", "body", "exc", "els", "if", "ifelse", "ifcond", "for", "forelse", "foriter", "while", "whcond", "tern", "sc", "comp",
                      "compc", "arg", "tup", "chain"])
        if k == "fin":
            return [f"{ind}try:"] + nop() + [f"{ind}finally:"] + sub()
        if k == "body":
            return [f"{ind}try:"] + sub() + r.choice([[f"{ind}except E:"], [f"{ind}finally:"]]) + nop()
        if k == "exc":
            return [f"{ind}try:", f"{i2}thr({r.choice([3, 9, n & 15])})", f"{ind}except E:"] + sub() + r.choice([[], [f"{ind}else:"] + nop(), [f"{ind}finally:"] + nop()])
        if k == "els":
            return [f"{ind}try:"] + nop() + [f"{ind}except E:"] + nop() + [f"{ind}else:"] + sub()
        if k == "if":
            return [f"{ind}if {y} {r.choice(['>', '<', '!='])} {r.choice([0, 3])}:"] + sub()
        if k == "ifelse":
            return [f"{ind}if {y} {r.choice(['>', '<', '=='])} 1:"] + nop() + [f"{ind}else:"] + sub()
        if k == "ifcond":
            return [f"{ind}if B({n}):"] + nop()
        if k == "for":
            return [f"{ind}for z{n} in {r.choice(['range(2)', '[1, 2]', 'range(3, 0, -1)'])}:"] + sub()
        if k == "forelse":
            return [f"{ind}for z{n} in range(2):"] + nop() + [f"{ind}else:"] + sub()
        if k == "foriter":
            return [f"{ind}for z{n} in range(P({n}) & 3):"] + nop()
        if k == "while":
            return [f"{ind}w{n} = 0", f"{ind}while w{n} < 2:", f"{i2}w{n} += 1"] + sub()
        if k == "whcond":
            return [f"{ind}w{n} = 0", f"{ind}while w{n} < 2 and B({n}):", f"{i2}w{n} += 1"]
        if k == "tern":
            return [ind + r.choice([f"(P({n}) if {y} > 1 else {y})", f"({y} if {y} > 1 else P({n}))", f"({y} if B({n}) else 1)"])]
        if k == "sc":
            return [ind + r.choice([f"({y} > 1 and B({n}))", f"({y} > 1 or B({n}))", f"(not B({n}))"])]
        if k == "comp":
            return [f"{ind}[P({n}) for z{n} in range(2)]"]
        if k == "compc":
            return [f"{ind}[1 for z{n} in range(2) if B({n})]"]
        if k == "arg":
            return [f"{ind}pure2({y}, P({n}))"]
        if k == "chain":
            return [f"{ind}({y} < P({n}) < 7)"]
        return [f"{ind}({y}, P({n}))"]

    def flow(self, ind, d, fl, loop, fun):
        """Dense control flow around a few variables that only ever hold constants (or small updates of themselves)."""
        r, i2, out = self.rng, ind + "    ", []
        for _ in range(r.randint(2, 4)):
            m = r.choice(fl["ms"])
            b = r.choice([f"B({self.id()})", f"B({self.id()})", f"P({self.id()}) & 1 == 1", self.fcond(m)])
            k = r.choice(["set", "set", "log", "log", "upd", "point"] + (["if", "if", "while", "for", "try", "try", "tern", "once", "once"] if d > 0 else []) +
                         (["brk", "brk"] if loop else []) + (["ret"] if fun else []) + ["raise"])
            if k == "set":
                out += [f"{ind}{m} = {self.fval(m)}"]
            elif k == "log":
                out += [f"{ind}lx({self.id()}, {m})"]
            elif k == "upd":
                out += [f"{ind}{m} = {self.fupd(m)}"]
            elif k == "point":
                out += [f"{ind}P({self.id()})"]
            elif k == "tern":
                out += [f"{ind}{m} = {self.fval(m)} if {b} else {m}"]
            elif k == "if":
                out += [f"{ind}if {b}:"] + self.flow(i2, d - 1, fl, loop, fun)
                if r.random() < 0.5:
                    out += [f"{ind}else:"] + self.flow(i2, d - 1, fl, loop, fun)
            elif k == "while":
                w = f"w{self.id()}"
                lim = r.randint(1, 3)
                mm = fl["ms"][0]
                cond = r.choice([f"{w} < {lim}", f"{w} < {lim} and {b}", f"{w} < {lim} and (({mm} := {self.fval(mm)}) < 5)",
                                 f"({b} if {w} < {lim} else False)", f"{w} < {lim} and ({b} or ({mm} := {self.fval(mm)}) == 3)"])
                out += [f"{ind}{w} = 0", f"{ind}while {cond}:", f"{i2}{w} += 1"] + self.flow(i2, d - 1, fl, True, fun)
                if r.random() < 0.2:
                    out += [f"{ind}else:"] + self.flow(i2, d - 1, fl, loop, fun)
            elif k == "for":
                v = f"a{self.id()}" if r.random() < 0.7 else fl["ms"][0]
                out += [f"{ind}for {v} in {r.choice(['range(2)', 'range(3)', f'range(sim_nargs())', '[4, 5]', 'range(0)'])}:"]
                out += self.flow(i2, d - 1, fl, True, fun)
                if r.random() < 0.2:
                    out += [f"{ind}else:"] + self.flow(i2, d - 1, fl, loop, fun)
            elif k == "try":
                out += [f"{ind}try:"] + self.flow(i2, d - 1, fl, loop, fun)
                sh = r.choice(["e", "f", "b"])
                if sh != "f":
                    out += [f"{ind}except E:"] + self.flow(i2, d - 1, fl, loop, fun)
                    if r.random() < 0.3:
                        out += [f"{ind}else:"] + self.flow(i2, d - 1, fl, loop, fun)
                if sh != "e":
                    out += [f"{ind}finally:"] + self.flow(i2, 0, fl, False, False)
            elif k == "once":  # every way out of the loop passes through the clean-up code
                w, i3, i4 = f"w{self.id()}", i2 + "    ", i2 + "        "
                out += [f"{ind}{w} = 0", f"{ind}while {r.choice(['True', 'True', f'{w} < 3'])}:", f"{i2}{w} += 1", f"{i2}{m} = {self.fval(m)}"]
                body = [f"{i3}if {r.choice([f'{w} > {r.randint(0, 2)}', f'{w} > 2 or {b}'])}:"] + \
                       ([f"{i4}{m} = {self.fval(m)}"] if r.random() < .3 else []) + [f"{i4}break"]
                for _ in range(r.randint(0, 2)):
                    x = r.choice(["cont", "ret", "raise", "set", "log"])
                    body += {"cont": [f"{i3}if B({self.id()}):", f"{i4}continue"], "raise": [f"{i3}if B({self.id()}):", f"{i4}raise E({self.id()})"],
                             "ret": [f"{i3}if B({self.id()}):", f"{i4}return {r.randint(0, 9)}"] if fun else [],
                             "set": [f"{i3}{m} = {self.fval(m)}"], "log": [f"{i3}lx({self.id()}, {m})"]}[x]
                if r.random() < .3:
                    body.append(f"{i3}break")
                fin = [f"{i3}{m} = {self.fval(m)}"] + (self.flow(i3, 0, fl, False, False) if r.random() < .4 else [])
                if r.random() < .25:
                    body = [f"{i3}try:"] + ["    " + y for y in body] + [f"{i3}finally:", f"{i4}{m} = {self.fval(m)}"]
                exc = [f"{i2}except E:", f"{i3}{r.choice(['pass', 'break', f'{m} = {self.fval(m)}'])}"] if r.random() < .35 else []
                if exc and r.random() < .3:
                    fin = []
                out += [f"{i2}try:"] + body + exc + ([f"{i2}finally:"] + fin if fin else []) + [f"{ind}lx({self.id()}, {m})"]
            elif k == "brk":
                out += [f"{ind}if {b}:"] + ([f"{i2}{m} = {self.fval(m)}"] if r.random() < 0.5 else []) + [i2 + r.choice(["break", "continue"])]
            elif k == "ret":
                out += [f"{ind}if {b}:", f"{i2}lx({self.id()}, {m})", f"{i2}return {r.randint(0, 9)}"]
            elif k == "raise":
                out += [f"{ind}if {b}:", f"{i2}raise E({self.id()})"]
        return out

    def fcond(self, m):
        return {"b": m, "f": f"{m} > 2.0"}.get(self.fty.get(m), f"{m} {self.rng.choice(['<', '==', '!=', '>='])} {self.rng.choice([0, 1, 3, 7])}")

    def fval(self, m):
        t = self.fty.get(m)
        return self.rng.choice(["True", "False"]) if t == "b" else self.rng.choice(["0.5", "2.5", "0.0"]) if t == "f" else \
            str(self.rng.choice([0, 1, 2, 3, 7, 9]))

    def fupd(self, m):
        t = self.fty.get(m)
        return f"not {m}" if t == "b" else f"{m} + 0.5" if t == "f" else self.rng.choice([f"{m} + 1", f"{m} * 0 + 3", f"{m} - {m}", f"{m} & 3"])

    def vars(self, ind, n, c):
        """Declarations of local (or module level) variables."""
        r = self.rng
        out = []
        for _ in range(n):
            t = r.choice("iiiiffbbsllt")
            v = f"{t}{self.id()}"
            if t == "i":
                x = r.choice([self.ic(), self.ic(), self.i(1, c)])
            elif t == "f":
                x = r.choice([r.choice(FLTS), self.f(1, c)])
            elif t == "b":
                x = r.choice(["True", "False", self.b(1, c)])
            elif t == "s":
                x = r.choice(['"q"', '""', self.s(1, c)])
            elif t == "l":
                x = r.choice(["[1, 2, 3]", "[0]", self.l(1, c)])
            else:
                x = f"({self.ic()}, {self.i(1, c)})"
            out.append(f"{ind}{v} = {x}")
            c[t].append(v)
            c["m" + t].append(v)
        if r.random() < 0.4:
            v = f"di{self.id()}"
            out.append(f"{ind}{v} = {{1: 10, 3: 4}}")
            c["di"].append(v)
        if r.random() < 0.15:
            v = f"ds{self.id()}"
            out.append(f"{ind}{v} = {{'a': 1.5}}")
            c["ds"].append(v)
        if r.random() < 0.25:
            v = f"k{self.id()}"
            out.append(f"{ind}{v} = K({self.ic()})")
            c["k"].append(v)
        return out

    def ctx(self):
        return {k: [] for k in ["i", "f", "b", "s", "l", "t", "mi", "mf", "mb", "ms", "ml", "mt", "di", "ds", "k", "fn"]} | \
               {"loop": False, "fun": True}

    def unit(self, u):
        r = self.rng
        out = []
        if r.random() < 0.35:  # module-level code: globals, some used by a function too
            c = self.ctx()
            c["fun"] = False
            body = self.vars("    ", r.randint(2, 4), c)
            body = [b[4:] for b in body]
            gl = [v for v in c["mi"]]
            fn = []
            if gl:
                g = r.choice(gl)
                fn = [f"def gs{u}(y: int) -> int:", f"    global {g}", f"    {g} = {self.ic()}", f"    return y"]
                c["fn"].append(f"gs{u}")
                fn += [f"def gf{u}(y: int) -> int:"] + ([f"    global {g}", f"    {g} += y"] if r.random() < .5 else []) + \
                     [f"    return {g} + y"]
                c["fn"].append(f"gf{u}")
            body2 = self.block("    ", 2, c, 3, 7) + self.log("    ", c) + self.log("    ", c)
            return fn_wrap(u, body, fn, body2), True
        c = self.ctx()
        c["i"].append("n")
        if r.random() < 0.3:
            c["mi"].append("n")
        deco = r.choice(["", "", "", "@noinline", "@inline"])
        if deco:
            out.append(deco)
        out += [f"def u{u}(n: int) -> int:"] + self.vars("    ", r.randint(2, 5), c)
        if self.globals and r.random() < 0.4:
            c["i"].append(r.choice(self.globals))
        out += self.block("    ", 3, c, 4, 9) + self.log("    ", c) + self.log("    ", c)
        out += [f"    return {self.i(1, c)}"]
        return out, False

    def program(self):
        r = self.rng
        out = []
        for _ in range(r.randint(0, 3)):
            g = f"G{self.id()}"
            out += [f"{g} = {self.ic()}", f"def get{g}() -> int:", f"    return {g}"]
            self.globals.append(g)
        units = []
        for u in range(r.randint(3, 6)):
            o, top = self.unit(u)
            out += o
            if not top:
                units.append(u)
        out += ["def main():", "    for t in range(sim_nargs()):", "        w = sim_arg(t)"]
        for j, u in enumerate(units):
            out += ["        try:", f"            sim_log(20, {u}, w, 0)", f"            li({u}, u{u}(w))", "        except E as e:",
                    f"            sim_log(21, {u}, e.code, 0)", "        except ZeroDivisionError:", f"            sim_log(22, {u}, 0, 0)",
                    "        except IndexError:", f"            sim_log(23, {u}, 0, 0)", "        except KeyError:",
                    f"            sim_log(24, {u}, 0, 0)"]
        out += ["main()"]
        return "\n".join(out) + "\n"


def fn_wrap(u, decl, fn, body):
    out = decl + fn
    out += ["try:"] + body + ["except E as e:", f"    sim_log(25, {u}, e.code, 0)", "except ZeroDivisionError:", f"    sim_log(26, {u}, 0, 0)",
                              "except IndexError:", f"    sim_log(27, {u}, 0, 0)", "except KeyError:", f"    sim_log(28, {u}, 0, 0)"]
    return out


def make_jobs(rng):
    if rng.random() < 0.1:
        base = ["-instr", "none"]
        return [dict(name="raw buffers", src=HDR + "class EX(Exception):\n    code: int\n    def __init__(self, c: int):\n        super().__init__('e')\n"
                     "        self.code = c\n" + rawbuf.Raw(rng).program(), flags=base + rng.choice([[], [], ["-L-auto-free"]]), ref=base + ["-debug"])]
    py = rng.random() < 0.35
    text = Gen(rng, py).program()
    base = ["-instr", "none"] + (["-py"] if py else [])
    ref = base + ["-debug"] + (["-disable-opt", "core-imperative-for-lowering"] if rng.random() < 0.2 else [])
    jobs = []
    for v in [[]] + ([["-disable-opt", rng.choice(DISABLE)]] if rng.random() < 0.35 else []):
        jobs.append(dict(name="optimised" + (" without " + v[1] if v else ""), src=HDR + text, flags=base + v, ref=ref))
    return jobs


def gen_spec(rng, job):
    s = dict(seed=rng.randrange(1 << 40), args=[rng.choice([0, 1, 2, 3, 5, 7, -1, 64, rng.randrange(-100, 1000)]) for _ in range(rng.choice([1, 2, 4]))],
             threads=1, budget=200000)
    x = rng.random()
    if x < 0.9:
        s["kinds"] = {"POINT": (rng.choice([500, 3000, 10000, 30000]), rng.choice([1, 2, 3, 6, 20]), rng.choice([1, 3, 8]))}
    if rng.random() < 0.1:
        s.setdefault("kinds", {})["GC"] = (rng.choice([3000, 30000]), 20, 2)
    return s


_ref = {}


def reference(job):
    so = S.compile_workload(job["src"], job["ref"])
    key = (os.getpid(), so)
    if key not in _ref:
        for k in list(_ref):
            if k[0] == os.getpid():
                _ref.pop(k).close()
        _ref[key] = S.Server(so, None, 20)
    return _ref[key]


def judge(job, spec, res):
    pts = [d for d in res.dec if S.KINDS[d[0]] == "POINT"]
    srv = reference(job)
    want = srv.run(S.replay_spec(spec, pts))
    if not want.ok():
        if want.status == "budget" or want.outcome() in ("hung",) or want.status == "logfull":
            return None
        if res.outcome() == want.outcome():
            return None
        return f"{job['name']}: the build ended with '{res.outcome()}', the unoptimised one with '{want.outcome()}'; {res.err[-200:]!r} / {want.err[-200:]!r}"
    if not res.ok():
        return f"{job['name']}: the build ended with '{res.outcome()}', the unoptimised one completed; {res.err[-300:]!r}"
    w = O.compare(O.events(want), O.events(res), f"{job['name']}: ")
    if w:
        return w.replace("the language prescribes", "the unoptimised build does")
    if res.out != want.out:
        n = next((i for i, (a, b) in enumerate(zip(res.out, want.out)) if a != b), min(len(res.out), len(want.out)))
        return f"{job['name']}: standard output differs at byte {n}: {res.out[max(0, n - 20):n + 30]!r}, unoptimised {want.out[max(0, n - 20):n + 30]!r}"
    return None


def cover(job, spec, res):
    yield "builds", job["name"]
    yield "outcome", res.outcome()


def work(tier, seed, deadline, st):
    import time
    rng = random.Random(seed)
    jobs = make_jobs(rng)
    try:
        S.compile_workload(jobs[0]["src"], jobs[0]["ref"])
    except S.CompileFailure:
        st.notes["programs outside the language subset"] += 1
        return
    for job in jobs:
        if time.time() < deadline:
            S.drive(ID, job, judge, gen_spec, rng, RUNS[tier], deadline, st, cover=cover, wall=20)
