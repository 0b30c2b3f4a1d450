"""P07: generators under every driving sequence, with injected exceptions and collections, against CPython."""
import functools, random
import simlib as S
import pyoracle as O
import excflow as X

ID, LEVEL = "P07", "fault_enumeration"
TECHNIQUE = ("deterministic simulation: seeded driving histories, injected exceptions and collections; CPython as reference model")
RULE = ("an evaluation is one execution of a generated program of generators under a seeded driving history and fault set; "
        "distinct = different event history")
ASSUMPTIONS = ["CPython 3.12 executing the same text with the same history and faults defines the prescribed behaviour",
               "generators are not driven again after an exception left them (known finding, probed separately)",
               "throw and close do not exist in Codon; abandoned generators are not finalised in either language"]
NOTE = ("Real compiler, coroutine lowering, LLVM coroutine passes, generator library and collector; the reference is CPython. "
        "Evidence over the generated programs, histories and fault sets.")
PROGRAMS = {"quick": 80, "thorough": 3000}
RUNS = {"quick": 40, "thorough": 200}
CODON_HDR = X.CODON_HDR + """
class Slot:
    g: Generator[int]
    kind: int
    w: List[int]
    def __init__(self, g: Generator[int], kind: int, w: List[int]):
        self.g = g
        self.kind = kind
        self.w = w
def hold(g):
    return g
"""
PY_HDR = "import itertools as it\n" + X.PY_HDR + """
class Slot:
    def __init__(self, g, kind, w):
        self.g = g
        self.kind = kind
        self.w = w
def hold(g):
    return _hold(g)
"""
DRIVER = """
@noinline
def do_next(s: Slot):
    v = next(s.g)
    if s.kind == 0:
        sim_log(20, v, 0, 0)
    else:
        sim_log(20, 0, 0, 0)
@noinline
def do_default(s: Slot):
    if s.kind == 0:
        v = next(s.g, -77)
        sim_log(21, v, 0, 0)
@noinline
def do_some(s: Slot, n: int):
    k = 0
    for v in s.g:
        if s.kind == 0:
            sim_log(22, v, k, 0)
        else:
            sim_log(22, 0, k, 0)
        k += 1
        if k > n or s.w[0] == 1:
            break
    else:
        sim_log(22, -1, k, 0)
@noinline
def do_list(s: Slot):
    if s.kind == 0:
        l = list(s.g)
        sim_log(23, len(l), sum(l), 0)
        for v in l:
            sim_log(23, v, 0, 0)
@noinline
def do_send(s: Slot, v: int):
    s.g.send(v)
    sim_log(24, 0, 0, 0)
@noinline
def do_comp(s: Slot):
    if s.kind == 0:
        l = [v * 2 for v in s.g if v % 2 == 0]
        sim_log(25, len(l), sum(l), 0)
@noinline
def do_zip(s: Slot, t: Slot):
    if s.kind == 0 and t.kind == 0:
        for a, b in zip(s.g, t.g):
            sim_log(26, a, b, 0)
@noinline
def do_enum(s: Slot):
    if s.kind == 0:
        for a, b in enumerate(s.g):
            sim_log(27, a, b, 0)
            if a > 2:
                break
@noinline
def do_any(s: Slot):
    if s.kind == 0:
        sim_log(28, 1 if any(v % 3 == 1 for v in s.g) else 0, 0, 0)
@noinline
def do_map(s: Slot):
    if s.kind == 0:
        for v in map(lambda q: q * 3 + 1, s.g):
            sim_log(29, v, 0, 0)
            if v % 5 == 0:
                return
def op(k: int, a: int, b: int, slots: List[Slot], state: List[int]):
    n = len(slots)
    i = a % n
    if state[i] == 2:
        return
    s = slots[i]
    j = (a // 7) % n
    if k == 5 and state[i] == 0:
        k = 0
    if k == 7 and (i == j or state[j] == 2):
        k = 1
    if s.kind == 1 and (k == 2 or k == 4 or (k > 5 and k < 11)):
        k = 0
    if k == 7 and slots[j].kind == 1:
        k = 1
    if s.w[0] == 1:
        k = 5
    sim_log(30, k, i, state[i])
    try:
        if k != 11:
            state[i] = 1
        if k == 0 or k == 1:
            do_next(s)
        elif k == 2:
            do_default(s)
        elif k == 3:
            do_some(s, b % 4)
        elif k == 4:
            do_list(s)
        elif k == 5:
            if s.kind == 1:
                do_send(s, b)
            else:
                do_next(s)
        elif k == 6:
            do_comp(s)
        elif k == 7:
            state[j] = max(state[j], 1)
            do_zip(s, slots[j])
        elif k == 8:
            do_enum(s)
        elif k == 9:
            do_any(s)
        elif k == 10:
            do_map(s)
        elif k == 11:
            sim_gc()
    except StopIteration:
        sim_log(31, 0, 0, 0)
    except E2 as e:
        sim_log(32, e.code, 2, 0)
        state[i] = 2
        if k == 7:
            state[j] = 2
    except E1 as e1:
        sim_log(32, e1.code, 1, 0)
        state[i] = 2
        if k == 7:
            state[j] = 2
    except E3 as e3:
        sim_log(32, e3.code, 3, 0)
        state[i] = 2
        if k == 7:
            state[j] = 2
    except Exception:
        sim_log(32, 0, 4, 0)
        state[i] = 2
        if k == 7:
            state[j] = 2
"""
PY_HDR = PY_HDR.replace("def hold", "from typing import List, Generator\ndef hold", 1)


# ways of consuming a generator that is called on the spot; {g}, {h}: generators of int, {b}: generator of bool
CONSUME = [
    "r = sum({g}(x))", "r = sum({g}(x), 5)", "r = sum(v * 2 for v in {g}(x))", "r = sum(v for v in {g}(x) if v % 3 != 0)",
    "r = int(any({b}(x)))", "r = int(all({b}(x)))", "r = int(any(v % 3 == 1 for v in {b2}(x)))",
    "r = int(all(v % 5 != 1 for v in {b2}(x)))", "r = int(any({b2}(x)))", "r = int(all({b2}(x)))",
    "r = max(list({g}(x)) + [0])", "r = min([v for v in {g}(x)] + [99])", "r = sum({b}(x))",
    "for v in filter(lambda q: q % 2 == 0, {g}(x)): lg(v, 0)", "for v in map(lambda q: P(700 + q % 9) * 3, {g}(x)): lg(v, 1)",
    "for v in map(lambda p, q: p * 3 + q, {g}(x), {h}(y)): lg(v, 2)",
    "for a, b in zip({g}(x), [1, 2, 3]): lg(a, b)", "for a, b in zip([1, 2, 3], {g}(x)): lg(a, b)",
    "for a, b in enumerate({g}(x), 7): lg(a, b)", "for v in sorted({g}(x)): lg(v, 3)", "for v in reversed(list({g}(x))): lg(v, 4)",
    "r = len(set({g}(x)))", "d = dict((v % 7, v) for v in {g}(x))\n    for k in sorted(d.keys()): lg(k, d[k])",
    "d = {{v % 5: w for v in {g}(x) for w in {h}(y)}}\n    for k in sorted(d.keys()): lg(k, d[k])",
    "r = len([u + v for u in {g}(x) for v in {h}(u % 9) if (u + v) % 2 == 0])",
    "l = [3]\n    l.extend({g}(x))\n    for v in l: lg(v, 5)", "l = [3]\n    l += [v for v in {g}(x)]\n    r = sum(l)",
    "for a, b, c in zip({g}(x), {h}(y), range(9)): lg(a, b + c)",
    "h = {g}(x)\n    for v in hold(h):\n        lg(v, 6)\n        if v % 4 == 1: break\n    for v in h: lg(v, 7)",
    "h = hold({g}(x))\n    n = 0\n    while n < 4:\n        n += 1\n        lg(next(h, -9), n)",
    "for i, (a, b) in enumerate(zip({g}(x), {h}(y))): lg(i, a * 100 + b)",
    "for v in (w + 1 for w in {g}(x) if w % 2 == 1): lg(v, 8)",
    "h = (P(720 + w % 9) for w in {g}(x))\n    for v in hold(h):\n        lg(v, 9)\n        if v % 3 == 2: return v",
    "for v in it.islice({b2}(x), 3): lg(v, 10)", "for v in it.islice({b2}(x), 1, 6, 2): lg(v, 11)",
    "for v in it.chain({g}(x), [7, 8], {h}(y)): lg(v, 12)", "for v in it.takewhile(lambda q: q % 4 != 3, {b2}(x)): lg(v, 13)",
    "for v in it.dropwhile(lambda q: q % 4 != 3, {g}(x)): lg(v, 14)", "for v in it.accumulate({g}(x)): lg(v, 15)",
    "for v in it.filterfalse(lambda q: q % 2 == 0, {g}(x)): lg(v, 16)", "for v in it.compress({g}(x), [True, False, True, True]): lg(v, 17)",
    "for v in it.starmap(lambda p, q: p + q, zip({g}(x), {h}(y))): lg(v, 18)",
    "for a, b in it.zip_longest({g}(x), {h}(y), fillvalue=-3): lg(a, b)",
    "n = 0\n    for v in it.cycle({g}(x)):\n        n += 1\n        lg(v, n)\n        if n > 6: break",
    "for a, b in it.pairwise({g}(x)): lg(a, b)", "for p in it.batched({g}(x), 2): lg(p[0], len(p))",
]


class Gen(X.Gen):
    recv = False

    def consumers(self, out):
        """Functions c0.. consuming generators; bK yields booleans, bbK integers, neither within try or with."""
        r = self.rng
        if not self.gens or r.random() < 0.25:
            return 0
        use = [c for c in r.sample(CONSUME, 6) if "pairwise" not in c and "batched" not in c]
        n = r.randint(1, 9)
        out += ["def lg(a: int, b: int):", "    sim_log(40, a, b, 0)"]
        for b, v in (("b0", "(x + i) % 3 == 1"), ("bb0", "(x * i + 2) % 7")):
            out += [f"def {b}(x: int):", f"    for i in range({n}):", f"        if (x + i) % 11 == {r.randrange(11)}:", "            return",
                    f"        sim_log(41, i, x, 0)", f"        P({730 + len(b)})", f"        yield {v}"]
            if r.random() < 0.5:
                out += [f"    yield {'x % 2 == 0' if b == 'b0' else 'x'}"]
        for i, c in enumerate(use):
            t = c.format(g=r.choice(self.gens + ["bb0"]), h=r.choice(self.gens + ["bb0"]), b="b0", b2="bb0")
            out += ["@noinline", f"def c{i}(x: int, y: int) -> int:", "    r = 0", "    " + t, "    return r"]
        out += ["def consume(k: int, x: int, y: int):", "    try:"]
        for i in range(len(use)):
            out += [f"        if k == {i}:", f"            sim_log(42, {i}, c{i}(x, y), 0)"]
        out += ["    except StopIteration:", "        sim_log(43, 0, 0, 0)", "    except E1 as e1:", "        sim_log(43, e1.code, 1, 0)",
                "    except E3 as e3:", "        sim_log(43, e3.code, 3, 0)", "    except Exception:", "        sim_log(43, 0, 4, 0)"]
        return len(use)

    def stmt(self, ind, depth, ctx):
        r, i = self.rng, ind
        if ctx["gen"] and r.random() < 0.25:
            k = r.choice(["yield", "yield", "ycond", "yfrom", "recv", "inner", "genexpr", "ret", "compr", "while"])
            cond = f"(x + y) % {r.choice([2, 3, 4])} == {r.randrange(2)}"
            yld = f"yield (x * {r.randint(1, 9)} + y + {self.id()}) % 10007"
            if k == "ycond":
                return [f"{i}if {cond}:", f"{i}    {yld}"], False
            if k == "yfrom" and self.gens and not self.recv:
                g = r.choice(self.gens)
                f = r.choice([f"hold({g}((x + {r.randint(0, 3)}) % 50))", f"[x % 7, y % 11]", f"range(x % 4)"])
                return [f"{i}yield from {f}"], False
            if k == "recv" and self.recv:
                v = r.choice("xy")
                return [f"{i}w[0] = 1", f"{i}{v} = (yield)", f"{i}w[0] = 0", f"{i}sim_log(13, {self.id()}, x, y)"], False
            if k in ("inner", "genexpr") and self.gens:
                g = r.choice(self.gens)
                v = f"v{self.id()}"
                if k == "genexpr":
                    return [f"{i}y = sum(q % 5 for q in hold({g}(x % 50)))"], False
                body = self.block(i + "    ", depth - 1, dict(ctx, loop=True), 1, 2)
                return [f"{i}for {v} in hold({g}(y % 50)):", f"{i}    x = (x + {v}) % 100"] + body, False
            if k == "ret" and not ctx.get("nojump"):
                return [f"{i}if {cond}:", f"{i}    return"], False
            if k == "compr":
                return [f"{i}l{self.id()} = [q * x for q in range(y % 4)]", f"{i}y = sum(l{self.nid}) % 1000"], False
            if k == "while":
                v = f"w{self.id()}"
                return [f"{i}{v} = 0", f"{i}while {v} < {r.randint(1, 3)}:", f"{i}    {v} += 1", f"{i}    {yld}"], False
            return [f"{i}{yld}"], False
        return super().stmt(ind, depth, ctx)

    def program(self):
        r = self.rng
        out, info = [], []
        ng = r.choice([1, 2, 3, 4])
        for g in range(ng):
            self.size = 20
            self.recv = r.random() < 0.3
            out += [f"def g{g}(x: int{', w: List[int]' if self.recv else ''}):", f"    y = {r.randint(0, 5)}"]
            out += [r.choice(["    yield x", "    if x == 1000:\n        yield 0"])]
            if r.random() < 0.3:  # state kept on the heap
                out += [f"    h = [x, y, {r.randint(1, 9)}]"]
            if not r.random() < 0.15:
                out += ["    sim_log(11, %d, x, y)" % g]
            b = self.block("    ", 3, dict(loop=False, handler=[], func=0, gen=True), 3, 6)
            out += b
            out += ["    x = (x + h[0] + len(h)) % 100"] if "    h = " in "\n".join(out[-len(b) - 4:]) else []
            out += [f"    yield (x + y) % 10007", "    sim_log(12, %d, x, y)" % g]
            if self.recv:
                out += ["    w[0] = 1", "    x = (yield)", "    w[0] = 0", "    sim_log(13, 0, x, y)"]
            info.append(int(self.recv))
            if not self.recv:
                self.gens.append(f"g{g}")
        nc = self.consumers(out)
        ns = r.choice([1, 2, 2, 3, 4])
        pick = [r.randrange(ng) for _ in range(ns)]
        out += ["@noinline", "def make() -> List[Slot]:", "    out = List[Slot]()"]
        for i, p in enumerate(pick):
            out += [f"    w{i} = [0]", f"    out.append(Slot(hold(g{p}(sim_arg({i}){', w%d' % i if info[p] else ''})), {info[p]}, w{i}))"]
        out += ["    return out", "def main():", "    slots = make()", "    state = [0 for _ in slots]",
                f"    t = {ns}", "    while t + 2 < sim_nargs():",
                "        if sim_arg(t) < 20:", "            op(sim_arg(t), sim_arg(t + 1), sim_arg(t + 2), slots, state)"]
        if nc:
            out += ["        else:", f"            consume((sim_arg(t) - 20) % {nc}, sim_arg(t + 1), sim_arg(t + 2))"]
        out += ["        t += 3", "main()"]
        return "\n".join(out) + "\n", (ns, nc)


PY_HDR = PY_HDR.replace("from typing import List, Generator", "List = type('L', (list,), {'__class_getitem__': classmethod(lambda c, t: list)})\nGenerator = {int: 0}")


def make_job(rng):
    g = Gen(rng)
    text, (ns, nc) = g.program()
    text = X.COMMON + DRIVER + text
    return dict(name="generators", src=CODON_HDR + "from C import sim_gc()\nimport itertools as it\n" + text, text=text, ns=ns, consume=nc,
                flags=["-instr", "none"] + (["-debug"] if rng.random() < .35 else []))


def gen_spec(rng, job):
    ops = rng.choice([[0, 1], [0, 1, 2, 3], list(range(12)), list(range(12)), [0, 3, 3, 5, 5, 5, 11]])
    if job["consume"]:
        ops = rng.choice([ops, list(range(20, 20 + job["consume"])), list(range(8)) + list(range(20, 20 + job["consume"]))])
    args = [rng.randrange(50) for _ in range(job["ns"])]
    for _ in range(rng.choice([3, 8, 15, 25])):
        args += [rng.choice(ops), rng.randrange(70), rng.randrange(40)]
    s = dict(seed=rng.randrange(1 << 40), args=args, threads=1, budget=300000)
    k = {}
    if rng.random() < 0.7:
        k["POINT"] = (rng.choice([1000, 4000, 12000]), rng.choice([1, 1, 2, 4]), 5)
    if rng.random() < 0.4:
        k["GC"] = (rng.choice([1000, 10000, 40000]), 40, 2)
    if k:
        s["kinds"] = k
    return s


@functools.lru_cache(maxsize=8)
def oracle(text):
    return O.Oracle(PY_HDR, text)


def judge(job, spec, res):
    try:
        want, n = oracle(job["text"]).run(spec["args"], res.dec)
    except O.Stop:
        return None
    if not res.ok():
        return f"the program ended with '{res.outcome()}' instead of completing; stderr: {res.err[-300:]!r}"
    return O.compare(want, O.events(res))


def cover(job, spec, res):
    for e in res.events:
        if e.k == 30:
            yield "driving operation x state", (e.a, e.c)
        if e.k == 42:
            yield "consumers run", 0
        if e.k in (31, 32):
            yield "outcomes", (e.k, e.b)


PROBE_HDR = "from C import sim_log(int, int, int, int)\n"
PROBES = [
    dict(name="resumed-after-exception", want=[(1, 1, 0, 0), (2, 0, 0, 0), (1, -5, 0, 0)], src=PROBE_HDR + """
def bad(n: int):
    yield 1
    if n == 3:
        raise ValueError('x')
    yield 2
@noinline
def step(h: Generator[int]):
    try:
        sim_log(1, next(h, -5), 0, 0)
    except ValueError:
        sim_log(2, 0, 0, 0)
h = bad(3)
for _ in range(3):
    step(h)
"""),
    dict(name="exhausted-then-returned", want=[(1, -7, 0, 0), (1, -8, 0, 0)], src=PROBE_HDR + """
def gen(n: int):
    for i in range(n):
        yield i
def f(n: int):
    x = gen(n)
    for v in x: pass
    return x
def clobber(n: int) -> int:
    a = (n, n*2, n*3, n*4, n*5, n*6)
    return a[n % 6] + (clobber(n-1) if n > 0 else 0)
z = f(3)
clobber(20)
sim_log(1, next(z, -7), 0, 0)
sim_log(1, next(z, -8), 0, 0)
"""),
]
