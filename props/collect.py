"""P08: collections are unobservable."""
import random, time
import simlib as S
import excflow, gens, opt, parloop, rawbuf, reduce as reductions

ID, LEVEL = "P08", "fault_enumeration"
TECHNIQUE = ("deterministic simulation: collections (with all freed memory overwritten) injected at seeded allocations; the same execution "
             "without them is the reference")
RULE = ("an evaluation is one execution of a program with collections injected at seeded allocations, compared event by event with the same "
        "schedule and faults without them; distinct = different event history and collection points")
ASSUMPTIONS = ["programs do not observe addresses, memory statistics or finalisers", "collections happen inside allocation calls of the generated code",
               "the Boehm collector itself (a system library) is correct"]
NOTE = ("Real compiler, code generator, runtime and collector; collections at seeded allocations, after which every free cell of the common "
        "sizes is overwritten. Evidence over the generated programs and collection points.")
PROGRAMS = {"quick": 104, "thorough": 2000}
RUNS = {"quick": 24, "thorough": 120}

HDR = """from C import sim_log(int, int, int, int)
from C import sim_logs(int, str)
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
from C import sim_point(int) -> int
from collections import deque
import heapq

def ms(n: int) -> str:
    return str(n * 7919) + "s"
def opt(c: bool, v):
    o = type(v)()
    return o
def churn(n: int):
    k = 0
    l = [[i, n] for i in range(3 + n % 5)]
    for a in l:
        k += a[0]
    s = ms(n) + ms(k)
    d = {i: ms(i) for i in range(n % 7)}
    t = (s, l, d)
    return len(repr(t))
class EX(Exception):
    code: int
    def __init__(self, c: int):
        super().__init__(ms(c))
        self.code = c
"""


class Gen:
    def __init__(self, rng):
        self.rng, self.n, self.defs = rng, 0, []
        self.classes = []

    def id(self):
        self.n += 1
        return self.n

    # types are (text, maker(seed expr) -> expression text)
    def type(self, depth):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.28:
            k = r.choice(["str", "str", "int", "float", "listi", "bytes", "big"])
            if k == "str":
                return "str", lambda s: f"ms({s})"
            if k == "int":
                return "int", lambda s: f"({s})"
            if k == "float":
                return "float", lambda s: f"float({s})"
            if k == "listi":
                return "List[int]", lambda s: f"[{s} + q for q in range(3)]"
            if k == "bytes":
                return "List[byte]", lambda s: f"[byte(65 + q) for q in range({s} % 4 + 1)]"
            return "str", lambda s: f"(ms({s}) * 40)[7:19]"
        if x < 0.42:
            t, m = self.type(depth - 1)
            k = r.randint(1, 9)
            return f"List[{t}]", lambda s: f"[{m(f'{s} + q{depth}')} for q{depth} in range({k})]"
        if x < 0.54:
            a, b = self.type(depth - 1), self.type(depth - 1)
            return f"Tuple[{a[0]}, {b[0]}]", lambda s: f"({a[1](s)}, {b[1](s)})"
        if x < 0.64:
            t, m = self.type(depth - 1)
            k = r.choice(["int", "str"])
            kk = (lambda s: s) if k == "int" else (lambda s: f"ms({s})")
            n = r.randint(1, 7)
            return f"Dict[{k}, {t}]", lambda s: f"{{{kk(f'{s} + z{depth}')}: {m(f'{s} + z{depth}')} for z{depth} in range({n})}}"
        if x < 0.70:
            n = r.randint(1, 9)
            return "Set[str]", lambda s: f"{{ms({s} + q) for q in range({n})}}"
        if x < 0.77:
            t, m = self.type(depth - 1)
            f = f"op{self.id()}"
            self.defs += [f"def {f}(n: int) -> Optional[{t}]:", "    if n % 5 == 4:", "        return None", f"    return {m('n')}"]
            return f"Optional[{t}]", lambda s: f"{f}({s})"
        if x < 0.83:
            a, b = self.type(depth - 1), ("str", lambda s: f"ms({s})")
            if a[0] in ("str", "List[byte]"):
                a = ("List[int]", lambda s: f"[{s}]")
            c = f"U{self.id()}"
            self.defs += [f"class {c}:", f"    v: Union[{a[0]}, {b[0]}]", "    def __init__(self, n: int):", "        if n % 3 == 1:", f"            self.v = {b[1]('n')}",
                          "        else:", f"            self.v = {a[1]('n')}", "    def __repr__(self) -> str:", "        return str(self.v)"]
            return c, lambda s: f"{c}({s})"
        if x < 0.9 and self.classes and r.random() < 0.6:
            return r.choice(self.classes)
        return self.cls(depth)

    def cls(self, depth):
        r = self.rng
        c = f"C{self.id()}"
        tup = r.random() < 0.3
        fs = [self.type(depth - 1) for _ in range(r.randint(1, 4))]
        names = [f"f{i}" for i in range(len(fs))]
        out = (["@tuple"] if tup else []) + [f"class {c}:"] + [f"    {n}: {t}" for n, (t, _) in zip(names, fs)]
        chain = not tup and r.random() < 0.4
        if chain:
            out.append(f"    nxt: Optional[{c}]")
        if not tup:
            out += [f"    def __init__(self, n: int):"] + [f"        self.{n} = {m('n')}" for n, (_, m) in zip(names, fs)]
            if chain:
                out += ["        self.nxt = None", "        if n > 0 and n % 4 != 0:", f"            self.nxt = {c}(n - 1)"]
        out += ["    def __repr__(self) -> str:", f"        return '{c}(' + " + " + ',' + ".join(f"repr(self.{n})" for n in names) +
                (" + (repr(self.nxt) if self.nxt else '.')" if chain else "") + " + ')'"]
        self.defs += out
        mk = (lambda s: f"{c}({', '.join(m(s) for _, m in fs)})") if tup else (lambda s: f"{c}({s})")
        sub = None
        if not tup and r.random() < 0.45:
            d = f"C{self.id()}"
            t, m = self.type(depth - 1)
            self.defs += [f"class {d}({c}):", f"    x: {t}", "    def __init__(self, n: int):", "        super().__init__(n)",
                          f"        self.x = {m('n')}", "    def __repr__(self) -> str:", f"        return '{d}<' + super().__repr__() + repr(self.x) + '>'"]
            f = f"mk{d}"
            self.defs += [f"def {f}(n: int) -> {c}:", f"    if n % 2 == 0:", f"        return {d}(n)", f"    return {c}(n)"]
            mk = lambda s: f"{f}({s})"
        self.classes.append((c, mk))
        return c, mk

    def site(self):
        r = self.rng
        k, (t, m) = self.id(), self.type(r.randint(1, 3))
        ch = lambda ind: [f"{ind}churn(n + {r.randint(0, 9)})"]
        f = f"site{k}"
        kind = r.choice(["local", "loop", "global", "closure", "gen", "genexpr", "list", "dict", "exc", "exc", "par", "ptr", "slice", "field", "swap", "heap",
                         "partial", "fin", "args", "lambda", "map", "sort", "recur", "array", "tls"])
        d = []
        if kind == "local":
            d = [f"def {f}(n: int):", f"    v = {m('n')}", f"    w = {m('n + 1')}"] + ch("    ") + [
                f"    sim_logs({k}, repr(v))"] + ch("    ") + [f"    sim_logs({k}, repr(w))"]
        elif kind == "loop":
            d = [f"def {f}(n: int):", f"    v = {m('n')}", "    for i in range(n % 5 + 2):", f"        u = v", f"        v = {m('n + i')}"] + ch("        ") + [
                f"        sim_logs({k}, repr(u))", f"    sim_logs({k}, repr(v))"]
        elif kind == "global":
            d = [f"g{k} = {m('5')}", f"def {f}(n: int):", f"    global g{k}", f"    o = g{k}", f"    g{k} = {m('n')}"] + ch("    ") + [
                f"    sim_logs({k}, repr(g{k}))", f"    sim_logs({k}, repr(o))"]
        elif kind == "closure":
            d = [f"def mk{k}(n: int):", f"    v = {m('n')}", "    def inner(y: int):", f"        churn(y)", f"        sim_logs({k}, repr(v))",
                 "        return y + n", "    return inner",
                 f"def {f}(n: int):", f"    a = mk{k}(n)", f"    b = mk{k}(n + 1)"] + ch("    ") + ["    sim_log(1, a(2), b(3), 0)"]
        elif kind == "gen":
            d = [f"def g{k}(n: int):", f"    v = {m('n')}", "    for i in range(3):", "        yield i", f"        churn(n + i)",
                 f"        sim_logs({k}, repr(v))", f"        v = {m('n + i')}",
                 f"def {f}(n: int):", f"    l = [g{k}(n + j) for j in range(3)]", "    for j in range(3):", "        for x in l:",
                 "            if not x.done():", "                x.__next__() if hasattr(x, '__next__') else 0"] if False else [
                 f"def g{k}(n: int):", f"    v = {m('n')}", "    for i in range(3):", f"        yield v", f"        churn(n + i)",
                 f"        sim_logs({k}, repr(v))", f"        v = {m('n + i')}",
                 f"def {f}(n: int):", f"    a, b = g{k}(n), g{k}(n + 3)", "    for x, y in zip(a, b):", "        churn(n)",
                 f"        sim_logs({k}, repr(x) + repr(y))"]
        elif kind == "genexpr":
            d = [f"def {f}(n: int):", f"    l = [{m('n + i')} for i in range(4)]", "    e = (repr(v) + ms(j) for j, v in enumerate(l))",
                 "    for s in e:"] + ch("        ") + [f"        sim_logs({k}, s)"]
        elif kind == "list":
            d = [f"def {f}(n: int):", f"    l: List[{t}] = []", "    for i in range(n % 9 + 6):", f"        l.append({m('n + i')})",
                 "        if i % 4 == 3:", "            l.pop(0)", "    m = l[1:4] + l[::-1]", "    l.insert(1, m[0])", "    l.extend(m)", "    del l[0]"] + ch("    ") + [
                 f"    sim_logs({k}, repr(l))", f"    sim_logs({k}, repr(m))", f"    q = deque[{t}]()", "    for v in l:", "        q.append(v)",
                 "    q.popleft()", "    l = []"] + ch("    ") + [f"    sim_logs({k}, repr(list(q)))"]
        elif kind == "dict":
            d = [f"def {f}(n: int):", f"    d: Dict[str, {t}] = {{}}", "    for i in range(n % 11 + 6):", f"        d[ms(i)] = {m('n + i')}",
                 "        if i % 4 == 3:", "            del d[ms(i - 2)]"] + ch("        ") + [
                 "    for a in d:"] + ch("        ") + [f"        sim_logs({k}, a + repr(d[a]))",
                 "    c = d.copy()", "    d.clear()"] + ch("    ") + [f"    sim_logs({k}, repr(c))"]
        elif kind == "exc":
            deep = r.random() < 0.6
            d = [f"class X{k}(Exception):", f"    v: {t}", f"    def __init__(self, v: {t}, n: int):", "        super().__init__(ms(n))", "        self.v = v"]
            thrown = f"raise X{k}({m('n + 2')}, n)"
            if deep:
                d += ["@noinline", f"def t{k}(n: int, z: int) -> int:", "    if z <= 0:", f"        {thrown}", "    s = 0", "    try:", f"        s = t{k}(n, z - 1)", "    finally:",
                      "        s += churn(n + z)", "    return s"]
                thrown = f"t{k}(n, n % 3 + 1)"
            d += [f"def r{k}(n: int):", f"    v = {m('n')}", "    try:", "        if n % 6 != 5:", f"            {thrown}",
                 "    finally:"] + ch("        ") + [f"        sim_logs({k}, repr(v))",
                 f"def {f}(n: int):", f"    w = {m('n')}", "    try:", f"        r{k}(n)", f"    except X{k} as e:"] + ch("        ") + [
                 f"        sim_logs({k}, repr(e.v) + e.message)", "        try:", "            churn(n)", "            raise", f"        except X{k} as h:"] + ch("            ") + [
                 f"            sim_logs({k}, repr(h.v))", f"    sim_logs({k}, repr(w))"]
        elif kind == "par":
            d = [f"def {f}(n: int):", f"    v = {m('n')}", "    o = [ms(0) for _ in range(12)]",
                 r.choice(["    @par(num_threads=3)", "    @par(schedule='dynamic', num_threads=3)"]), f"    for i in {r.choice(['range(12)', 'list(range(12))'])}:",
                 f"        w = {m('n + i')}", "        churn(i)", "        o[i] = repr(w) + repr(v)", "        churn(i + 1)", "        o[i] = o[i] + repr(v)[:9]"] + [
                 f"    for s in o:", f"        sim_logs({k}, s)"]
        elif kind == "ptr":
            d = [f"def {f}(n: int):", f"    p = Ptr[{t}](5)", "    for i in range(5):", f"        p[i] = {m('n + i')}"] + ch("        ") + [
                 "    p = p + 1" if r.random() < .4 else "    n += 1", "    for i in range(4):", f"        sim_logs({k}, repr(p[i]))"] + ch("        ")
        elif kind == "slice":
            d = [f"def {f}(n: int):", "    s = ms(n) * 30", "    a = s[3:9]", "    b = s[-4:]", "    s = ''", "    c = [x for x in (a + b).split('s')]"] + ch("    ") + [
                 f"    sim_logs({k}, a + b + repr(c) + ','.join(c).upper())"]
        elif kind == "field":
            c = f"H{k}"
            d = [f"class {c}:", f"    v: {t}", f"    o: Optional[{c}]", "    def __init__(self, n: int):", f"        self.v = {m('n')}", "        self.o = None",
                 f"def {f}(n: int):", f"    h = {c}(n)", "    p = h", "    for i in range(5):", f"        p.o = {c}(n + i)", f"        p.v = {m('n - i + 9')}",
                 f"        p = p.o"] + ch("        ") + [f"    z: Optional[{c}] = h", "    while z is not None:", f"        sim_logs({k}, repr(z.v))", "        churn(n)", "        z = z.o"]
        elif kind == "swap":
            d = [f"def {f}(n: int):", f"    a = ({m('n')}, n)", f"    b = ({m('n + 1')}, n)", "    for i in range(n % 4 + 1):"] + ch("        ") + [
                 "        a, b = b, a", f"    sim_logs({k}, repr(a))"] + ch("    ") + [f"    sim_logs({k}, repr(b))"]
        elif kind == "heap":
            d = [f"def {f}(n: int):", f"    h: List[Tuple[int, str]] = []", "    for i in range(n % 7 + 4):", "        heapq.heappush(h, ((i * 7 + n) % 11, ms(i)))"] + ch("        ") + [
                 "    while h:", f"        a, b = heapq.heappop(h)", f"        sim_logs({k}, ms(a) + b)"] + ch("        ")
        elif kind == "partial":
            d = [f"def p{k}(a, b, n: int):", "    churn(n)", f"    sim_logs({k}, repr(a) + repr(b))", "    return n",
                 f"def {f}(n: int):", f"    h = p{k}({m('n')}, {m('n + 1')}, ...)"] + ch("    ") + ["    sim_log(2, h(n), h(n + 2), 0)"]
        elif kind == "fin":
            d = [f"def a{k}(n: int) -> {t}:", f"    v = {m('n')}", "    try:", "        return v", "    finally:"] + ch("        ") + [
                 f"        v = {m('n + 1')}", f"def {f}(n: int):", f"    x = a{k}(n)"] + ch("    ") + [f"    sim_logs({k}, repr(x))"]
        elif kind == "args":
            d = [f"def a{k}(*args, **kw):", "    churn(3)", "    return repr(args) + repr(kw.x)" if False else "    return repr(args)",
                 f"def {f}(n: int):", f"    s = a{k}({m('n')}, churn(n), {m('n + 1')}, ms(n))", f"    sim_logs({k}, s)"]
        elif kind == "lambda":
            d = [f"def {f}(n: int):", f"    v = {m('n')}", "    h = lambda y: repr(v) + ms(y)"] + ch("    ") + [f"    sim_logs({k}, h(churn(n)))"]
        elif kind == "map":
            d = [f"def {f}(n: int):", f"    l = [{m('n + i')} for i in range(5)]", f"    for s in map(lambda v: repr(v), filter(lambda v: churn(n) > 0, reversed(l))):"] + ch("        ") + [
                 f"        sim_logs({k}, s)"]
        elif kind == "sort":
            d = [f"def {f}(n: int):", f"    l = [((n + i * 5) % 7, {m('n + i')}) for i in range(n % 9 + 3)]", "    l.sort(key=lambda z: (z[0] + churn(z[0]) * 0, repr(z[1])))"] + ch("    ") + [
                 f"    sim_logs({k}, repr(l))", "    s = sorted([repr(z) for z in l], reverse=True)"] + ch("    ") + [f"    sim_logs({k}, repr(s))"]
        elif kind == "recur":
            d = [f"def r{k}(n: int) -> List[{t}]:", "    if n <= 0:", "        churn(3)", f"        return [{m('n')}]", f"    v = {m('n')}", f"    l = r{k}(n - 1)", "    churn(n)",
                 "    l.append(v)", "    return l", f"def {f}(n: int):", f"    sim_logs({k}, repr(r{k}(n % 6 + 2)))"]
        elif kind == "array":
            d = [f"def {f}(n: int):", f"    p = __array__[{t}](4)", "    for i in range(4):", f"        p[i] = {m('n + i')}"] + ch("        ") + [
                 "    for i in range(4):", f"        sim_logs({k}, repr(p[i]))"]
        else:
            d = [f"def {f}(n: int):", f"    v: Optional[{t}] = None", "    for i in range(3):", "        if v is not None:", f"            sim_logs({k}, repr(v))"] + ch("        ") + [
                 f"        v = {m('n + i')}"] + ch("    ") + [f"    sim_logs({k}, repr(v))"]
        self.defs += d
        return f

    def program(self):
        out = ["def main():", "    for t in range(sim_nargs()):", "        n = sim_arg(t)"]
        for _ in range(self.rng.randint(5, 9)):
            out += [f"        {self.site()}(n)"]
        return HDR + "\n".join(self.defs) + "\n" + "\n".join(out) + "\nmain()\n"


def raw_spec(rng, job):
    return dict(own_spec(rng, job), threads=1)


def own_spec(rng, job):
    s = dict(seed=rng.randrange(1 << 40), args=[rng.randrange(0, 60) for _ in range(rng.choice([1, 2, 4]))], threads=rng.choice([1, 3, 4]), budget=2000000)
    s.update(S.schedule_knobs(rng))
    s["kinds"] = {"RT": (20000,)}
    return s


def make_jobs(rng):
    x = rng.random()
    if x < 0.25:
        flags = ["-instr", "none"]
        return dict(name="raw buffers", src=HDR + rawbuf.Raw(rng).program(), flags=flags + (["-L-auto-free"] if rng.random() < 0.8 else []),
                    ref=flags + ["-debug"]), raw_spec
    if x < 0.64:
        job = dict(name="object graphs", src=Gen(rng).program(), flags=["-instr", "none"] + (["-debug"] if rng.random() < 0.35 else []))
        return job, own_spec
    if x < 0.72:
        return excflow.make_job(rng), excflow.gen_spec
    if x < 0.84:
        return gens.make_job(rng), gens.gen_spec
    if x < 0.9:
        return opt.make_jobs(rng)[0], opt.gen_spec
    if x < 0.96:
        return parloop.make_job(rng), parloop.gen_spec
    return reductions.make_job(rng), reductions.gen_spec


def with_gc(gen_spec):
    def g(rng, job):
        s = gen_spec(rng, job)
        s["kinds"] = dict(s.get("kinds", {}))
        s["kinds"]["GC"] = rng.choice([(65536, 60, 2), (65536, 400, 1), (6000, 60, 2), (1200, 40, 2), (20000, 150, 2),
                                       (65536, 30, 2, rng.randrange(1, 200)), (30000, 60, 2, rng.randrange(1, 1000))])
        return s
    return g


_ref = {}


def reference(job):
    import os
    so = S.compile_workload(job["src"], job.get("ref", job["flags"]))
    key = (os.getpid(), so)
    if key not in _ref:
        for k in list(_ref):
            if k[0] == os.getpid():
                _ref.pop(k).close()
        _ref[key] = S.Server(so, None, 30)
    return _ref[key]


def judge(job, spec, res):
    if res.status in ("budget", "logfull") or res.h["hung"]:
        return None
    gc = S.KINDS.index("GC")
    want = reference(job).run(S.replay_spec(spec, [d for d in res.dec if d[0] != gc]))
    if want.outcome() == "signal 11" and job["name"] in ("object graphs", "raw buffers"):
        return f"{job['name']}: the program crashed with a memory fault although it uses no unsafe operation; {want.err[-200:]!r}"
    if res.outcome() != want.outcome():
        return f"{job['name']}: with collections the program ended with '{res.outcome()}', without them with '{want.outcome()}'; {res.err[-200:]!r}"
    a = [(e.tid, e.k, e.a, e.b, e.c, e.s) for e in res.events]
    b = [(e.tid, e.k, e.a, e.b, e.c, e.s) for e in want.events]
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return (f"{job['name']}: step {i} differs when collections run: {a[i] if i < len(a) else 'nothing'} "
                f"instead of {b[i] if i < len(b) else 'nothing'}")
    if res.out != want.out:
        return f"{job['name']}: standard output differs when collections run"
    return None


def cover(job, spec, res):
    yield "programs", job["name"]
    yield "outcome", res.outcome()
    n = res.h["fired"][S.KINDS.index("GC")]
    yield "collections in a run", "0" if not n else "1-9" if n < 10 else "10-99" if n < 100 else "100+"


def work(tier, seed, deadline, st):
    rng = random.Random(seed)
    job, gs = make_jobs(rng)
    job["compile_must_pass"] = False
    S.drive(ID, job, judge, with_gc(gs), rng, RUNS[tier], deadline, st, cover=cover, wall=60)


# a fixed program whose optimised code keeps only pointers outside a live object (loop strength reduction)
PROBES = [dict(name="pointer-outside-object", args=[54, 48], flags=("-instr", "none", "-keep-lsr"), want=[
    (5, 221, 921286783, 0), (5, 221, 921286783, 0), (5, 195, 1741160747, 0), (5, 221, 2966601602, 0), (5, 221, 535634615, 0),
    (5, 195, 2688853304, 0), (5, 221, 2462233882, 0), (8, 195, 2688853304, 0), (8, 221, 535634615, 0), (8, 221, 2966601602, 0),
    (8, 195, 1741160747, 0), (8, 221, 921286783, 0), (5, 221, 3099124300, 0), (5, 221, 3099124300, 0), (5, 195, 1518039974, 0),
    (5, 221, 1652533179, 0), (5, 221, 362330940, 0), (5, 195, 2257946632, 0), (8, 195, 2257946632, 0), (8, 221, 362330940, 0),
    (8, 221, 1652533179, 0), (8, 195, 1518039974, 0), (8, 221, 3099124300, 0)], src="""from C import sim_log(int, int, int, int)
from C import sim_gc()
from C import sim_arg(int) -> int
from C import sim_nargs() -> int
def tell(k: int, s: str):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) & 0xffffffff
    sim_log(k, len(s), h, 0)
def ms(n: int) -> str:
    return str(n * 7919) + "s"
def opt(c: bool, v):
    o = type(v)()
    return o
def churn(n: int):
    sim_gc()
    k = 0
    l = [[i, n] for i in range(3 + n % 5)]
    for a in l:
        k += a[0]
    s = ms(n) + ms(k)
    d = {i: ms(i) for i in range(n % 7)}
    t = (s, l, d)
    return len(repr(t))
class U7:
    v: Union[List[str], str]
    def __init__(self, n: int):
        if n % 3 == 1:
            self.v = ms(n)
        else:
            self.v = [ms(n + q1) for q1 in range(3)]
    def __repr__(self) -> str:
        return str(self.v)
@tuple
class C6:
    f0: str
    f1: Tuple[float, Dict[str, str]]
    f2: U7
    def __repr__(self) -> str:
        return 'C6(' + repr(self.f0) + ',' + repr(self.f1) + ',' + repr(self.f2) + ')'
def site5(n: int):
    v = C6((ms(n) * 40)[7:19], (float(n), {ms(n + z1): (ms(n + z1) * 40)[7:19] for z1 in range(6)}), U7(n))
    for i in range(n % 5 + 2):
        u = v
        v = C6((ms(n + i) * 40)[7:19], (float(n + i), {ms(n + i + z1): (ms(n + i + z1) * 40)[7:19] for z1 in range(6)}), U7(n + i))
        churn(n + 1)
        tell(5, repr(u))
    tell(5, repr(v))
def site8(n: int):
    l = [C6((ms(n + i) * 40)[7:19], (float(n + i), {ms(n + i + z1): (ms(n + i + z1) * 40)[7:19] for z1 in range(6)}), U7(n + i)) for i in range(5)]
    for s in map(lambda v: repr(v), filter(lambda v: churn(n) > 0, reversed(l))):
        churn(n + 2)
        tell(8, s)
def main():
    for t in range(sim_nargs()):
        n = sim_arg(t)
        site5(n)
        site8(n)
main()
""")]
