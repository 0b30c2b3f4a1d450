"""Functions over raw buffers that never escape (used by P08 and P12; the including program defines the exception EX)."""


class Raw:
    """functions over raw buffers that never escape: what the compiler may hoist, move to the stack or free early"""
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def id(self):
        self.n += 1
        return self.n

    def fill(self, ind, v, size):
        j = f"j{self.id()}"
        return [f"{ind}for {j} in range({size}):", f"{ind}    {v}[{j}] = s * {self.rng.randint(1, 3)} + {j}"]

    def new(self, ind, v):
        r = self.rng
        size = r.choice(["n", "n", "n", "n + 3", "8"])
        return [f"{ind}{v} = {r.choice([f'Ptr[int]({size} + 1)', f'Ptr[int]({size})'])}"] + self.fill(ind, v, "n" if size != "8" else "min(n, 8)")

    def block(self, ind, d, vs, loop, handler):
        r, out = self.rng, []
        for _ in range(r.randint(2, 4)):
            i2, v, k = ind + "    ", r.choice(vs), self.id()
            x = r.choice(["new", "new", "read", "read", "rd", "try", "swap", "copy", "if", "for", "while", "shift", "leave", "sel", "pick", "nest"])
            if x == "new":
                out += self.new(ind, v)
            elif x == "read":
                out += [f"{ind}for j{k} in range(lim):", f"{i2}s = (s * 3 + {v}[j{k}]) & 0xffffffff"]
            elif x == "rd":
                out += [f"{ind}s += rd({v}, lim)"]
            elif x == "try":
                out += [f"{ind}try:", f"{i2}s += rx({v}, lim, s)", f"{ind}except EX:", f"{i2}s += {r.choice(['1', f'rd({v}, lim)'])}"]
            elif x == "swap" and len(vs) > 1:
                a, b = r.sample(vs, 2)
                out += [f"{ind}{a}, {b} = {b}, {a}"]
            elif x == "copy":
                out += [f"{ind}{v} = {r.choice(vs)}"]
            elif x == "sel":
                out += [f"{ind}s += rd({v} if s & 1 == 1 else {r.choice(vs)}, lim)"]
            elif x == "shift":
                out += [f"{ind}s += rd({v} + 1, lim - 1)"]
            elif x == "leave" and loop:
                out += [f"{ind}if s % {r.randint(2, 7)} == 0:", i2 + r.choice(["break", "continue", f"return s + rd({v}, lim)"])]
            elif x == "if" and d > 0:
                out += [f"{ind}if s % {r.randint(2, 5)} == {r.randint(0, 1)}:"] + self.block(i2, d - 1, vs, loop, handler)
                if r.random() < 0.4:
                    out += [f"{ind}else:"] + self.block(i2, d - 1, vs, loop, handler)
            elif x == "for" and d > 0:
                out += [f"{ind}for i{k} in range({r.choice(['m', '3', 'm + 1'])}):"] + self.block(i2, d - 1, vs, True, handler) + [f"{i2}s += i{k}"]
            elif x == "pick":
                a, b = f"a{k}", f"b{k}"
                out += self.new(ind, a) + self.new(ind, b)
                out += [f"{ind}c{k} = {a} if s % {r.randint(2, 5)} {r.choice(['<', '==', '>'])} 1 else {b}"]
                if d > 0 and r.random() < 0.5:
                    out += [f"{ind}for i{k} in range({r.choice(['m', '3'])}):"] + self.new(i2, f"t{k}") + [f"{i2}s += rd(t{k}, lim)"] + (
                        [f"{i2}s += rd(c{k}, lim)"] if r.random() < 0.7 else [])
                else:
                    out += self.new(ind, f"t{k}") + [f"{ind}s += rd(t{k}, lim)"]
                out += [f"{ind}s += rd(c{k}, lim)"] if r.random() < 0.6 else []
            elif x == "nest":
                v = r.choice([v, f"w{k}"])
                if v[0] == "w":
                    out += self.new(ind, v)
                depth, i = r.randint(1, 3), ind
                for z in range(depth):
                    out += [f"{i}i{k}_{z} = 0", f"{i}while True:", f"{i}    i{k}_{z} += 1"]
                    i += "    "
                    if r.random() < 0.4:
                        out += self.new(i, f"t{k}_{z}") + [f"{i}s += rd(t{k}_{z}, lim)"]
                out += [f"{i}s = (s * 5 + rd({v}, lim) + i{k}_{depth - 1}) & 0xffffffff"]
                for z in reversed(range(depth)):
                    if z < depth - 1 and r.random() < 0.3:
                        out += [f"{i}s += rd({v}, lim)"]
                    out += [f"{i}if i{k}_{z} >= m:", f"{i}    break"]
                    i = i[:-4]
            elif x == "while" and d > 0:
                out += [f"{ind}i{k} = 0", f"{ind}while i{k} < m:", f"{i2}i{k} += 1"] + self.block(i2, d - 1, vs, True, handler)
        return out + [f"{ind}s += 1"]

    def program(self):
        r, out, calls = self.rng, [], []
        for f in range(r.randint(3, 6)):
            vs = [f"p{i}" for i in range(r.randint(1, 3))]
            out += ["@noinline", f"def f{f}(n: int, m: int) -> int:", "    s = n", "    lim = min(n, 8)"]
            for v in vs:
                out += self.new("    ", v)
            out += self.block("    ", 3, vs, False, False)
            out += [f"    s += rd({v}, lim)" for v in vs if r.random() < 0.5] + ["    return s"]
            calls += [f"        sim_log({f}, f{f}(2 + n % 9, n % 5), 0, 0)"]
        return """@noinline
def rd(p: Ptr[int], n: int) -> int:
    s = 0
    for i in range(n):
        s = (s * 3 + p[i]) & 0xffffffff
    return s
@noinline
def rx(p: Ptr[int], n: int, t: int) -> int:
    s = 0
    for i in range(n):
        s = (s * 3 + p[i]) & 0xffffffff
    if t % 3 == 0:
        raise EX(n)
    return s
""" + "\n".join(out) + "\ndef main():\n    for t in range(sim_nargs()):\n        n = sim_arg(t)\n" + "\n".join(calls) + "\nmain()\n"
