"""CPython as the reference model: the same program text is executed by CPython with the simulator's fault decisions."""
import re, sys
import simlib as S

sys.unraisablehook = lambda a: None  # generators the program abandons are finalised after the run


class Stop(BaseException):
    pass


class Oracle:
    """Executes program text; returns the list of logged events [(k, a, b, c or string)] or raises Stop on budget."""

    def __init__(self, prelude, text):
        # CPython finalises an abandoned generator at once, Codon never does: keep them alive until the run is over
        text = re.sub(r"(?<!def )(?<!\w)((?:g\d+|bb?0)\([^()]*(?:\([^()]*\)[^()]*)*\))", r"_hold(\1)", text)
        self.code = compile(prelude + "\n" + text, "<workload>", "exec")

    def run(self, args, dec, budget=200000):
        points = {i: v for k, i, v in dec if S.KINDS[k] == "POINT"}
        log = []
        n = [0, True]

        def wrap(x):
            x &= (1 << 64) - 1
            return x - (1 << 64) if x >> 63 else x

        def sim_log(k, a, b, c):
            if not n[1]:
                return
            log.append((k, wrap(int(a)), wrap(int(b)), wrap(int(c)), b""))
            if len(log) > budget:
                n[1] = False
                raise Stop()

        def sim_logs(k, s):
            if n[1]:
                b = s.encode("utf8")
                log.append((k, len(b), 0, 0, b))

        def sim_point(p):
            i = n[0]
            n[0] += 1
            return points.get(i, 0)

        keep = []

        def hold(g):
            keep.append(g)
            return g

        env = {"_hold": hold, "sim_log": sim_log, "sim_logs": sim_logs, "sim_point": sim_point,
               "sim_nargs": lambda: len(args), "sim_arg": lambda i: args[i] if 0 <= i < len(args) else 0,
               "sim_gc": lambda: None, "__name__": "__main__"}
        exec(self.code, env)
        n[1] = False
        return log, n[0]


def events(res):
    return [(e.k, e.a, e.b, e.c, e.s) for e in res.events if e.k < 9000]


def compare(want, got, what=""):
    for i, (w, g) in enumerate(zip(want, got)):
        if w != g:
            return f"{what}step {i}: executed {show(g)} where the language prescribes {show(w)}; before: {[show(x) for x in want[max(0, i - 4):i]]}"
    if len(want) > len(got):
        return f"{what}execution ended after {len(got)} steps; the language prescribes {show(want[len(got)])} next"
    if len(got) > len(want):
        return f"{what}extra step {show(got[len(want)])} after the prescribed end"
    return None


def show(e):
    return f"{e[0]}({e[1]},{e[2]},{e[3]})" if not e[4] else f"{e[0]}({e[4].decode('utf8', 'replace')!r})"
