#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: run one property's campaign and report.  VERIF_SEED selects the random choices."""
import importlib, os, random, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "props")]
import simlib as S
from registry import MODULES

QUICK_LIMIT = {"quick": 420, "thorough": 3000}


def campaign(pid):
    m = importlib.import_module(MODULES[pid])
    return m.CHECKS[pid] if hasattr(m, "CHECKS") else m


def work(arg, st):
    pid, tier, seed, deadline = arg
    m = campaign(pid)
    if time.time() > deadline:
        st.notes["programs skipped at the time limit"] += 1
        return
    if hasattr(m, "work"):
        return m.work(tier, seed, deadline, st)
    rng = random.Random(seed)
    job = m.make_job(rng)
    S.drive(pid, job, m.judge, m.gen_spec, rng, m.RUNS[tier], deadline, st, cover=getattr(m, "cover", None),
            wall=getattr(m, "WALL", 30))


def probe(arg, st):
    """Fixed programs: recorded findings, and histories the generator leaves out because of them."""
    pid, i = arg
    m = campaign(pid)
    p = m.PROBES[i]
    job = {"name": "probe:" + p["name"], "src": p["src"], "flags": list(p.get("flags", ("-instr", "none"))),
           "want": p["want"], "sig": f"probe:{p['name']} "}
    S.drive(pid, job, probe_judge, lambda rng, job: dict(seed=1, args=p.get("args", []), threads=1, budget=400000),
            random.Random(1), 1, time.time() + 60, st)
    st.c["probes"] += 1


def probe_judge(job, spec, res):
    got = [[e.k, e.a, e.b, e.c] for e in res.events if e.k < 9000]
    if not res.ok() or got != [list(w) for w in job["want"]]:
        return f"{job['name']}: ended with '{res.outcome()}', steps {got} instead of {job['want']}"
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = campaign(pid)
    S.tools()
    for h in getattr(m, "HARNESSES", ()):
        S.harness(h)
    tb = time.time()
    n = m.PROGRAMS[tier]
    deadline = tb + float(os.environ.get("VERIF_LIMIT", QUICK_LIMIT[tier]))
    args = [(pid, tier, f"{pid}/{seed}/{i}", deadline) for i in range(n)]
    st0 = S.parallel(probe, [(pid, i) for i in range(len(getattr(m, "PROBES", [])))])
    st = S.parallel(work, args, stop=int(os.environ.get("VERIF_STOP", 1 if tier == "quick" else 3)))
    st.merge(st0)
    extra = {"build_s": round(tb - t0, 1), "programs": n}
    if hasattr(m, "extra"):
        extra.update(m.extra(st))
    sys.exit(S.report(pid, tier, seed, st, tb, m.LEVEL, m.RULE, m.ASSUMPTIONS, extra))


if __name__ == "__main__":
    main()
