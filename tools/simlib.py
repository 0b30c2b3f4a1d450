"""Driver library: compile workloads, run them under simrun, judge, gate, minimise, replay, report."""
import collections, hashlib, json, os, random, resource, struct, subprocess, sys, time, traceback
import multiprocessing as mp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF, REPO = B.VERIF, B.REPO
KINDS = ["SWITCH", "PICK", "STALL", "WALL", "GC", "POINT", "RT", "READ", "WRITE", "OPEN", "CLOSE", "SEEK", "ALLOC", "SPUR"]
K = {n: i for i, n in enumerate(KINDS)}
STATUS = {0: "exited", 1: "done", 2: "deadlock", 3: "budget", 4: "abort", 5: "logfull", 6: "assert"}
Event = collections.namedtuple("Event", "tid k t a b c s")
WORK = os.path.join(B.BUILD, "work")
REPLAYS = os.path.join(VERIF, "evidence", "replays")
JOBS = int(os.environ.get("CODON_SIM_JOBS", str(os.cpu_count() or 8)))


class CompileFailure(Exception):
    pass


def tree_hash(d, exts=(".codon",)):
    h = hashlib.sha1()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0" + B.fhash(p).encode())
    return h.hexdigest()


_tools = None


def tools():
    global _tools
    if _tools is None:
        _tools = B.build()
        _tools["stdlib"] = tree_hash(REPO + "/stdlib")
    return _tools


_harness = {}


def harness(name):
    if name not in _harness:
        _harness[name] = B.build(("codonc", "rt", name))[name]
    return _harness[name]


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def compile_workload(src, flags=(), keep_ll=False, timeout=120):
    """src text -> path of the shared object (cached by content)."""
    t = tools()
    key = hashlib.sha1("\0".join([src, *flags, os.path.basename(t["simc"]), os.path.basename(t["codonc"]),
                                  t["stdlib"]]).encode()).hexdigest()
    d = os.path.join(WORK, key[:2])
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, key + ".so")
    if os.path.exists(so):
        os.utime(so)
        return so
    cod, o = os.path.join(d, key + f".{os.getpid()}.codon"), os.path.join(d, key + f".{os.getpid()}.o")
    open(cod, "w").write(src)
    env = dict(os.environ, CODON_PATH=REPO + "/stdlib")
    try:
        p = sh([t["simc"], *flags, "-o", o, cod], env=env, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise CompileFailure("compiler did not finish within %d s" % timeout)
    if p.returncode:
        raise CompileFailure(f"compiler exit {p.returncode}: {(p.stderr + p.stdout)[-1500:]}")
    q = sh([B.CC, "-shared", "-o", o + ".so", o])
    os.unlink(o)
    if q.returncode:
        raise CompileFailure("link: " + q.stderr[-800:])
    os.replace(o + ".so", so)
    os.unlink(cod)
    return so


class Result:
    __slots__ = ("h", "events", "dec", "out", "err", "status", "sig", "exit", "spec")

    def __getattr__(self, n):
        return self.h[n]

    def ok(self):
        return self.status == "done" and self.h["ret"] == 0

    def outcome(self):
        """How the run ended, as a short stable string."""
        if self.sig:
            return f"signal {self.sig}"
        if self.h["hung"]:
            return "hung"
        if self.status == "exited":
            return f"exit {self.exit}"
        if self.status == "done":
            return "done" if self.h["ret"] == 0 else f"return {self.h['ret']}"
        return self.status + ": " + self.h["msg"]

    def ev(self, *ks):
        return [e for e in self.events if e.k in ks]


def spec_line(spec):
    parts = []
    for k, v in spec.items():
        if k == "kinds":
            for n, c in v.items():
                parts.append("kind=%d:%s" % (K[n], ":".join(str(int(x)) for x in c)))
        elif k == "args":
            parts.append("args=" + ",".join(map(str, v)))
        elif k == "dec":
            parts.append("dec=" + ",".join(f"{a}:{b}:{c}" for a, b, c in v))
        else:
            parts.append(f"{k}={v}")
    return " ".join(parts)


class Server:
    def __init__(self, so, env=None, wall=60):
        e = dict(os.environ, SIM_WALL_LIMIT=str(wall), LC_ALL="C", TZ="UTC")
        e.update(env or {})
        self.p = subprocess.Popen([tools()["sim"], so], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e)

    def run(self, spec):
        p = self.p
        p.stdin.write((spec_line(spec) + "\n").encode())
        p.stdin.flush()
        ln = p.stdout.readline()
        if not ln:
            raise RuntimeError("simrun died on spec: " + spec_line(spec)[:400])
        h = json.loads(ln)
        r = Result()
        r.h = h
        rd = p.stdout.read
        ev = rd(h["nev"] * 48)
        dec = rd(h["ndec"] * 16)
        st = rd(h["nstr"])
        r.out, r.err = rd(h["out"]), rd(h["err"])
        r.events = [Event(tid, k, t, a, b, c, st[so:so + sl]) for tid, k, t, a, b, c, so, sl in
                    struct.iter_unpack("<IIqqqqII", ev)]
        r.dec = [(k, i, v) for k, i, v in struct.iter_unpack("<IIq", dec)]
        r.status, r.sig, r.exit = STATUS[h["status"]], h["sig"], h["exit"]
        r.spec = spec
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------ swarm configuration of schedules
def schedule_knobs(rng, threads=True):
    """Seeded scheduler settings: random pre-emption at several rates, PCT, run-until-block."""
    s = {}
    x = rng.random()
    if x < 0.55:
        s["strat"] = 0
        s["swprob"] = rng.choice([60, 300, 1000, 3000, 9000, 25000])
    elif x < 0.9:
        s["strat"] = 1
        s["pctdepth"] = rng.choice([1, 2, 3, 5, 8])
        s["pctlen"] = rng.choice([60, 300, 1500, 6000])
    else:
        s["strat"] = 2
    s["tick"] = rng.choice([20, 100, 1000])
    return s


def replay_spec(spec, dec):
    s = {k: v for k, v in spec.items() if k not in ("kinds", "strat", "swprob", "pctdepth", "pctlen", "dec", "replay")}
    s["replay"] = 1
    s["dec"] = list(dec)
    return s


def ddmin(items, test, budget):
    """Classic ddmin over a list; test(list) -> True when the failure persists."""
    n = 2
    while len(items) >= 1 and time.time() < budget:
        step = max(1, len(items) // n)
        cut = False
        i = 0
        while i < len(items) and time.time() < budget:
            cand = items[:i] + items[i + step:]
            if test(cand):
                items = cand
                cut = True
            else:
                i += step
        if not cut:
            if step == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


class Harness:
    """One program plus the oracle judging its runs.

    job: picklable dict with at least 'src', 'flags'.  judge(job, spec, result) -> None or violation text.
    """

    def __init__(self, job, judge, wall=60):
        self.job, self.judge, self.wall = job, judge, wall
        self.so = compile_workload(job["src"], job.get("flags", ()))
        self.srv = Server(self.so, job.get("env"), wall)

    def run(self, spec):
        try:
            return self.srv.run(spec)
        except RuntimeError:
            self.srv.close()
            self.srv = Server(self.so, self.job.get("env"), self.wall)
            return self.srv.run(spec)

    def close(self):
        self.srv.close()

    def confirm(self, spec, res, why, limit=40):
        """Gate: same seed twice gives the same execution, and the recorded decisions replay it in a fresh
        process.  Returns (replay spec, violation) minimised, or (None, reason)."""
        r2 = self.run(spec)
        if r2.h["hash"] != res.h["hash"] or r2.outcome() != res.outcome():
            again = sum(self.judge(self.job, spec, self.run(spec)) is not None for _ in range(3))
            if again < 3:
                return None, "not repeatable: same seed gave different executions"
        with Server(self.so, self.job.get("env"), self.wall) as fresh:
            rs = replay_spec(spec, res.dec)
            w = self.judge(self.job, rs, fresh.run(rs))
            if w is None:
                return None, "recorded decisions do not reproduce the violation in a fresh process"
            end = time.time() + limit

            def fails(dec):
                try:
                    return self.judge(self.job, spec, fresh.run(replay_spec(spec, dec))) is not None
                except RuntimeError:
                    return False
            dec = list(res.dec)
            for kind in range(len(KINDS)):  # whole kinds first
                rest = [d for d in dec if d[0] != kind]
                if len(rest) < len(dec) and time.time() < end and fails(rest):
                    dec = rest
            if time.time() < end and fails([]):
                dec = []
            dec = ddmin(dec, fails, end)
            rs = replay_spec(spec, dec)
            final = fresh.run(rs)
            w2 = self.judge(self.job, rs, final) or w
            return (rs, w2, final), None


# ------------------------------------------------------------------ campaign
class Stats:
    def __init__(self):
        self.c = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.samples = []
        self.violations = []
        self.notes = collections.Counter()

    def merge(self, o):
        self.c.update(o.c)
        for k, v in o.sets.items():
            self.sets[k] |= v
        self.samples += o.samples
        self.violations += o.violations
        self.notes.update(o.notes)

    def run(self, res):
        self.c["runs"] += 1
        self.c["sim_ns"] += res.h["simns"]
        self.c["yields"] += res.h["yields"]
        self.c["switches"] += res.h["switches"]
        self.c["faulty_runs"] += any(res.h["fired"][K[n]] for n in KINDS if n not in ("SWITCH", "PICK", "RT"))
        for i, n in enumerate(KINDS):
            if res.h["counts"][i]:
                self.c["points_" + n] += res.h["counts"][i]
            if res.h["fired"][i]:
                self.c["fired_" + n] += res.h["fired"][i]
        self.sets["interleavings"].add(int(res.h["ihash"], 16) & 0xffffffffffff)
        self.sets["histories"].add(int(res.h["hash"], 16) & 0xffffffffffff)


def save_replay(pid, job, spec, why, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    d = {"property": pid, "violation": why, "job": job, "spec": spec}
    if extra:
        d.update(extra)
    s = json.dumps(d, indent=1, default=lambda o: list(o) if isinstance(o, (set, tuple)) else repr(o))
    p = os.path.join(REPLAYS, f"{pid}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(s)
    return p


def drive(pid, job, judge, gen_spec, rng, runs, deadline, st, wall=60, max_viol=1, cover=None, det_every=40,
          on_result=None):
    """Run one job many times; collect stats; confirm and record violations."""
    try:
        h = Harness(job, judge, wall)
    except CompileFailure as e:
        if job.get("compile_must_pass", True):
            p = save_replay(pid, job, {}, "the compiler rejects a valid program: " + str(e))
            st.violations.append({"why": "the compiler rejects a valid program: " + str(e)[:300], "replay": p,
                                  "sig": "compile:" + str(e)[:80]})
        else:
            st.notes["compile_failed"] += 1
        return
    nv = 0
    try:
        for i in range(runs):
            if time.time() > deadline:
                st.notes["stopped_at_deadline"] += 1
                break
            spec = gen_spec(rng, job)
            res = h.run(spec)
            st.run(res)
            if det_every and i % det_every == 0:  # determinism self-check on ordinary runs
                r2 = h.run(spec)
                st.c["determinism_checks"] += 1
                if r2.h["hash"] != res.h["hash"] or r2.outcome() != res.outcome():
                    st.notes["nondeterministic"] += 1
            why = judge(job, spec, res)
            if cover:
                for name, val in cover(job, spec, res):
                    st.sets[name].add(val)
            if on_result:
                on_result(job, spec, res)
            if len(st.samples) < 2 and rng.random() < 0.02:
                st.samples.append(sample_text(job, spec, res))
            if why is None:
                continue
            got, reason = h.confirm(spec, res, why)
            if got is None:
                st.notes["unconfirmed: " + reason] += 1
                continue
            rs, w2, final = got
            p = save_replay(pid, job, rs, w2, {"seed": spec.get("seed"), "outcome": final.outcome(),
                                               "hash": final.h["hash"],
                                               "trace": [list(e[:6]) + [e.s.decode("latin1")] for e in final.events[:400]],
                                               "stderr": final.err.decode("latin1")[-600:]})
            st.violations.append({"why": w2, "replay": p, "sig": job.get("sig", "") + w2, "seed": spec.get("seed")})
            nv += 1
            if nv >= max_viol:
                break
    finally:
        h.close()


def sample_text(job, spec, res):
    f = ", ".join(f"{KINDS[k]}@{i}={v}" for k, i, v in res.dec[:6])
    return (f"{job.get('name', '?')} seed={spec.get('seed')} args={spec.get('args', [])[:12]} -> {res.outcome()}, "
            f"{res.h['yields']} steps, {res.h['switches']} switches, {len(res.events)} events; decisions: {f}")


def _call(a):
    fn, arg = a
    st = Stats()
    try:
        fn(arg, st)
    except Exception:
        st.notes["harness error: " + traceback.format_exc()[-600:]] += 1
    return st


def parallel(fn, args, deadline=None, jobs=None, stop=None):
    """Run fn(arg, stats) for every arg in worker processes; returns merged stats."""
    tools()
    st = Stats()
    with mp.get_context("fork").Pool(jobs or JOBS, maxtasksperchild=8) as pool:
        for s in pool.imap_unordered(_call, [(fn, a) for a in args]):
            st.merge(s)
            if stop and len(st.violations) >= stop:  # enough to report; leave the rest unexplored
                st.notes["stopped after a violation"] += 1
                pool.terminate()
                break
    return st


def prune(limit_mb=1500):
    """Keep the workload cache bounded."""
    ents = []
    for root, _, files in os.walk(WORK):
        for f in files:
            p = os.path.join(root, f)
            try:
                s = os.stat(p)
                ents.append((s.st_mtime, s.st_size, p))
            except OSError:
                pass
    tot = sum(e[1] for e in ents)
    for m, s, p in sorted(ents):
        if tot < limit_mb << 20:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


# ------------------------------------------------------------------ reporting
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == pid]


def report(pid, tier, seed, st, t0, level, rule, assumptions, extra=None, distinct_key="histories"):
    """Write evidence, print findings/violations, return the exit code."""
    wall = time.time() - t0
    new, known = [], {}
    kf = known_findings(pid)
    for v in st.violations:
        hit = None
        for e in kf:
            if e["match"] in v["sig"]:
                hit = e
        if hit:
            known.setdefault(hit["match"], (hit, v))
        else:
            new.append(v)
    c = st.c
    cov = {"evaluations": c["runs"] or c["evaluations"], "distinct_nontrivial": len(st.sets[distinct_key]), "rule": rule,
           "samples": (st.samples or ["(no sample drawn)"])[:6],
           "runs_per_hour": round(c["runs"] / max(wall, 1e-3) * 3600),
           "simulated_seconds": round(c["sim_ns"] / 1e9, 3), "steps": c["yields"], "context_switches": c["switches"],
           "runs_with_faults": c["faulty_runs"], "fault_free_runs": c["runs"] - c["faulty_runs"],
           "decision_points": {n: c["points_" + n] for n in KINDS if c["points_" + n]},
           "decisions_taken": {n: c["fired_" + n] for n in KINDS if c["fired_" + n]},
           "distinct_interleavings": len(st.sets["interleavings"]), "distinct_histories": len(st.sets["histories"]),
           "determinism_checks": c["determinism_checks"], "notes": dict(st.notes),
           "reach": {k: (sorted(map(str, v))[:60] if len(v) <= 60 else len(v)) for k, v in st.sets.items()
                     if k not in ("interleavings", "histories")}}
    for k in c:
        if not k.startswith(("points_", "fired_")) and k not in ("runs", "sim_ns", "yields", "switches", "faulty_runs",
                                                                   "determinism_checks", "evaluations"):
            cov[k] = c[k]
    cov.update(extra or {})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(wall, 2),
          "violations": len(new)}
    if new:
        ev["violation_list"] = [{"what": v["why"][:1000], "replay": v["replay"]} for v in new]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = f"{VERIF}/evidence/{pid}.json"
    json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
    os.replace(p + ".tmp", p)
    for hit, v in known.values():
        print(f"KNOWN-FINDING: property={pid} {hit['what']}")
    for n, k in st.notes.items():
        print(f"note: {n} x{k}")
    print(f"{pid}: {c['runs'] or c['evaluations']} runs, {len(st.sets[distinct_key])} distinct, {len(new)} violations, "
          f"{wall:.1f} s")
    for v in new[:5]:
        print("  " + v["why"][:600].replace("\n", "\n    "))
        print(f"VIOLATION property={pid} replay={v['replay']}")
    prune()
    if any(n.startswith("harness error") for n in st.notes) and not new:
        print("harness errors occurred", file=sys.stderr)
        return 2
    return 1 if new else 0
