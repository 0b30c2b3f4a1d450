"""P13: pass manager — histories of registrations, runs and failures against a model, and the standard pipeline on real programs."""
import hashlib, json, os, random, subprocess, time
import simlib as S
import build as B

ID, LEVEL = "P13", "fault_enumeration"
TECHNIQUE = ("deterministic simulation: the real pass manager is driven through seeded histories of registering, disabling, running and "
             "failing simulated passes and analyses, checked against a reference model; and the standard pipeline runs on generated "
             "programs while every analysis result handed to a pass is compared with one computed afresh")
RULE = ("an evaluation is one history of manager operations (or one program through the whole standard pipeline) executed by the real "
        "manager and judged step by step; distinct = different trace of observed passes, analyses and results")
ASSUMPTIONS = ["passes register nothing while the manager runs them", "a pass that fails half-way may already have changed the module",
               "two results computed from the same module by the same analysis are equal"]
NOTE = ("Real manager, real analyses and passes in the pipeline part; simulated passes in the history part. Evidence over the sampled "
        "histories and programs.")
HARNESSES = ("pm_model", "pm_real")
PROGRAMS = {"quick": 48, "thorough": 600}
HIST = {"quick": 120, "thorough": 600}


# ------------------------------------------------------------------ histories
def gen_history(rng):
    keys = ["k%d" % i for i in range(rng.randint(2, 6))]
    dis = [k for k in keys if rng.random() < 0.12]
    ops = [f"M EMPTY {','.join(dis) or '-'}"]
    an, ps, n = [], [], 0
    shape = rng.random()

    def some(l, p=0.4, m=4):
        r = [x for x in l if rng.random() < p]
        rng.shuffle(r)
        return r[:m]

    def reg_an():
        nonlocal n
        n += 1
        s, k = f"a{n}", rng.choice(keys)
        ops.append(f"A {s} {k} {','.join(some(an[-3:] if shape < 0.4 else an, 0.5, 3)) or '-'}")
        if k not in dis:
            an.append(s)

    def reg_ps():
        nonlocal n
        n += 1
        s, k = f"p{n}", rng.choice(keys)
        req = some(an)
        look = req + [x for x in an if x not in req and rng.random() < 0.3]
        before = rng.choice(ps) if ps and rng.random() < 0.35 else "-"
        rep = rng.choice([0, 0, 1, 2, 3, 5])
        inv = some(an, rng.choice([0.1, 0.3, 0.6]))
        ops.append(f"P {s} {k} {before} {','.join(req) or '-'} {','.join(inv) or '-'} {rep} {','.join(look) or '-'}")
        if k not in dis:
            ps.append(s)

    for _ in range(rng.randint(1, 6)):
        reg_an()
    for _ in range(rng.randint(1, 7)):
        reg_ps()
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.2:
            reg_an()
        if r < 0.35:
            reg_ps()
        if rng.random() < 0.4 and ps:
            ops.append(f"F {rng.choice(ps + an)} {rng.randint(1, 8)}")
        for _ in range(rng.randint(1, 2)):
            ops.append("R")
        for a in some(an, 0.4):
            ops.append(f"G {a}")
        if rng.random() < 0.2:
            ops.append(f"D {rng.choice(keys)}")
    return ops


def parse(ops):
    """(disabled, registrations by slot) or None when the history is not well formed (used while minimising)."""
    if not ops or ops[0][0] != "M":
        return None
    dis = set(ops[0].split()[2].split(","))
    regs = {}
    L = lambda s: [] if s == "-" else s.split(",")
    for o in ops[1:]:
        f = o.split()
        ok = lambda xs, t: all(x in regs and regs[x]["kind"] == t and not regs[x]["off"] for x in xs)
        if f[0] == "M":
            return None
        if f[0] == "A":
            if not ok(L(f[3]), "A"):
                return None
            regs[f[1]] = dict(kind="A", key=f[2], req=L(f[3]), off=f[2] in dis)
        elif f[0] == "P":
            if not ok(L(f[4]), "A") or not ok(L(f[5]), "A") or not ok(L(f[7]), "A") or (f[3] != "-" and not ok([f[3]], "P")):
                return None
            regs[f[1]] = dict(kind="P", key=f[2], before=f[3], req=L(f[4]), inv=L(f[5]), rep=int(f[6]), off=f[2] in dis)
        elif f[0] in "FG" and f[1] not in regs:
            return None
    return dis, regs


def check_history(ops, out):
    """Why the trace breaks the rules, or None."""
    dis, regs = parse(ops)
    lines = iter(out.splitlines())
    order, used = [], set()
    cur, stale = {}, {}                      # analysis slot -> serial of its latest result / whether it may be out of date
    deps = {}

    def spoil(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            stale[x] = True
            todo += [y for y, r in regs.items() if r["kind"] == "A" and x in r["req"]]

    def looks(words):
        d = {}
        for w in words:
            if "=" in w and not w.startswith(("n=", "serial=")):
                k, v = w.split("=", 1)
                d[k] = v
        return d

    def observe(who, words, req):
        for a, v in looks(words).items():
            if v == "none":
                if a in req:
                    return f"{who} requires {a} but no result of it is available"
                continue
            if not v.isdigit():
                return f"{who} asks for {a} and is given the result of another analysis ({v})"
            if stale.get(a, True):
                return f"{who} is served result {v} of {a}, computed before it was invalidated"
            if int(v) != cur.get(a):
                return f"{who} is served result {v} of {a}; the latest is {cur.get(a)}"
        return None

    def nxt():
        return next(lines, None)

    for o in ops[1:]:
        f = o.split()
        if f[0] in ("A", "P"):
            r = regs[f[1]]
            l = nxt()
            if l is None or not l.startswith(f"key {f[1]} "):
                return f"registering {f[1]}: unexpected {l!r}"
            k = l.split("'")[1]
            if r["off"]:
                if k:
                    return f"{f[1]} has the disabled key {r['key']} and was registered as '{k}'"
            else:
                if not k or k in used:
                    return f"{f[1]} was registered under the key '{k}', which is {'in use' if k else 'empty'}"
                if "has=1" not in l:
                    return f"{f[1]} was registered as '{k}' but the manager denies having it"
                used.add(k)
                if f[0] == "P":
                    order.insert(order.index(f[3]) if f[3] != "-" else len(order), f[1])
        elif f[0] == "D":
            l = nxt()
            if l != f"disabled {f[1]} {int(f[1] in dis)}":
                return f"isDisabled: {l!r}"
        elif f[0] == "G":
            l = nxt()
            if not l or not l.startswith("get "):
                return f"request for {f[1]}: unexpected {l!r}"
            if not regs[f[1]]["off"] and regs[f[1]]["kind"] == "A":
                w = observe("a request after the run", [l.split()[1]], ())
                if w:
                    return w
        elif f[0] == "R":
            if nxt() != "run":
                return "the run did not start"
            want = [p for p in order for _ in range(max(1, regs[p]["rep"]))]
            i, thrown = 0, False
            while True:
                l = nxt()
                if l is None:
                    return "the manager stopped in the middle of a run"
                w = l.split()
                if w[0] == "end":
                    if "throws" in l and not thrown:
                        return "the run failed although nothing it ran failed"
                    if thrown and "throws" not in l:
                        return "a pass failed and the run ended as if it had not"
                    if not thrown and i != len(want):
                        return f"the run ended after {i} of {len(want)} pass executions; next was {want[i]}"
                    break
                if w[0] == "repeat?":
                    continue
                if thrown:
                    return f"{w[0]} {w[1]} ran although an earlier one had failed"
                r = regs[w[1]]
                thrown = w[-1] == "throws"
                if r["off"]:
                    return f"the disabled {w[0]} {w[1]} ran"
                bad = observe(f"{w[0]} {w[1]} ({w[2]})", w[3:], r["req"])
                if bad:
                    return bad
                if w[0] == "analysis":
                    if not thrown:
                        cur[w[1]], stale[w[1]] = int(w[3].split("=")[1]), False
                else:
                    if i >= len(want) or want[i] != w[1]:
                        return f"pass {w[1]} ran as number {i + 1} of the run; expected {want[i] if i < len(want) else 'the end'}"
                    i += 1
                    for a in r["inv"]:
                        spoil(a)
    if nxt() != "done":
        return "the manager did not survive the history"
    return None


def run_history(ops):
    p = subprocess.run([S.harness("pm_model")], input="\n".join(ops) + "\n", capture_output=True, text=True, timeout=60)
    return p.returncode, p.stdout


def judge_history(ops):
    rc, out = run_history(ops)
    w = check_history(ops, out)
    if rc and not w:
        w = f"the manager crashed (exit {rc})"
    elif rc:
        w = f"the manager crashed (exit {rc}): {w}"
    return w, out


def minimise(ops, limit=200):
    best, n = ops, 0
    step = max(1, len(best) // 2)
    while step and n < limit:
        i = 1
        while i < len(best) and n < limit:
            cand = best[:i] + best[i + step:]
            if parse(cand) is not None:
                n += 1
                if judge_history(cand)[0]:
                    best = cand
                    continue
            i += step
        step //= 2
    for i, o in enumerate(best):           # smaller dependency lists and repeats
        f = o.split()
        for j in range(3, len(f)):
            for alt in ("-", "0"):
                g = f[:j] + [alt] + f[j + 1:]
                cand = best[:i] + [" ".join(g)] + best[i + 1:]
                try:
                    if f[0] in "AP" and parse(cand) is not None and judge_history(cand)[0]:
                        f, best = g, cand
                except Exception:
                    pass
    return best


# ------------------------------------------------------------------ the standard pipeline on programs
MODES = ["release", "release", "release", "jit", "debug"]
DISABLE = ["core-folding-pass-group", "core-numpy-fusion", "core-numpy-bounds-check-elision", "core-parallel-openmp",
           "core-imperative-for-lowering", "core-pythonic-list-addition-opt", "core-async-for-lowering", "core-pipeline-lowering"]
OMP = """
def work(n):
    s = 0
    l = [0] * (n + 1)
    @par(schedule='dynamic', num_threads=3)
    for i in range(n):
        l[i] = i * 2
        s += i
    return s + sum(l)
gq = 4
def pq(n):
    global gq
    for i in range(n):
        gq += i
    return gq
print(work(7), pq(3))
"""


def gen_program(rng):
    import opt, importlib
    r = rng.random()
    if r < 0.6:
        src = opt.make_jobs(rng)[0]["src"]
    elif r < 0.85:
        src = importlib.import_module(rng.choice(["excflow", "gens"])).make_job(rng)["src"]
    else:
        src = importlib.import_module(rng.choice(["reduce", "parloop"])).make_job(rng)["src"]
    if rng.random() < 0.3:
        src += OMP
    mode = rng.choice(MODES)
    flags = [mode]
    if rng.random() < 0.2:
        flags.append("-py")
    if mode != "debug":
        for k in rng.sample(DISABLE, rng.choice([0, 0, 1, 1, 2])):
            flags += ["-disable", k]
    return src, flags


def run_program(src, flags):
    d = os.path.join(S.WORK, "pm")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, hashlib.sha1((src + str(os.getpid())).encode()).hexdigest() + ".codon")
    open(f, "w").write(src)
    try:
        p = subprocess.run([S.harness("pm_real"), f, *flags], capture_output=True, text=True, errors="replace", timeout=300,
                           env=dict(os.environ, CODON_PATH=S.REPO + "/stdlib"))
    finally:
        os.unlink(f)
    return p.returncode, p.stdout, p.stderr


def judge_program(flags, rc, out):
    disabled = [flags[i + 1] for i, x in enumerate(flags) if x == "-disable"]
    lines = out.splitlines()
    if "REJECTED" in out or not out.startswith("order "):
        return None
    order = next((l.split()[1:] for l in lines if l.startswith("order ")), None)
    if len(set(order)) != len(order):
        return "two passes share a key: " + " ".join(order)
    raw = [k.split(":")[0] for k in order]
    for k in disabled:
        if k in raw:
            return f"the disabled pass {k} is in the pipeline"
    if flags[0] != "debug":
        for k in STANDARD[flags[0]]:
            if k not in disabled and raw.count(k) != STANDARD[flags[0]].count(k):
                return f"pass {k} is registered {raw.count(k)} times"
    for l in lines:
        if l.startswith(("STALE", "MISSING")):
            return l
    ran = [l.split()[1:] for l in lines if l.startswith("pass ")]
    seq = [k for i, (k, n) in enumerate(ran) if n == "1"]
    if rc not in (0, 4):
        return f"the pipeline crashed (exit {rc}) in pass {ran[-1] if ran else '-'}"
    if seq != order:
        return f"passes ran in the order {seq}, registered {order}"
    groups = [k for i, (k, n) in enumerate(ran) if i == 0 or ran[i - 1][0] != k]
    if groups != order:
        return f"a pass ran again after a later one: {groups}"
    return None


_F = ["core-folding-pass-group"]
_STD = ["core-pythonic-dict-arithmetic-opt", "core-pythonic-list-addition-opt", "core-pythonic-str-addition-opt",
        "core-pythonic-generator-argument-opt", "core-pythonic-io-cat-opt", "core-pipeline-lowering",
        "core-imperative-for-lowering", "core-folding-pass-group", "core-numpy-fusion", "core-imperative-for-lowering",
        "core-numpy-bounds-check-elision", "core-async-for-lowering", "core-await-lowering", "core-parallel-openmp"]
STANDARD = {"release": _STD + _F, "jit": _STD}


def save(d, why):
    os.makedirs(S.REPLAYS, exist_ok=True)
    t = json.dumps(dict(property=ID, why=why, **d), indent=1)
    p = os.path.join(S.REPLAYS, f"{ID}-{hashlib.sha1(t.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(t)
    return p


def work(tier, seed, deadline, st):
    rng = random.Random(seed)
    for i in range(HIST[tier]):
        if time.time() > deadline:
            break
        ops = gen_history(rng)
        why, out = judge_history(ops)
        st.c["runs"] += 1
        st.c["histories_run"] += 1
        st.c["manager_operations"] += len(ops)
        nf = out.count(" throws") - out.count("end throws")
        st.c["fired_POINT"] += nf
        st.c["faulty_runs"] += nf > 0
        st.c["yields"] += out.count("\n")
        st.sets["histories"].add(hashlib.sha1(out.encode()).hexdigest())
        if i % 25 == 0:
            st.c["determinism_checks"] += 1
            if run_history(ops)[1] != out:
                st.notes["nondeterministic"] += 1
        if i == 7 and len(st.samples) < 2:
            st.samples.append(f"seed={seed} history: {'; '.join(ops)} -> {out.count('pass ')} passes, {out.count('analysis ')} analyses, {nf} failures")
        if why:
            ops = minimise(ops)
            why, out = judge_history(ops)
            st.violations.append({"why": why, "replay": save({"ops": ops, "trace": out, "seed": seed}, why), "sig": why, "seed": seed})
            break
    if time.time() > deadline:
        return
    src, flags = gen_program(rng)
    rc, out, err = run_program(src, flags)
    if "REJECTED" in out or not out.startswith("order "):
        st.notes["programs outside the language subset"] += 1
        return
    st.c["runs"] += 1
    st.c["programs_compiled"] += 1
    st.c["pass_executions"] += out.count("\npass ")
    done = out.splitlines()[-1].split() if out else []
    for w in done:
        if w.startswith(("compared=", "entries=")):
            st.c["analysis_results_" + w.split("=")[0]] += int(w.split("=")[1])
    st.sets["histories"].add(hashlib.sha1(out.encode()).hexdigest())
    st.sets["configurations"].add(" ".join(flags))
    why = judge_program(flags, rc, out)
    if why:
        rc2, out2, _ = run_program(src, flags)
        if judge_program(flags, rc2, out2):
            st.violations.append({"why": why[:900], "replay": save({"src": src, "flags": flags, "seed": seed, "trace": out[-4000:],
                                                                     "stderr": err[-1000:]}, why), "sig": why, "seed": seed})
        else:
            st.notes["unconfirmed: did not repeat"] += 1


def replay(d):
    if "ops" in d:
        why, out = judge_history(d["ops"])
        print("\n".join(d["ops"]), "\n----\n" + out)
        print("same trace as recorded:", out == d["trace"])
    else:
        rc, out, err = run_program(d["src"], d["flags"])
        why = judge_program(d["flags"], rc, out)
        print(d["src"], "\n----\n", d["flags"], "\n", out, err)
    print("violation:", why)
    return 1 if why else 0
