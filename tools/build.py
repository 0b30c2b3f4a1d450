#!/usr/bin/env python3
"""Content-addressed build of codon (/repo) plus the simulator, outside /repo.

Every object is cached under build/cache by a hash of its command line and of the contents of
every /repo and /verif file it includes, so an unchanged tree costs a hash pass and a changed
file rebuilds exactly what depends on it.  Nothing is written to /repo.
"""
import hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CODON_REPO", "/repo")
BUILD = os.environ.get("CODON_SIM_BUILD", os.path.join(VERIF, "build"))
CACHE = os.path.join(BUILD, "cache")
CXX = "/usr/bin/clang++-18"
CC = "/usr/bin/clang-18"
JOBS = int(os.environ.get("CODON_SIM_JOBS", "8"))

COMMON = ["-w", "-fPIC", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
          "-D__STDC_LIMIT_MACROS", "-DCODON_SIM=1"]
_h = {}
_lock = threading.Lock()
stats = {"compiled": 0, "cached": 0, "linked": 0}


def fhash(p):
    p = os.path.realpath(p) if not os.path.isabs(p) else p
    with _lock:
        if p in _h:
            return _h[p]
    try:
        with open(p, "rb") as f:
            d = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        d = "missing"
    with _lock:
        _h[p] = d
    return d


def norm(p):
    """Path recorded in the cache, independent of where the repo copy or /verif lives."""
    if p.startswith(REPO + "/"):
        return "R:" + p[len(REPO) + 1:]
    if p.startswith(VERIF + "/"):
        return "V:" + p[len(VERIF) + 1:]
    return p


def denorm(p):
    if p.startswith("R:"):
        return REPO + "/" + p[2:]
    if p.startswith("V:"):
        return VERIF + "/" + p[2:]
    return p


def key_of(cmd):
    return hashlib.sha1("\0".join(norm_arg(a) for a in cmd).encode()).hexdigest()


def norm_arg(a):
    return a.replace(REPO + "/", "R:").replace(VERIF + "/", "V:") if a not in (REPO, VERIF) else norm(a + "/")


def compile_one(src, flags, cc=CXX):
    cmd = [cc] + flags + ["-c", src]
    k = key_of(cmd)
    mf = os.path.join(CACHE, k + ".json")
    ents = []
    if os.path.exists(mf):
        try:
            ents = json.load(open(mf))
        except Exception:
            ents = []
    for e in ents:
        if all(fhash(denorm(p)) == h for p, h in e["deps"]) and os.path.exists(os.path.join(CACHE, e["obj"])):
            stats["cached"] += 1
            return os.path.join(CACHE, e["obj"])
    tmp = os.path.join(CACHE, f"tmp-{os.getpid()}-{threading.get_ident()}-{k[:8]}")
    p = subprocess.run(cmd + ["-o", tmp + ".o", "-MD", "-MF", tmp + ".d"], capture_output=True, text=True)
    if p.returncode:
        for x in (".o", ".d"):
            if os.path.exists(tmp + x):
                os.unlink(tmp + x)
        raise BuildError(f"compiling {src} failed:\n{p.stderr[-4000:]}")
    deps = re.sub(r"\\\n", " ", open(tmp + ".d").read()).split(":", 1)[1].split()
    os.unlink(tmp + ".d")
    deps = sorted({os.path.normpath(d) for d in deps})
    deps = [(norm(d), fhash(d)) for d in deps
            if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]
    hk = hashlib.sha1(json.dumps([k, deps]).encode()).hexdigest()
    obj = hk + ".o"
    os.replace(tmp + ".o", os.path.join(CACHE, obj))
    ents = [e for e in ents if e["deps"] != [list(d) for d in deps]][-7:] + [{"deps": deps, "obj": obj}]
    t = mf + f".{os.getpid()}"
    json.dump(ents, open(t, "w"))
    os.replace(t, mf)
    stats["compiled"] += 1
    return os.path.join(CACHE, obj)


class BuildError(Exception):
    pass


def link(out, objs, flags, cc=CXX):
    """Link into CACHE under a content hash, then point BUILD/<out> at it."""
    k = hashlib.sha1(json.dumps([[os.path.basename(o) for o in objs],
                                 [norm_arg(f) for f in flags], cc, os.path.basename(out),
                                 BUILD]).encode()).hexdigest()
    dst = os.path.join(CACHE, k + "-" + os.path.basename(out))
    if not os.path.exists(dst):
        tmp = dst + f".tmp{os.getpid()}"
        rsp = tmp + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        p = subprocess.run([cc, "-o", tmp, "@" + rsp] + flags, capture_output=True, text=True)
        os.unlink(rsp)
        if p.returncode:
            raise BuildError(f"linking {out} failed:\n{p.stderr[-4000:]}")
        os.replace(tmp, dst)
        stats["linked"] += 1
    return dst


def read_list(var):
    top = re.sub(r"#[^\n]*", "", open(REPO + "/CMakeLists.txt").read())
    m = re.search(r"set\(" + var + r"[ \n]+([^)]*)\)", top)
    if not m:
        raise BuildError(f"no set({var} ...) in CMakeLists.txt")
    return m.group(1).split()


def version():
    top = open(REPO + "/CMakeLists.txt").read()
    return re.search(r'VERSION "([0-9.]+)"', top).group(1)


def write_if_changed(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = p + f".{os.getpid()}"
        open(t, "w").write(s)
        os.replace(t, p)


def par(fns):
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(f) for f in fns]
        return [f.result() for f in futs]


OPT = ["-O1"]


def incs():
    return ["-I" + VERIF + "/shim", "-I" + VERIF + "/build/gen", "-I" + REPO,
            "-isystem", "/usr/lib/llvm-20/include"]


def gen():
    v = version()
    a, b, c = v.split(".")
    s = open(REPO + "/cmake/config.h.in").read()
    for k, x in (("@PROJECT_VERSION@", v), ("@PROJECT_VERSION_MAJOR@", a),
                 ("@PROJECT_VERSION_MINOR@", b), ("@PROJECT_VERSION_PATCH@", c)):
        s = s.replace(k, x)
    g = VERIF + "/build/gen"
    write_if_changed(g + "/codon/config/config.h", s)
    for peg, out, n in (("grammar.peg", "codon_rules.cpp", "codon"), ("openmp.peg", "omp_rules.cpp", "omp")):
        t = g + "/" + out + f".{os.getpid()}"
        os.makedirs(g, exist_ok=True)
        p = subprocess.run([sys.executable, VERIF + "/tools/peggen.py",
                            REPO + "/codon/parser/peg/" + peg, t, n], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("peggen failed: " + p.stderr)
        text = open(t).read()
        os.unlink(t)
        write_if_changed(g + "/" + out, text)


def codonc_objs():
    flags = ["-std=c++20"] + OPT + COMMON + incs()
    fns = []
    srcs = [VERIF + "/build/gen/codon_rules.cpp", VERIF + "/build/gen/omp_rules.cpp"]
    srcs += [REPO + "/" + s for s in read_list("CODON_CPPFILES")]
    # big ones first
    srcs.sort(key=lambda s: -os.path.getsize(s))
    for s in srcs:
        f = list(flags)
        if s.endswith("codon/cir/util/format.cpp"):
            f += ["-include", VERIF + "/shim/format_fmt9.h"]
        fns.append(lambda s=s, f=f: compile_one(s, f))
    return fns


def rt_objs():
    flags = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer"] + COMMON + incs() + [
        "-I" + REPO + "/codon/runtime", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1", "-idirafter", "/usr/lib/gcc/x86_64-linux-gnu/13/include"]
    fns = []
    for s in read_list("CODONRT_FILES"):
        if not s.endswith(".cpp"):
            continue
        if s.endswith("numpy/loops.cpp"):
            continue
        fns.append(lambda s=s: compile_one(REPO + "/" + s, flags))
    fns.append(lambda: compile_one(VERIF + "/shim/hwy_sort.cpp", flags))
    fl = sorted(os.listdir(REPO + "/codon/runtime/floatlib"))
    for s in fl:
        if s.endswith(".c") and s not in ("truncsfbf2.c", "truncdfbf2.c"):
            fns.append(lambda s=s: compile_one(REPO + "/codon/runtime/floatlib/" + s,
                                               ["-O1", "-w", "-fPIC", "-DCOMPILER_RT_HAS_FLOAT16"], CC))
    return fns


SIM_SRCS = ["core.cpp", "kmp.cpp", "main.cpp", "disk.cpp"]
WRAPS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_clocklock", "pthread_mutex_timedlock",
         "pthread_mutex_unlock", "nanosleep", "clock_nanosleep", "time", "_ZNSt6chrono3_V212system_clock3nowEv",
         "_ZNSt6chrono3_V212steady_clock3nowEv"]


def simc_objs():
    flags = ["-std=c++20", "-O0"] + COMMON + incs() + ["-I" + VERIF + "/sim"]
    return [lambda: compile_one(VERIF + "/sim/simc.cpp", flags)]


HARNESSES = ["pm_model", "pm_real"]


def harness(name):
    """A driver program around the real compiler library (libcodonc built from /repo)."""
    flags = ["-std=c++20", "-O0"] + COMMON + incs() + ["-I" + VERIF + "/sim"]
    return [lambda: compile_one(VERIF + "/sim/" + name + ".cpp", flags)]


def sim_objs():
    flags = ["-std=c++20", "-O1", "-g1"] + COMMON + ["-I" + VERIF + "/sim"]
    return [lambda s=s: compile_one(VERIF + "/sim/" + s, flags) for s in SIM_SRCS]


def build(targets=("codonc", "rt", "simc", "sim")):
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    gen()
    out = {}
    groups = []
    if "codonc" in targets:
        groups.append(("codonc", codonc_objs()))
    if "rt" in targets:
        groups.append(("rt", rt_objs()))
    if "simc" in targets:
        groups.append(("simc", simc_objs()))
    if "sim" in targets:
        groups.append(("sim", sim_objs()))
    for h in HARNESSES:
        if h in targets:
            groups.append((h, harness(h)))
    allf = [f for _, g in groups for f in g]
    res = par(allf)
    i = 0
    objs = {}
    for n, g in groups:
        objs[n] = res[i:i + len(g)]
        i += len(g)
    if "rt" in objs:
        out["rt"] = link("libcodonrt.so", sorted(objs["rt"]),
                         ["-shared", "-fPIC", "-lgc", "-lre2", "-lz", "-lbz2", "-llzma", "-lfmt",
                          "-L/usr/lib/gcc/x86_64-linux-gnu/13", "-lbacktrace", "-lpthread", "-ldl",
])
    if "codonc" in objs:
        out["codonc"] = link("libcodonc.so", sorted(objs["codonc"]),
                             ["-shared", "-fPIC", "-L/usr/lib/llvm-20/lib", "-lLLVM-20", "-lfmt", "-ldl",
                              "-lpthread"])
    if "simc" in objs:
        d = os.path.dirname(out["codonc"])
        out["simc"] = link("simc", objs["simc"] + [out["codonc"], out["rt"]],
                           ["-L/usr/lib/llvm-20/lib", "-lLLVM-20", "-lfmt", "-Wl,--allow-shlib-undefined",
                            "-Wl,--unresolved-symbols=ignore-in-shared-libs"])
    for h in HARNESSES:
        if h in objs:
            out[h] = link(h, objs[h] + [out["codonc"], out["rt"]],
                          ["-L/usr/lib/llvm-20/lib", "-lLLVM-20", "-lfmt", "-Wl,--allow-shlib-undefined",
                           "-Wl,--unresolved-symbols=ignore-in-shared-libs"])
    if "sim" in objs:
        out["sim"] = link("simrun", objs["sim"] + sorted(objs["rt"]),
                          ["-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAPS] +
                          ["-lgc", "-lre2", "-lz", "-lbz2", "-llzma", "-lfmt",
                           "-L/usr/lib/gcc/x86_64-linux-gnu/13", "-lbacktrace", "-lpthread", "-ldl", "-lm"])
    out["wall"] = time.time() - t0
    return out


if __name__ == "__main__":
    try:
        r = build()
        for h in HARNESSES:  # built on demand by the checks that use them; a failure here concerns only those
            try:
                r.update(build(("codonc", "rt", h)))
            except BuildError as e:
                print(e, file=sys.stderr)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
    print(r, stats)
