#!/usr/bin/env python3
"""replay.py FILE: re-execute a recorded violation exactly, print its trace and whether the violation reproduces."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "props")]
import simlib as S
import check


def main():
    d = json.load(open(sys.argv[1]))
    m = check.campaign(d["property"])
    if hasattr(m, "replay"):
        sys.exit(m.replay(d))
    if not d["spec"]:
        try:
            S.compile_workload(d["job"]["src"], d["job"].get("flags", ()))
        except S.CompileFailure as e:
            print("reproduced: " + str(e)[:1000])
            sys.exit(1)
        print("the program compiles now")
        sys.exit(0)
    d["spec"]["dec"] = [tuple(x) for x in d["spec"].get("dec", [])]
    h = S.Harness(d["job"], m.judge)
    res = h.run(d["spec"])
    for e in res.events:
        print(f"t{e[0]} @{e[2]}ns k={e[1]} {e[3]} {e[4]} {e[5]} {e[6].decode('latin1')}")
    print("decisions:", [f"{S.KINDS[k]}[{i}]={v}" for k, i, v in d["spec"]["dec"]])
    print("outcome:", res.outcome(), "hash:", res.h["hash"], "recorded hash:", d.get("hash"))
    why = m.judge(d["job"], d["spec"], res)
    h.close()
    print("violation:", why)
    sys.exit(1 if why else 0)


main()
