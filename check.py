#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property
   check.py replay FILE         rerun a recorded violation on the current tree
   check.py setup               build the simulator
   check.py all quick           every check, one after another"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import core, build
import props


def main(a):
    if a[0] == "setup":
        for f in ("io", "mem") + (("mt",) if os.path.exists(os.path.join(build.SIM, "sched.cc")) else ()):
            build.build(f)
        return 0
    if a[0] == "replay":
        rec = json.load(open(a[1]))
        p = props.ALL[rec["property"]]
        for f in p.flavours:
            build.build(f)
        d, vs = core.replay(a[1], p)
        vs, _ = core.split_known(vs, core.load_known(p.id))
        same = [v for v in vs if v[0] == rec["violation"][0]]
        print("digest %s (%s)" % (d, "as recorded" if d == rec["digest"] else "recorded " + rec["digest"]))
        if not same:
            print("not reproduced on this tree: %s" % vs)
            return 0
        print("%s: %s" % tuple(same[0][:2]))
        print("VIOLATION property=%s replay=%s" % (p.id, a[1]))
        return 1 if d == rec["digest"] or len(a) > 2 else 4
    if a[0] == "all":
        rc = 0
        for k in sorted(props.ALL):
            r = core.main_check(props.ALL[k], a[1])
            rc = rc or r
        return rc
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.main_check(props.ALL[a[0]], tier)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:] or ["all", "quick"]))
    except (core.HarnessError, build.BuildError) as e:
        print("ERROR: %s" % e)
        sys.exit(3)
