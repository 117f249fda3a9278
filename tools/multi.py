#!/usr/bin/env python3
"""multi.py N [Cxx ...]: N seeded runs of every (named) property in one warmed process; prints the number of violating runs.
Used for sensitivity campaigns (tools/mutants.py), not registered as a check.  VERIF_REPO, VERIF_SEED as for check.py."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.argv[0] = os.path.join(HERE, "tools", "multi.py")
import check  # noqa: E402


def main():
    check.reexec()
    from dst import engine
    n = int(sys.argv[1])
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 26)]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pyqlaw = engine.load()
    for p in props:
        engine.warm(pyqlaw, p)
    jobs = [((p, i), (p, i)) for i in range(n) for p in props]
    res = engine.pmap([["%s/%d" % k, a] for k, a in jobs], lambda a: engine.one(a[0], engine.plan_for(a[0], seed, a[1]), pyqlaw), 60.0, 400.0)
    out = {}
    for k, r in sorted(res.items()):
        p = k.split("/")[0]
        o = out.setdefault(p, [0, 0, 0, 0, ""])
        o[0] += 1
        if r.get("v"):
            o[1] += 1
            o[4] = o[4] or "%s: %s %s" % (k, r["v"][0]["cls"], r["v"][0]["msg"][:100])
        elif "hang" in r:
            o[2] += 1
        elif "harness" in r or "crash" in r:
            o[3] += 1
            o[4] = o[4] or ("%s: " % k + str(r)[-200:])
    tot = [p for p in out if out[p][1]]
    print("DETECTED-BY %s" % (" ".join("%s:%d" % (p, out[p][1]) for p in tot) or "none"))
    for p in sorted(out):
        if out[p][1] or out[p][2] or out[p][3]:
            print("  %s %d runs %d violating %d hung %d harness %s" % ((p,) + tuple(out[p])))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
