#!/usr/bin/env python3
"""determinism.py [RUNS] [Cxx ...]: every property's batch is executed three times from the same seed: all workers, two workers,
and another hash seed.  The digests over all recorded histories (and, for C13, over all schedules) must agree bit for bit."""
import json
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(prop, runs, **env):
    out = tempfile.mkdtemp(prefix="det-")
    e = dict(os.environ, VERIF_OUT=out, VERIF_RUNS=str(runs), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), **env)
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop, "quick"], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=HERE)
    c = json.load(open(os.path.join(out, "evidence", prop + ".json")))["coverage"]
    subprocess.run(["rm", "-rf", out])
    return r.returncode, c["event_log_digest"], c["distinct_signatures"], c["distinct_interleavings"]


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 26)]
    bad = 0
    for p in props:
        got = [digest(p, runs), digest(p, runs, VERIF_WORKERS="2"), digest(p, runs, VERIF_HASHSEED="77")]
        same = len(set(got)) == 1
        bad += not same
        print("%s %d runs: %s %s" % (p, runs, "identical" if same else "DIFFERENT", got[0] if same else got))
        sys.stdout.flush()
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
