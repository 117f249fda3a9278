#!/usr/bin/env python3
"""Validate planted bugs: validate_seed.py [--checks] [ID...]
For each: the patch applies to /repo's HEAD, the stable tests pass with it, demo.sh is 0 without and non-zero with it; with
--checks also whether the quick check of its property reports it.  Works on scratch copies only."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(repo, tmp):
    env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR="/opt/vp/mplconfig",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    x = os.path.join(tmp, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "-o",
                    "junit_family=xunit2", "--junitxml=" + x, "--continue-on-collection-errors", "--ignore=examples/test_GTO2GEO_caseB.py",
                    "--ignore=examples/test_GTO2GEO_perturbed.py", "tests", "examples"],
                   cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    return ok


def demo(d, repo, tmp):
    work = os.path.join(tmp, "demo-elsewhere")
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(d, work, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = subprocess.run(["bash", os.path.join(work, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode()[-400:]


def one(i, checks):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    out = "%s [%s]" % (i, meta["property"])
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        c0, o0 = demo(d, repo, tmp)
        r = subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], stderr=subprocess.PIPE)
        if r.returncode:
            return out + " DOES NOT APPLY " + r.stderr.decode()[-200:]
        c1, o1 = demo(d, repo, tmp)
        out += " demo clean=%d patched=%d" % (c0, c1)
        if c0 or not c1:
            out += " BAD-DEMO\n   clean: %s\n   patched: %s" % (o0, o1)
        else:
            out += " (%s)" % o1.strip().splitlines()[-1][:140] if o1.strip() else ""
        if os.environ.get("SKIP_TESTS") != "1":
            got = tests(repo, tmp)
            miss = [s for s in STABLE if s not in got]
            # the baseline may name tests by file path; compare by the last part as well
            if miss:
                names = {g.split("::")[-1] for g in got}
                miss = [s for s in miss if s.split("::")[-1] not in names]
            out += " tests:%s" % ("ok" if not miss else "BROKEN %s" % miss[:4])
        if checks:
            props = [meta["property"]] if checks == "own" else checks.split(",")
            for p in props:
                env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=tmp, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "quick"], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, cwd=HERE)
                t = r.stdout.decode()
                n = [x for x in t.splitlines() if "violating" in x]
                v = [x for x in t.splitlines() if x.startswith("run ")]
                out += "\n   %s exit=%d %s %s" % (p, r.returncode, n[0].split(":")[1][:40] if n else t[-300:], v[0][:160] if v else "")
    finally:
        shutil.rmtree(tmp)
    return out


if __name__ == "__main__":
    checks = None
    ids = []
    for a in sys.argv[1:]:
        if a == "--checks":
            checks = "own"
        elif a.startswith("--checks="):
            checks = a.split("=")[1]
        else:
            ids.append(a)
    ids = ids or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(1 if checks else 3) as ex:
        for line in ex.map(lambda i: one(i, checks), ids):
            print(line)
            sys.stdout.flush()
