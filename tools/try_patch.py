#!/usr/bin/env python3
"""Run checks against a scratch copy of /repo with a change applied.

  try_patch.py [-R] PATCH|COMMIT Cxx [Cyy ...] [--tests]     -R: reverse the change
Prints one line per check: exit code and the last lines of output.  Nothing in /repo or /verif changes."""
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    rev = "-R" in args
    tests = "--tests" in args
    args = [a for a in args if not a.startswith("-")]
    change, props = args[0], args[1:]
    tmp = tempfile.mkdtemp(prefix="trypatch-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        if os.path.exists(change):
            diff = open(change, "rb").read()
        else:
            diff = subprocess.run(["git", "-C", "/repo", "show", "--format=", change], stdout=subprocess.PIPE, check=True).stdout
        r = subprocess.run(["git", "-C", repo, "apply"] + (["-C1"] if rev else []) + (["-R"] if rev else []) + ["-"], input=diff, stderr=subprocess.PIPE)
        if r.returncode:
            print("%s does not apply: %s" % (change, r.stderr.decode()[-300:]))
            return 2
        if tests:
            env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "8",
                                "--ignore=examples/test_GTO2GEO_caseB.py", "--ignore=examples/test_GTO2GEO_perturbed.py",
                                "tests", "examples"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print("tests:", r.stdout.decode().strip().splitlines()[-1])
        for p in props:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=tmp)
            env.setdefault("VERIF_SEED", "1")
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "quick"], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, cwd=HERE)
            lines = r.stdout.decode().strip().splitlines()
            print("%s %s exit=%d  %s" % (os.path.basename(os.path.dirname(os.path.abspath(change))) if os.path.exists(change) else change,
                                        p, r.returncode, " | ".join(x[:230] for x in lines if x.startswith(("run ", p, "ERROR")))))
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)
    return 0


if __name__ == "__main__":
    sys.exit(main())
