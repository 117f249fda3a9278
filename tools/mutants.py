#!/usr/bin/env python3
"""mutants.py SEED COUNT [RUNS]: sensitivity campaign.  Draws random single-token mutants of pyqlaw, keeps those that pass the
stable tests, and runs every property's workload against them on a scratch copy (tools/multi.py).  Survivors are printed with
their diff for inspection: equivalent, out of scope, or a gap.  Nothing in /repo or /verif changes."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from validate_seed import STABLE, tests  # noqa: E402

FILES = {"pyqlaw/_qlaw.py": 8, "pyqlaw/_lyapunov.py": 1, "pyqlaw/_convergence.py": 1, "pyqlaw/_perturbations.py": 2,
         "pyqlaw/_eom.py": 1, "pyqlaw/_integrate.py": 1, "pyqlaw/_elements.py": 2, "pyqlaw/_symbolic.py": 1}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"]}
OPTEXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
          ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}


def sites(src):
    """[(start, end, replacement, description)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and not f.name.startswith("plot"):
            for n in ast.walk(f):
                infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) not in infunc or id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            mid = raw[a:b].decode()
            t = OPTEXT[type(n.ops[0])]
            if mid.count(t) == 1:
                for r in CMP[type(n.ops[0])]:
                    out.append((a, b, mid.replace(t, r), "%s->%s" % (t, r)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = raw[a:b].decode()
            t = OPTEXT[type(n.op)]
            if mid.count(t) == 1:
                for r in BIN[type(n.op)]:
                    out.append((a, b, mid.replace(t, r), "%s->%s" % (t, r)))
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0].end_lineno, n.values[0].end_col_offset), pos(n.values[1].lineno, n.values[1].col_offset)
            mid = raw[a:b].decode()
            t, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(t) == 1:
                out.append((a, b, mid.replace(t, r), "%s->%s" % (t, r)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and n.lineno == n.end_lineno:
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            if isinstance(n.value, bool):
                out.append((a, b, str(not n.value), "bool"))
            elif isinstance(n.value, int):
                out.append((a, b, str(n.value + 1), "int+1"))
                if n.value > 0:
                    out.append((a, b, str(n.value - 1), "int-1"))
            else:
                out.append((a, b, repr(n.value * 1.01 if n.value else 1e-3), "float"))
        elif isinstance(n, ast.If):
            t = n.test
            a, b = pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset)
            out.append((a, b, "True", "if True"))
            out.append((a, b, "False", "if False"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            out.append((a, b, "pass", "drop statement"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = pos(n.lineno, n.col_offset), pos(n.operand.lineno, n.operand.col_offset)
            out.append((a, b, "+", "drop sign"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "sin", "cos") and n.args:
            a, b = pos(n.func.lineno, n.func.col_offset), pos(n.func.end_lineno, n.func.end_col_offset)
            out.append((a, b, {"abs": "", "sin": "np.cos", "cos": "np.sin"}[n.func.attr] or "(lambda x: x)", "call"))
    return out


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    runs = sys.argv[3] if len(sys.argv) > 3 else "60"
    only = os.environ.get("MUT_FILES")
    files = {f: w for f, w in FILES.items() if not only or os.path.basename(f) in only.split(",")}
    r = random.Random(seed)
    done = 0
    while done < count:
        f = r.choices(list(files), list(files.values()))[0]
        src = open(os.path.join("/repo", f)).read()
        a, b, rep, what = r.choice(sites(src))
        new = (src.encode()[:a] + rep.encode() + src.encode()[b:]).decode()
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        if new == src:
            continue
        tmp = tempfile.mkdtemp(prefix="mut-")
        try:
            repo = os.path.join(tmp, "repo")
            shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("plots", "paper", "docs", "dev"))
            open(os.path.join(repo, f), "w").write(new)
            try:
                imp = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import pyqlaw; pyqlaw.QLaw()"], cwd=repo,
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
                if imp:
                    continue
                ok = tests(repo, tmp)
            except Exception:
                continue
            names = {g.split("::")[-1] for g in ok}
            if any(s not in ok and s.split("::")[-1] not in names for s in STABLE):
                continue
            done += 1
            env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=tmp)
            p = subprocess.run([sys.executable, os.path.join(HERE, "tools", "multi.py"), runs], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, cwd=HERE)
            t = p.stdout.decode()
            line = src.encode()[:a].decode().count("\n")
            print("MUTANT %s:%d %s | %s | => %s" % (f, line + 1, what, src.splitlines()[line].strip()[:110], new.splitlines()[line].strip()[:110]))
            print("   " + "\n   ".join(t.strip().splitlines()[-25:] if "DETECTED-BY none" not in t else [x for x in t.splitlines() if "DETECTED" in x] + ["SURVIVED"]))
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
