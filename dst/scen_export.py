"""C16: exports are complete and faithful, and fail loudly when the disk fails at any byte."""
import builtins
import copy
import errno
import hashlib
import io
import json
import math
import os
import resource
import shutil
import signal
import sys
import tempfile
import numpy as np
from . import gen, world, oracles, profiles, refmodel as rm
from .oracles import V
from .scen_abort import clean, pick_fault

PROPS = ["C16"]
RUNS = {"C16": 1000}
RULE = {"C16": "one case = one mission (also zero-step, aborted and backward ones), exported to a dictionary and to a file on a "
               "disk that fails as the seed says (open error, ENOSPC/EIO/EDQUOT at a byte, short and tiny writes, error at close, "
               "RLIMIT_FSIZE of the real kernel), then exported again after the fault cleared; distinct by (fault kind, byte "
               "position class, export options, mission shape); non-trivial = a file was exported"}
STUBS = {"C16": {"real": ["pyqlaw.QLaw.save_to_dict", "json", "a real file in a scratch directory (RLIMIT_FSIZE faults are the kernel's)"],
                 "stub": ["raw file layer under builtins.open/io.open for paths in the scratch directory", "mission seams as elsewhere"]}}
ASSUMPTIONS = {"C16": ["crash atomicity of the file is not claimed; an incomplete file must not parse as an export"]}


def gen_plan(prop, r):
    m = gen.gen_mission(r, steps=(1, 30), env=0.4, eta=0.4, prelude=False)
    x = r.random()
    if x < 0.05:
        m["prob"]["tf_max"] = 0.0
    fault = pick_fault(r, m, 10) if r.random() < 0.15 else None
    kind = r.choice(["none", "open", "enospc", "enospc", "eio", "short", "tiny", "close", "rlimit", "rlimit", "edquot",
                     "interrupt", "interrupt"])
    pos = r.choice(["zero", "last", "last2", "rand", "rand", "rand", "line"])
    return {"kind": "export", "m": m, "abort": fault, "angles": r.random() < 0.5,
            "units": r.choice([None, None, {"LU": 6378.0, "TU": 806.8, "note": "km"}, {"LU": "np", "n": 3}]),
            "disk": {"kind": kind, "pos": pos, "u": r.random(), "errno": r.choice(["ENOSPC", "EIO"]), "chunk": r.choice([1, 7, 100, 1000])},
            "previous": r.choice([None, None, "garbage", "longer", "longer"]), "retry_same": r.random() < 0.7}


def shrink(prop, plan):
    out = []
    for k, v in (("abort", None), ("units", None), ("previous", None), ("angles", False)):
        if plan[k] != v:
            p = copy.deepcopy(plan)
            p[k] = v
            out.append(p)
    if plan["disk"]["kind"] != "none":
        p = copy.deepcopy(plan)
        p["disk"]["kind"] = "none"
        out.append(p)
        if plan["disk"]["kind"] not in ("enospc", "rlimit"):
            p = copy.deepcopy(plan)
            p["disk"]["kind"] = "enospc"
            out.append(p)
    return out


class SimRaw(io.RawIOBase):
    """a real file behind a failing device"""

    def __init__(self, path, mode, disk, limit, st):
        flags = os.O_WRONLY | os.O_CREAT | (os.O_TRUNC if "w" in mode else 0) | (os.O_APPEND if "a" in mode else 0) | \
            (os.O_EXCL if "x" in mode else 0)
        self.fd = os.open(path, flags, 0o644)
        self.disk, self.limit, self.st, self.n = disk, limit, st, 0
        self.name, self.mode = path, mode

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def write(self, b):
        b = bytes(b)
        k = self.disk["kind"]
        if k in ("enospc", "eio", "edquot"):
            room = self.limit - self.n
            if room <= 0:
                self.st["fired"] = k
                e = {"enospc": errno.ENOSPC, "eio": errno.EIO, "edquot": errno.EDQUOT}[k]
                raise OSError(e, os.strerror(e))
            b = b[:room]
        elif k == "short":
            b = b[:max(1, len(b) // 2)]
            self.st["short"] = self.st.get("short", 0) + 1
        elif k == "tiny":
            b = b[:self.disk["chunk"]]
            self.st["short"] = self.st.get("short", 0) + 1
        w = os.write(self.fd, b)
        self.n += w
        return w

    def close(self):
        if not self.closed:
            super().close()
            os.close(self.fd)
            if self.disk["kind"] == "close" and self.st.get("armed"):
                self.st["fired"] = "close"
                e = getattr(errno, self.disk["errno"])
                raise OSError(e, os.strerror(e))


class SimDisk:
    """replaces the file layer for paths below the scratch directory"""

    def __init__(self, root, disk, limit):
        self.root, self.disk, self.limit = os.path.realpath(root), disk, limit
        self.st = {"armed": True}
        self.real = builtins.open

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            p = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else ""
        except TypeError:
            p = ""
        if not p.startswith(self.root + os.sep) or not (set(mode) & set("wax")) or "+" in mode or opener is not None:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.st["opened"] = self.st.get("opened", 0) + 1
        if self.disk["kind"] == "open":
            self.st["fired"] = "open"
            e = getattr(errno, self.disk["errno"])
            raise OSError(e, os.strerror(e), str(file))
        raw = SimRaw(p, mode, self.disk, self.limit, self.st)
        buf = io.BufferedWriter(raw, 8192 if buffering in (-1, 1) else max(1, buffering))
        if "b" in mode:
            return buf if buffering != 0 else raw
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)

    def __enter__(self):
        self.io_open = io.open
        builtins.open = self.open
        io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = self.real
        io.open = self.io_open
        return False


def units_of(plan):
    u = plan["units"]
    if u and u.get("LU") == "np":
        return {"LU": np.float64(1.5), "n": np.int64(3), "v": np.array([1.0, 2.0])}
    return copy.deepcopy(u)


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def check_body(d, tr, plan, h, where):
    """the exported mapping against the recorded history"""
    n = len(h["times"]) - 1
    try:
        t = np.array(plain(d["times"]), dtype=float)
        S = np.array(plain(d["states"]), dtype=float)
        C = np.array(plain(d["controls"]), dtype=float)
    except Exception as e:
        return [V("export-shape", "%s: export not readable as times/states/controls: %r" % (where, e))]
    if not np.array_equal(t, h["times"]):
        return [V("export-times", "%s: exported times differ from the recorded ones" % where)]
    if plain(d.get("tf")) != float(h["times"][-1]) or plain(d.get("t0")) != 0.0:
        return [V("export-times", "%s: t0=%r tf=%r, recorded 0 .. %r" % (where, d.get("t0"), d.get("tf"), h["times"][-1]))]
    if S.shape != (n + 1, 7):
        return [V("export-shape", "%s: states have shape %s, %d states were recorded" % (where, S.shape, n + 1))]
    if C.shape != (n + 1, 3 if plan["angles"] else 4):
        return [V("export-shape", "%s: controls have shape %s for %d steps" % (where, C.shape, n))]
    if not np.array_equal(S[:, 6], h["masses"]):
        return [V("export-mass", "%s: exported masses differ from the recorded ones" % where)]
    et = tr.cfg["elements_type"]
    with np.errstate(all="ignore"):
        for k in range(n + 1):
            s = h["states"][k]
            e = s[1] if et == "keplerian" else math.hypot(s[1], s[2])
            if not np.isfinite(s).all() or not e < 0.97 or (et == "keplerian" and not 0 <= s[2] < 3.0):
                continue
            w = rm.to_mee_p(s, et)
            d_ = np.abs(S[k, :6] - w)
            d_[5] = abs(float(rm.wrap_pi(S[k, 5] - w[5])))
            tol = 1e-10 * (1 + np.abs(w))
            tol[0] = 1e-10 * abs(w[0])
            tol[5] = 1e-10 * (1 + abs(w[5]))
            if (d_ > tol).any():
                return [V("export-state", "%s: state %d exported as %s, the recorded state is %s (p,f,g,h,k,L)" % (where, k, S[k, :6], w))]
    R = np.zeros((n, 3)) if n == 0 else h["controls"].reshape(-1, 3)
    if plan["angles"]:
        if n and not np.array_equal(C[:-1], R):
            return [V("export-control", "%s: exported angles differ from the recorded ones" % where)]
        if np.any(C[-1] != 0):
            return [V("export-final", "%s: final control is %s, not zero" % (where, C[-1]))]
    else:
        if n:
            u = np.stack([np.cos(R[:, 1]) * np.sin(R[:, 0]), np.cos(R[:, 1]) * np.cos(R[:, 0]), np.sin(R[:, 1])], 1)
            if np.abs(C[:-1, :3] - u).max() > 1e-12 or not np.array_equal(C[:-1, 3], R[:, 2]):
                k = int(np.argmax(np.abs(C[:-1, :3] - u).max(axis=1) + np.abs(C[:-1, 3] - R[:, 2])))
                return [V("export-control", "%s: control %d exported as %s, recorded direction %s throttle %g"
                          % (where, k, C[k], u[k], R[k, 2]))]
        if C[-1, 3] != 0:
            return [V("export-final", "%s: final control has throttle %g" % (where, C[-1, 3]))]
    want = plain(units_of(plan))
    if plain(d.get("canonical_units")) != want:
        return [V("export-units", "%s: canonical units exported as %r, given %r" % (where, d.get("canonical_units"), want))]
    return []


def longer(text):
    """a complete export of some longer mission"""
    d = json.loads(text)
    for k in ("times", "states", "controls"):
        d[k] = d[k] * 3 + d[k][-1:]
    return json.dumps(d, indent=4)


def load_file(path):
    with io.open(path, encoding="utf-8") as f:
        return json.loads(f.read())


def run_plan(prop, plan, pyqlaw):
    m = clean(plan["m"])
    if plan["abort"]:
        m["faults"] = [plan["abort"]]
    prob = world.build(m, pyqlaw)
    t = world.fly(prob, m)
    info = profiles.summarise(t)
    info["fired"]["aborted_mission"] = int(t.status == "raised")
    root = tempfile.mkdtemp(prefix="pyqlaw-export-")
    try:
        out = export_checks(plan, t, prob, root, info)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out, info


def export_checks(plan, t, prob, root, info):
    h0 = t.hist
    dig0 = world.digest(h0)
    disk = plan["disk"]
    info["digest"] = dig0
    info["nontrivial"] = disk["kind"] != "none"
    if any(not isinstance(h0[k], np.ndarray) for k in ("times", "states", "masses")):
        return [V("unreadable-history", "mission left no readable history")]

    def save(path):
        return prob.save_to_dict(path, canonical_units=units_of(plan), save_control_angles=plan["angles"])

    def untouched(when):
        if world.digest(world.history(prob)) != dig0:
            return [V("history-touched", "%s: recorded history or outcome changed" % when)]
        return []
    # ---- dictionary only
    try:
        d = save(None)
    except Exception as e:
        return [V("export-raised", "save_to_dict(None) raised %r" % (e,))]
    out = check_body(d, t, plan, h0, "dictionary") or untouched("dictionary export")
    if out:
        return out
    # ---- a good file, to know its length (and how many lines of code it takes)
    good = os.path.join(root, "good.json")
    src = (os.path.dirname(sys.modules[type(prob).__module__].__file__) + os.sep, os.path.dirname(json.__file__) + os.sep)
    lines = world.Lines(src)
    try:
        with (lines if disk["kind"] == "interrupt" else world.contextlib.nullcontext()):
            d2 = save(good)
        body = load_file(good)
    except Exception as e:
        return [V("export-raised", "export to a healthy disk failed: %r" % (e,))]
    out = check_body(body, t, plan, h0, "file") or check_body(d2, t, plan, h0, "returned dictionary") or untouched("file export")
    if out:
        return out
    size = os.path.getsize(good)
    limit = {"zero": 0, "last": size - 1, "last2": size - 2, "rand": int(plan["disk"]["u"] * size),
             "line": io.open(good, "rb").read().find(b"\n", int(plan["disk"]["u"] * size)) + 1}[disk["pos"]]
    limit = min(max(0, limit), size - 1)
    info["sig"] = hashlib.sha256(("%s|%s|%s|%s|%s|%s" % (disk["kind"], disk["pos"], plan["angles"], plan["previous"], bool(plan["units"]),
                                                         info.get("sig"))).encode()).hexdigest()[:16]
    # ---- the failing disk
    path = os.path.join(root, "out.json")
    if plan["previous"]:
        with io.open(path, "w") as f:
            f.write("{garbage" if plan["previous"] == "garbage" else longer(io.open(good).read()))
    before = io.open(path, "rb").read() if plan["previous"] else None
    err = None
    st = {}
    if disk["kind"] == "rlimit":
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            save(path)
        except BaseException as e:
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        st["fired"] = "rlimit"          # the limit is below the size of any complete export
    elif disk["kind"] == "interrupt":
        k = int(disk["u"] * (1 if disk["pos"] != "last" else 0.05) * lines.n)
        k = {"zero": int(disk["u"] * 5), "last": lines.n - 1 - k}.get(disk["pos"], k)
        limit, size = max(0, min(k, lines.n - 1)), lines.n
        with world.Lines(src, limit, lambda frame: KeyboardInterrupt("injected")) as li:
            try:
                save(path)
            except BaseException as e:
                err = e
        if li.raised is not None:
            st["fired"] = "interrupt"
            if err is not None and err is not li.raised:
                return [V("changed-exception", "interrupted at line %d of %d, but the caller received %r" % (limit, size, err))]
    elif disk["kind"] != "none":
        with SimDisk(root, disk, limit) as sd:
            try:
                save(path)
            except BaseException as e:
                err = e
            st = sd.st
    else:
        try:
            save(path)
        except BaseException as e:
            err = e
    if st.get("fired"):
        info["fired"]["disk:" + disk["kind"]] = 1
    if st.get("short"):
        info["fired"]["disk:" + disk["kind"]] = st["short"]
    out = untouched("export to a failing disk (%s at byte %d of %d)" % (disk["kind"], limit, size))
    if out:
        return out
    complete, parsed = False, None
    if os.path.exists(path):
        raw = io.open(path, "rb").read()
        try:
            parsed = json.loads(raw.decode("utf-8"))
            complete = not check_body(parsed, t, plan, h0, "file")
        except Exception:
            parsed = None
        if before is not None and raw == before:
            parsed = None               # the earlier file was left alone
    if st.get("fired"):
        if err is None and not (disk["kind"] == "rlimit" and complete):
            return [V("silent-failure", "the disk failed (%s at byte %d of %d) but save_to_dict returned normally"
                      % (disk["kind"], limit, size))]
        if parsed is not None and not complete:
            return [V("partial-parses", "after a disk failure (%s at byte %d of %d) the incomplete file parses: keys %s"
                      % (disk["kind"], limit, size, list(parsed)[:8] if isinstance(parsed, dict) else type(parsed)))]
    else:
        if err is not None:
            return [V("export-raised", "no disk fault fired (%s) but save_to_dict raised %r" % (disk["kind"], err))]
        if not complete:
            return [V("incomplete", "no error reported (%s writes) but the file is not a complete export" % disk["kind"])]
    # ---- the fault clears
    path2 = path if plan["retry_same"] else os.path.join(root, "again.json")
    try:
        d3 = save(path2)
        body = load_file(path2)
    except Exception as e:
        return [V("retry", "export after the fault cleared failed: %r" % (e,))]
    return check_body(body, t, plan, h0, "retried file") or check_body(d3, t, plan, h0, "retried dictionary") or untouched("retry")
