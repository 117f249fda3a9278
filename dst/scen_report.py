"""C20: reporting never changes a mission, and what it prints is what happened."""
import copy
import hashlib
import random
import re
import numpy as np
from . import gen, world, oracles, profiles, scen_plot
from .oracles import V
from .scen_abort import clean, first_diff, pick_fault

PROPS = ["C20"]
RUNS = {"C20": 700}
RULE = {"C20": "one case = one mission flown silently, and again with seeded verbosity and reporting calls (printing, exporting, "
               "Cartesian/interpolated extraction, plotting) before, inside and after it, then once more; printed results and "
               "progress rows are parsed and compared with the record; distinct by mode signature and the calls made; non-trivial "
               "= at least one reporting call made"}
CHEAP = ["pretty", "results", "settings", "cart", "interp", "interpolants", "dict", "dict_angles", "eval"]
PLOTS = ["plot:%s:%d" % (n, k) for n in scen_plot.PLOTS for k in range(12)]


def gen_plan(prop, r):
    m = gen.gen_mission(r, steps=(3, 35), env=0.5, eta=0.5, conv=0.5, close=0.5, massfloor=0.2, nan=0.15, prelude=0.15)
    for k in ("verbosity", "print_frequency"):
        m["cfg"].pop(k, None)
    plots = r.sample(PLOTS, 9) if r.random() < 0.25 else []
    ops = {"before": [r.choice(CHEAP) for _ in range(r.choice([0, 0, 2]))],
           "mid": [[r.randint(0, 40), r.choice(CHEAP + plots)] for _ in range(r.choice([0, 2, 5, 10]))],
           "after": [r.choice(CHEAP + plots) for _ in range(r.choice([0, 2, 4]))] + ["results"]}
    f = pick_fault(r, m, 10) if r.random() < 0.1 else None
    return {"kind": "report", "m": m, "verbosity": r.choice([0, 1, 2, 2, 3]), "freq": r.choice([1, 1, 2, 3, 10, 200]), "ops": ops, "fault": f}


def shrink(prop, plan):
    out = []
    for k in ("before", "mid", "after"):
        for j in range(len(plan["ops"][k])):
            p = copy.deepcopy(plan)
            p["ops"][k].pop(j)
            out.append(p)
    for k, v in (("verbosity", 0), ("fault", None), ("freq", 1)):
        if plan[k] != v:
            p = copy.deepcopy(plan)
            p[k] = v
            out.append(p)
    return out


FAILED = {}


def op(prob, name):
    import matplotlib.pyplot as plt
    buf = world.SimOut()
    try:
        with world.contextlib.redirect_stdout(buf):
            if name == "pretty":
                prob.pretty()
            elif name == "results":
                prob.pretty_results()
            elif name == "settings":
                prob.pretty_settings()
            elif name == "cart":
                prob.get_cartesian_history()
            elif name == "interp":
                prob.get_cartesian_history(interpolate=True, steps=9, kind="linear", get_t_evals=True)
            elif name == "interpolants":
                prob.interpolate_states(kind="linear")
            elif name == "dict":
                prob.save_to_dict(None)
            elif name == "dict_angles":
                prob.save_to_dict(None, canonical_units={"LU": 1}, save_control_angles=True)
            elif name == "eval":
                # a plain query of the object, on the caller's own copy of the current elements
                prob.evaluate_osculating_qdot(np.array(prob.states[-1], dtype=float), 1e-3)
            elif name.startswith("plot:"):
                _, which, k = name.split(":")
                scen_plot.call(prob, which, scen_plot.draw_options(random.Random(int(k)), which))
    except Exception as e:
        buf.failed = e
        FAILED[":".join(name.split(":")[:2])] = FAILED.get(":".join(name.split(":")[:2]), 0) + 1
    finally:
        plt.close("all")
    return buf


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def near(shown, actual, rel=1e-4):
    a = float(actual)
    if not np.isfinite(a):
        return not np.isfinite(float(shown)) or a != a
    return abs(float(shown) - a) <= rel * abs(a) + 1e-300


def parse_results(text, prob, when):
    """printed results against the object's record"""
    names = list(prob.element_names[:5])
    got = {}
    elems = {}
    for line in text.splitlines():
        mm = re.match(r"\s*([A-Za-z ]+?)\s*:\s*(.*)$", line)
        if not mm:
            continue
        label, rest = mm.group(1).strip().lower(), mm.group(2).strip()
        if label in [n.lower() for n in names]:
            nums = re.findall(NUM, rest)
            if len(nums) >= 2:
                elems[label] = (float(nums[0]), float(nums[1]))
        else:
            got[label] = rest

    def need(label, want, num=True):
        if label not in got:
            return V("results-missing", "%s: printed results have no '%s': %r" % (when, label, text))
        if num:
            f = re.findall(NUM, got[label])
            ok = bool(f) and near(f[0], want)
        else:
            ok = got[label] == str(want)
        return None if ok else V("results", "%s: printed %s is %r, actual %r" % (when, label, got[label], want))
    st = np.array(prob.states[-1], dtype=float)
    for v in (need("exit code", prob.exitcode), need("converge", bool(prob.converge), num=False),
              need("transfer time", prob.times[-1]), need("final mass", prob.masses[-1])):
        if v:
            return [v]
    for j, n in enumerate(names):
        e = elems.get(n.lower())
        if e is None:
            return [V("results-missing", "%s: printed results have no element %s" % (when, n))]
        d = abs(st[j] - float(prob.oeT[j]))
        if not near(e[0], st[j]) or not (near(e[1], d) or abs(e[1] - d) <= 1e-12 * abs(st[j])):
            return [V("results", "%s: printed %s = %s (error %s), actual %.6g (error %.6g)" % (when, n, e[0], e[1], st[j], d))]
    return []


def parse_problem(text, m, names):
    """pretty(): initial and target elements, weights"""
    p = m["prob"]
    woe = p.get("woe") or [1.0] * 5
    for j, n in enumerate(names):
        row = [x for x in text.splitlines() if re.match(r"\s*%s\s*:" % re.escape(n), x)]
        if len(row) != 1:
            return [V("pretty-missing", "the printed problem has %d rows for element %s: %r" % (len(row), n, text))]
        f = [float(x) for x in re.findall(NUM, row[0].split(":", 1)[1])]
        want = [p["oe0"][j], p["oeT"][j], woe[j]]
        if len(f) != 3 or not near(f[0], want[0]) or not near(f[1], want[1]) or abs(f[2] - want[2]) > 0.0051:
            return [V("pretty", "the printed problem shows %s: initial, target, weight %s, actual %s" % (n, f, want))]
    return []


def parse_settings(text, m):
    """pretty_settings()"""
    c = world.full_cfg(m)
    text = re.sub(r"\n(?![A-Za-z])", " ", text)
    got = {x.split(":", 1)[0].strip().lower(): x.split(":", 1)[1].strip() for x in text.splitlines() if ":" in x}
    tol = c["tol_oe"] or [1e-3] * 5
    for label, want in (("element type", c["elements_type"]), ("integrator", c["integrator"]), ("exit at relaxed", str(c["exit_at_relaxed"]))):
        if got.get(label) != want:
            return [V("settings", "printed %s is %r, actual %r" % (label, got.get(label), want))]
    for label, want in (("tolerance", tol), ("relaxed tolerance", [c["relaxed_tol_factor"] * x for x in tol])):
        f = re.findall(NUM, got.get(label, ""))
        if len(f) != 5 or not all(near(a, b) for a, b in zip(f, want)):
            return [V("settings", "printed %s is %r, actual %s" % (label, got.get(label), want))]
    return []


def parse_op(name, b, prob, m, when):
    """what one reporting call printed"""
    if hasattr(b, "failed"):
        return []
    if name == "results" and "after" in when:
        return []
    if name == "results":
        return parse_results(b.getvalue(), prob, when)
    if name == "pretty":
        return parse_problem(b.getvalue(), m, list(prob.element_names[:5]))
    if name == "settings":
        return parse_settings(b.getvalue(), m)
    return []


def progress(text, prob, tr, freq):
    """progress rows against the record"""
    h = tr.hist
    n = len(h["times"]) - 1
    et = tr.cfg["elements_type"]
    out = []
    for line in text.splitlines():
        cells = [c.strip() for c in line.strip().strip("|").split("|")]
        if len(cells) != 8 or not re.fullmatch(r"\d+", cells[0]):
            continue
        i = int(cells[0])
        v = [float(c) for c in cells[1:]]
        if not 0 <= i < n:
            return [V("progress", "progress row for step %d of a mission of %d steps" % (i, n))]
        if i % freq:
            return [V("progress-frequency", "progress row for step %d at print frequency %d" % (i, freq))]
        if not near(v[0], h["times"][i + 1], 2e-3):
            return [V("progress", "row %d shows time %r, recorded %r" % (i, v[0], h["times"][i + 1]))]
        s = h["states"][i + 1]
        if et == "keplerian":
            lo, hi = oracles.bounds_of(type("v", (), {"tr": tr}))
            if ((s[:5] <= lo) | (s[:5] >= hi)).any():
                continue
        d = s[:5] - np.array(tr.prob["oeT"][:5], dtype=float)
        for j in range(5):
            if not (near(v[1 + j], d[j]) or abs(v[1 + j] - d[j]) < 1e-12 * abs(s[j])):
                return [V("progress", "row %d shows distance %d = %r, recorded %r" % (i, j + 1, v[1 + j], d[j]))]
        if not near(v[6], s[5]):
            return [V("progress", "row %d shows element 6 = %r, recorded %r" % (i, v[6], s[5]))]
        out.append(i)
    return out


def run_plan(prop, plan, pyqlaw):
    FAILED.clear()
    m = dict(clean(plan["m"]), prelude=plan["m"].get("prelude", []))
    if plan["fault"]:
        m["faults"] = [plan["fault"]]
        if plan["fault"]["site"] == "stdout":
            m["faults"] = []
    base = world.run_mission(copy.deepcopy(dict(m, cfg=dict(m["cfg"], verbosity=0))), pyqlaw)
    out = []
    made = []
    calls = [0]
    viol = []

    def hook(probe, site, step):
        if site == "stdout":
            return
        i = calls[0]
        calls[0] += 1
        for at, name in plan["ops"]["mid"]:
            if at == i and hasattr(probe.obj, "times"):
                made.append(name)
                b = op(probe.obj, name)
                if not viol:
                    viol.extend(parse_op(name, b, probe.obj, m, "mid-mission"))
    m2 = copy.deepcopy(m)
    m2["cfg"].update(verbosity=plan["verbosity"], print_frequency=plan["freq"])
    pres = m2.get("prelude", [])
    prob = world.build(pres[0] if pres else m2, pyqlaw)
    for pre in pres:
        world.assign_cfg(prob, pre)
        world.fly(prob, pre)
        for name in plan["ops"]["before"]:
            made.append(name)
            op(prob, name)
    if pres:
        world.assign_cfg(prob, m2)
    prob.set_problem(**world.problem_kwargs(m2))
    if not pres:
        for name in plan["ops"]["before"]:
            if name in ("pretty", "settings"):
                made.append(name)
                viol.extend(parse_op(name, op(prob, name), prob, m, "before"))
    t = world.fly(prob, m2, [hook], set_problem=False)
    info = profiles.summarise(t)
    info["digest"] = world.digest(t.hist)
    info["fired"]["reporting_calls"] = len(made) + len(plan["ops"]["after"])
    info["fired"]["mid_mission_reports"] = len(made)
    info["nontrivial"] = info["fired"]["reporting_calls"] > 0 and info["steps"] >= 1
    info["sig"] = hashlib.sha256(repr((info.get("sig"), sorted(set(made)), sorted(set(plan["ops"]["after"])), plan["verbosity"])).encode()).hexdigest()[:16]
    if viol:
        return viol[:1], info
    d = world.diff_hist(base.hist, t.hist)
    if d or t.status != base.status:
        return [V("not-passive", "with verbosity %d and reporting calls %s during the mission its history differs from the silent one: %s (%s/%s)"
                  % (plan["verbosity"], made, first_diff(base.hist, t.hist, d), base.status, t.status))], info
    if not isinstance(t.hist["times"], np.ndarray) or t.hist["times"].ndim != 1:
        return [], info
    if plan["verbosity"] >= 2 and t.status == "ok":
        rows = progress(t.out, prob, t, plan["freq"])
        if rows and isinstance(rows[0], dict):
            return rows, info
        info["fired"]["progress_rows_checked"] = len(rows)
    if t.status == "ok" and plan["verbosity"] >= 1:
        for text, true in (("successfully reached", bool(t.hist["converge"])), ("Could not arrive", t.hist["exitcode"] == -2),
                           ("under mass_min", t.hist["exitcode"] == -1), ("angles are nan", t.hist["exitcode"] == -3)):
            if (text in t.out) != true:
                return [V("message", "with verbosity %d the mission closes with %r although its exit code is %r and converge %s"
                          % (plan["verbosity"], t.out.strip().splitlines()[-1:], t.hist["exitcode"], t.hist["converge"]))], info
    if plan["verbosity"] == 0 and t.out.strip():
        return [V("message", "with verbosity 0 the mission prints %r" % t.out[:80])], info
    dig = world.digest(t.hist)
    for name in plan["ops"]["after"]:
        b = op(prob, name)
        if world.digest(world.history(prob)) != dig:
            return [V("not-passive", "%s after the mission changed its recorded history or outcome" % name)], info
        v = parse_op(name, b, prob, m, "after")
        if v:
            return v, info
        if name == "results":
            if hasattr(b, "failed"):
                return [V("results-raised", "pretty_results() raised %r" % (b.failed,))], info
            v = parse_results(b.getvalue(), prob, "after the mission")
            if v:
                return v, info
    for name, k in FAILED.items():
        info["fired"]["report_refused:" + name] = k
    # a later solve is not affected either
    t2 = world.fly(prob, m2, set_problem=False)
    d = world.diff_hist(base.hist, t2.hist)
    if d or t2.status != base.status:
        return [V("not-passive", "after reporting (%s, %s) the same problem gives another result: %s"
                  % (made, plan["ops"]["after"], first_diff(base.hist, t2.hist, d)))], info
    return out, info


def warm(pyqlaw):
    from . import scen_cart
    scen_cart.warm(pyqlaw)
    from . import engine
    for m in engine.WARM[::2]:
        m = copy.deepcopy(m)
        prob = world.build(m, pyqlaw)
        world.fly(prob, m)
        for name in CHEAP + PLOTS[::5]:
            op(prob, name)
