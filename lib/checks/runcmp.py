"""Compares monitored runs with each other: logs step by step (with detection of alternative optima) and recorder results."""
import numpy as np
import pandas as pd

from pywr.solvers import GLPKError, GLPKInternalError
from pv import rich, trace
from . import netcase


ERRORS = (RuntimeError, GLPKError, GLPKInternalError)


def richcase(ctx, params=(2, 8), recs=(0, 6), solver=None, kinds=None, reckinds=None, skip=(), use=.5, **kw):
    kw.setdefault("nsteps", (3, 10))
    kw.setdefault("minflow", .02)
    kw.setdefault("slices", .15)
    kw.setdefault("combos", .15)
    kw.setdefault("vparmax", .2)
    g, s, args = netcase.make(ctx, **kw)
    r = rich.Rich(g, params=ctx.rng.randint(*params), recs=ctx.rng.randint(*recs), kinds=kinds, reckinds=reckinds, skip=skip, use=use)
    for p in g.doc["parameters"].values():
        ctx.event("parameter:" + str(p.get("type")).lower())
    for p in r.recs.values():
        ctx.event("recorder:" + str(p.get("type")).lower())
    for p in g.doc["nodes"]:
        ctx.event("node:" + p["type"].lower())
    return g, r, s, args


class Done:
    """What one run showed: its log, its error and what its recorders returned."""

    def __init__(self, model, mon, error=None):
        self.log = [dict(r) for r in mon.log]
        self.error = error
        self.recs = recvals(model) if error is None else {}


def run(model, mon, steps=None):
    """A whole run, or the given number of steps after a reset."""
    err = None
    try:
        if steps is None:
            model.run()
        else:
            model.setup() if model.dirty or model.timestepper.dirty else model.reset()
            for _ in range(steps):
                model.step()
            model.finish()
    except ERRORS as e:
        err = "solver" if not isinstance(e, RuntimeError) else "solver" if "failed" in str(e) or "infeasible" in str(e).lower() or "solver" in str(e).lower() else str(e)
    return Done(model, mon, err)


def plain(v):
    if isinstance(v, pd.DataFrame):
        cols = [str(c) for c in v.columns]
        out = {"cols": cols, "index": [str(i) for i in v.index], "n": len(v)}
        num = v.select_dtypes(include=[np.number])
        out["num"] = np.array(num, dtype=float)
        out["str"] = [[str(x) for x in row] for row in v.drop(columns=num.columns).values.tolist()]
        return out
    return v


def recvals(model):
    out = {}
    for r in model.recorders:
        if isinstance(r, trace.Monitor):
            continue
        d = {}
        for what in ("values", "aggregated_value", "to_dataframe"):
            if not hasattr(r, what):
                continue
            try:
                d[what] = plain(getattr(r, what)())
                if what == "values":
                    d[what] = np.array(d[what])
            except NotImplementedError:
                pass
            except Exception as e:  # must then be the same in both runs
                d[what] = "raises " + type(e).__name__
        if hasattr(r, "data"):
            try:
                d["data"] = np.array(r.data)
            except Exception:
                pass
        if hasattr(r, "events"):
            d["events"] = sorted((e.start.index, e.end.index, e.scenario_index.global_id) for e in r.events)
        out[r.name] = d
    return out


def same(a, b, rtol=1e-6, atol=1e-7):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (str, list, tuple, type(None))) or isinstance(b, (str, list, tuple, type(None))):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            return all(x == y or same(x, y, rtol, atol) for x, y in zip(a, b))
        return type(a) == type(b) and a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True).all())


STATELESS = {"constant", "monthlyprofile", "dailyprofile", "weeklyprofile", "arrayindexed", "arrayindexedscenario", "arrayindexedscenariomonthlyfactors", "constantscenario",
             "constantscenarioindex", "scenariomonthlyprofile", "scenarioweeklyprofile", "scenariodailyprofile", "aggregated", "aggregatedindex", "min", "max", "negative",
             "negativemax", "negativemin", "offset", "division", "scaledprofile", "scenariowrapper", "annualharmonicseries", "rbfprofile", "uniformdrawdownprofile",
             "discountfactor", "currentyearthreshold", "currentordinaldaythreshold", "interpolated", "polynomial1d", "parameterthreshold", "multiplethresholdparameterindex",
             "piecewiseintegral", "dataframe", "binarystep", "rectifier", "logistic", "indexedarray"}


def stateless(doc):
    """Names of the parameters that depend on the date and the combination only."""
    ps = doc.get("parameters", {})
    known = {}

    def ok(x):
        if isinstance(x, str):
            if x not in ps:
                return True
            if x not in known:
                known[x] = False
                known[x] = ok(ps[x])
            return known[x]
        if isinstance(x, list):
            return all(ok(y) for y in x) if not (x and isinstance(x[0], float)) else True
        if not isinstance(x, dict):
            return True
        if "type" in x:
            t = str(x["type"]).lower()
            t = t[:-9] if t.endswith("parameter") else t
            if t not in STATELESS or any(k in x for k in ("node", "storage_node", "recorder")):
                return False
        return all(ok(v) for k, v in x.items() if k not in ("type", "data", "scenario", "values"))

    return {n for n in ps if ok(n)}


def logs(ctx, A, B, key, what, ren=None, rtol=1e-6, atol=1e-6, sel=None, soft=(), exact=()):
    """'same', 'tie' (different equally good allocations) or 'diff' (reported).  ren renames A's items to B's; sel: (combination in A, in B) pairs.
    Parts named by soft may differ once the runs differ by a rounding error (a rule may switch on it), except the values of the parameters named by exact."""
    ren = ren or (lambda x: x)
    rounded = False

    def pick(x, side):
        x = np.asarray(x, dtype=float)
        if sel is None or x.ndim == 0:
            return x
        return x[[p[side] for p in sel]]

    for t, (ra, rb) in enumerate(zip(A.log, B.log)):
        for part in ("index", "date", "days"):
            if not ctx.check(ra[part] == rb[part], key, f"{what}: {part} of step {t}: {ra[part]} != {rb[part]}"):
                return "diff"
        for part in ("active", "vol", "pc", "prev", "par", "idx", "flow", "sub", "vol1", "pc1"):
            if part not in ra or part not in rb:
                continue
            for n in ra[part]:
                m = (ren(n[0]), n[1]) if isinstance(n, tuple) else ren(n)
                if m not in rb[part]:
                    if part in ("par", "idx"):
                        continue
                    ctx.violation(key, f"{what}: {part} of {n} is missing in one run")
                    return "diff"
                x, y = pick(ra[part][n], 0), pick(rb[part][m], 1)
                ctx.counters["compared values"] += x.size
                if x.shape != y.shape or not np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True).all():
                    if part in ("flow", "sub") and "objective" in ra:
                        o1, o2 = pick(ra["objective"], 0), pick(rb["objective"], 1)
                        if np.isclose(o1, o2, rtol=1e-6, atol=1e-4).all():
                            ctx.event("ended early: several least-cost allocations")
                            return "tie"
                    if part in soft and rounded and not (part in ("par", "idx") and n in exact):
                        ctx.event("ended early: a rule switched on a rounding difference")
                        return "tie"
                    ctx.violation(key, f"{what}: {part} of {n} at step {t}: {x.tolist()} != {y.tolist()}")
                    return "diff"
                rounded = rounded or not np.array_equal(x, y, equal_nan=True)
    if not ctx.check(A.error == B.error, key + ":error", f"{what}: one run ended with {A.error!r}, the other with {B.error!r}"):
        return "diff"
    if not ctx.check(len(A.log) == len(B.log), key, f"{what}: {len(A.log)} steps, {len(B.log)} in the other run"):
        return "diff"
    return "same"


def recorders(ctx, A, B, key, what, ren=None):
    ren = ren or (lambda x: x)
    ok = True
    for n, d in A.recs.items():
        e = B.recs.get(ren(n))
        if e is None:
            ctx.violation(key, f"{what}: recorder {n} is missing in one run")
            return False
        for k in d:
            ctx.counters["compared recorder results"] += 1
            if k not in e or not same(d[k], e[k]):
                ctx.violation(key, f"{what}: {k} of recorder {n}: {d[k]!r} != {e.get(k)!r}"[:1500])
                ok = False
                break
    return ok


def generic(ctx, doc):
    """Adds a small random amount to each constant cost and gives the other nodes one."""
    rng = ctx.rng

    def e():
        return rng.uniform(-.05, .05)

    for n in doc["nodes"]:
        t = n["type"].lower()
        if t in ("aggregatednode", "aggregatedstorage"):
            continue
        if "virtual" in t:
            continue
        for k in ("cost", "mrf_cost", "above_curve_cost"):
            if isinstance(n.get(k), (int, float)):
                n[k] = round(n[k] + e(), 6)
        if isinstance(n.get("costs"), list):
            n["costs"] = [round(c + e(), 6) if isinstance(c, (int, float)) else c for c in n["costs"]]
        elif "cost" not in n and t not in ("riversplit", "delaynode", "multisplitlink"):
            n["cost"] = round(e(), 6)
