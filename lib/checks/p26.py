"""P26: the bisection search ends at a satisfying value within tolerance of the largest."""
import copy
import math
import warnings

import numpy as np
import pandas as pd

from pywr.model import Model
from pywr.utils.bisect import BisectionSearchModel
from pv import trace
from . import netcase, runcmp

META = {
    "n": [400, 5000], "budget": [60, 700],
    "min_events": {"searches": 250, "satisfiable": 120, "not satisfiable": 30, "simulations observed": 1500, "misconfigured": 25, "only the lower bound satisfies": 3},
    "rule": "distinct: the varied parameter, what it controls, the constraints, the outcome, the number of simulations and the options",
    "assumptions": ["only searches whose satisfying values (on a grid of 9 values and around the result) form an interval from the lower bound are judged",
                    "constraint values are computed by the monitor from the flows and volumes of the run"],
}
LIMIT = 400


class Count(trace.Monitor):
    """Counts the simulations and stops a search that does not end."""
    param = None

    def reset(self):
        super().reset()
        self.tried = getattr(self, "tried", [])
        if self.param is not None:
            self.tried.append(float(self.model.parameters[self.param].get_double_variables()[0]))
        if len(self.tried) > LIMIT:
            raise trace.Injected("endless")


def series(rng, n, lo, hi):
    return [round(rng.uniform(lo, hi), 2) for _ in range(n)]


def document(ctx):
    rng = ctx.rng
    n = rng.randint(3, 10)
    delta = rng.choice([1, 1, 1, 7, 30])
    start = pd.Timestamp("2003-02-20") + pd.Timedelta(days=rng.randrange(500))
    scen = rng.choice([0, 0, 2, 3])
    doc = {"metadata": {"title": "x", "minimum_version": "0.1"},
           "timestepper": {"start": str(start.date()), "end": str((start + pd.Timedelta(days=delta * (n - 1))).date()), "timestep": delta},
           "nodes": [], "edges": [], "parameters": {}, "recorders": {}}
    if scen:
        doc["scenarios"] = [{"name": "s", "size": scen}]
        doc["parameters"]["inflow"] = {"type": "arrayindexedscenario", "scenario": "s", "values": [series(rng, scen, 0, 12) for _ in range(n)]}
    else:
        doc["parameters"]["inflow"] = {"type": "arrayindexed", "values": series(rng, n, 0, 12)}
    lo = rng.choice([0.0, 0.0, -3.0, 1.5])
    hi = lo + rng.choice([4.0, 10.0, 20.0, 33.3])
    kind = rng.choice(["constant", "constant", "scaled", "offset", "fullname"])
    v = {"type": {"constant": "constant", "scaled": "constant", "offset": "offset", "fullname": "ConstantParameter"}[kind],
         "lower_bounds": lo, "upper_bounds": hi, "is_variable": rng.random() < .5}
    if kind == "offset":
        v["parameter"] = {"type": "constant", "value": 3.0}
        v["offset"] = rng.uniform(lo, hi)
    else:
        v["value"] = rng.uniform(lo, hi)
    if kind == "scaled":
        v["scale"], v["offset"] = rng.choice([.5, 2.0]), 3.0
    doc["parameters"]["x"] = v
    # never negative as a demand
    doc["parameters"]["demand"] = {"type": "max", "parameter": "x", "threshold": 0.0}
    if rng.random() < .3:
        doc["parameters"]["demand"] = {"type": "aggregated", "agg_func": "product", "parameters": [{"type": "max", "parameter": "x", "threshold": 0.0},
                                                                                                  {"type": "monthlyprofile", "values": series(rng, 12, .5, 1.5)}]}
    nodes = [{"name": "river", "type": "catchment", "flow": "inflow"}, {"name": "store", "type": "storage", "max_volume": 60.0, "initial_volume": rng.choice([0.0, 20.0, 60.0]), "cost": -1},
             {"name": "town", "type": "output", "max_flow": "demand", "cost": -50}, {"name": "sea", "type": "output", "cost": 0}]
    doc["nodes"] = nodes
    doc["edges"] = [["river", "store"], ["store", "town"], ["river", "sea"], ["store", "sea"]]
    # constraints that worsen as the demand grows
    span = delta * n
    for what in rng.sample(["deficit", "supplied", "volume", "abstracted", "frequency"], rng.choice([1, 1, 2])):
        agg = rng.choice(["mean", "max", "min", "sum", "median"])
        r = {"agg_func": agg}
        if rng.random() < .2:
            r["is_objective"] = "minimise"
        m = scen or 1
        k = m if agg == "sum" else 1
        if what == "deficit":
            r.update(type="totaldeficitnode", node="town", constraint_upper_bounds=rng.choice([0.0, 1.0, rng.uniform(0, 30)]))
        elif what == "supplied":
            r.update(type="totalflownode", node="town", constraint_upper_bounds=rng.uniform(0, 12) * span * k)
        elif what == "abstracted":
            r.update(type="meanflownode", node="town", constraint_upper_bounds=rng.uniform(0, 12) * k)
        elif what == "frequency":
            r.update(type="deficitfrequencynode", node="town", constraint_upper_bounds=rng.choice([0.0, .3, .5]) * k)
        else:
            r.update(type="minimumvolumestorage", node="store", constraint_lower_bounds=rng.uniform(0, 40) * k)
        if rng.random() < .15 and what in ("supplied", "abstracted"):
            r["constraint_lower_bounds"] = -1.0
        doc["recorders"]["c " + what] = r
    # an additional recorder without a constraint, and one with bounds that never bind
    doc["recorders"]["flow"] = {"type": "numpyarraynode", "node": "town"}
    eps = rng.choice([1.0, .5, .1, .01, 1e-3, (hi - lo) / 8, (hi - lo) * 2, (hi - lo)])
    doc["bisection"] = {"parameter": "x", "epsilon": eps}
    return doc, lo, hi, eps, kind, scen


AGG = {"mean": np.mean, "max": np.max, "min": np.min, "sum": np.sum, "median": np.median}


def judge(doc, mon, demand, ncomb):
    """The margins of the constraints of one run: negative if violated."""
    out = []
    f = np.array([np.broadcast_to(r["flow"]["town"], (ncomb,)) for r in mon.log])
    v = np.array([r["vol1"]["store"] for r in mon.log])
    days = np.array([r["days"] for r in mon.log])[:, None]
    d = np.array([r["par"]["demand"] for r in mon.log])
    for n, r in doc["recorders"].items():
        if not n.startswith("c "):
            continue
        what = n[2:]
        x = {"deficit": lambda: ((d - f) * days).sum(0), "supplied": lambda: (f * days).sum(0), "abstracted": lambda: f.mean(0),
             "frequency": lambda: (np.abs(d - f) > 1e-6).mean(0), "volume": lambda: v.min(0)}[what]()
        x = float(AGG[r["agg_func"]](x))
        if "constraint_upper_bounds" in r:
            out.append(r["constraint_upper_bounds"] - x)
        if "constraint_lower_bounds" in r:
            out.append(x - r["constraint_lower_bounds"])
    return min(out)


def case(ctx):
    rng = ctx.rng
    warnings.simplefilter("ignore")
    if rng.random() < .12:
        return misconfigured(ctx)
    doc, lo, hi, eps, kind, scen = document(ctx)
    solver, args = netcase.SOLVE[rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])]
    option = rng.choice([None, True, False])
    ncomb = scen or 1
    plain = {k: v for k, v in copy.deepcopy(doc).items() if k != "bisection"}

    def at(x):
        """An independent simulation at one value: (margin, model, monitor)."""
        m = Model.load(copy.deepcopy(plain), solver=solver, solver_args=args)
        mon = trace.Monitor(m, params=True, costs=True, name="pv-monitor")
        m.parameters["x"].set_double_variables(np.array([float(x)]))
        m.run()
        ctx.event("independent simulations")
        return judge(doc, mon, None, ncomb), m, mon

    grid = np.linspace(lo, hi, 9)
    margins = [at(x)[0] for x in grid]
    ok = [m >= 0 for m in margins]
    if any(b and not a for a, b in zip(ok, ok[1:])) or any(abs(m) < 1e-7 and m != 0 for m in margins):
        ctx.event("not monotone or borderline")
        return

    way = rng.choice(["document", "document", "attributes"])
    d = copy.deepcopy(doc)
    if option is not None:
        d["bisection"]["error_on_infeasible"] = option
    if way == "document":
        m = BisectionSearchModel.load(d, solver=solver, solver_args=args)
    else:
        d.pop("bisection")
        m = BisectionSearchModel.load(d, solver=solver, solver_args=args)
        m.bisect_parameter, m.bisect_epsilon = "x", eps
        if option is not None:
            m.error_on_infeasible = option
    mon = Count(m, params=True, costs=True, name="pv-monitor")
    mon.param = "x"
    what = f"search over {kind} [{lo}, {hi}] epsilon {eps}, constraints {sorted(k[2:] for k in doc['recorders'] if k[:2] == 'c ')}"
    for again in range(2 if rng.random() < .3 else 1):
        mon.tried = []
        err = None
        try:
            m.run()
        except trace.Injected:
            ctx.violation("endless", f"{what}: {LIMIT} simulations without an end, values {mon.tried[-3:]}")
            return
        except ValueError as e:
            err = e
        v = float(m.parameters["x"].get_double_variables()[0])
        ctx.event("searches")
        ctx.event("simulations observed", len(mon.tried))
        for x in mon.tried[1:]:
            ctx.check(lo - 1e-12 <= x <= hi + 1e-12, "outside", f"{what}: the value {x} was simulated")
        need = max(0, math.ceil(math.log2((hi - lo) / eps) - 1e-9)) + 3
        ctx.check(len(mon.tried) <= need, "too-many", f"{what}: {len(mon.tried)} simulations, {need} suffice")
        ctx.key(kind, sorted(doc["recorders"]), ok.count(True), len(mon.tried), option, way, solver, err is None)
        ctx.sample({"search": what, "result": v, "error": repr(err)[:60], "simulations": len(mon.tried), "satisfied on the grid": ok})
        if err is not None:
            if option is False:
                ctx.violation("error-despite-option", f"{what}: {err!r} although errors are switched off")
                return
            ctx.event("not satisfiable")
            if ok[0] and margins[0] > 1e-7:
                ctx.violation("satisfiable-rejected", f"{what}: {err!r}, but {lo} satisfies every constraint (margin {margins[0]}); tried {mon.tried}")
                return
            return
        margin, m2, mon2 = at(v)
        A, B = runcmp.Done(m, mon), runcmp.Done(m2, mon2)
        if runcmp.logs(ctx, A, B, "left-behind", what + f": the model after the search and a simulation at {v}") == "same":
            runcmp.recorders(ctx, A, B, "left-behind", what)
        ctx.check(mon.tried and mon.tried[-1] == v, "last", f"{what}: the last simulation was of {mon.tried[-1:]}, the model is set to {v}")
        claimed = m.is_feasible()
        if abs(margin) > 1e-7 and claimed != (margin > 0):
            ctx.violation("claim", f"{what}: at {v} is_feasible() is {claimed}, the margin is {margin}")
            return
        if margin < -1e-7:
            if ok[0] and margins[0] > 1e-7:
                ctx.violation("infeasible-result", f"{what}: the result {v} violates a constraint (margin {margin}), {lo} does not (margin {margins[0]}); tried {mon.tried}")
                return
            if option is not False:
                ctx.violation("not-reported", f"{what}: no value satisfies the constraints, which was not reported; left at {v}")
                return
            ctx.check(v == lo, "not-lower-bound", f"{what}: no value satisfies, the model is left at {v} rather than the lower bound {lo}")
            ctx.event("not satisfiable")
            continue
        ctx.event("satisfiable")
        if v == lo:
            ctx.event("only the lower bound satisfies")
        # nothing larger by more than the tolerance satisfies
        for x in (v + eps * 1.000001, v + 2 * eps):
            if x < hi:
                mg = at(x)[0]
                if mg > 1e-7 and not any(a <= x and not o for a, o in zip(grid, ok)):
                    ctx.violation("not-largest", f"{what}: the result is {v}, but {x} satisfies the constraints too (margin {mg}); tried {mon.tried}")
                    return
        for x, o in zip(grid, ok):
            if o and x > v + eps * 1.000001 and x < hi:
                ctx.violation("not-largest", f"{what}: the result is {v}, but {x} satisfies the constraints too; tried {mon.tried}")
                return


def misconfigured(ctx):
    rng = ctx.rng
    doc, lo, hi, eps, kind, scen = document(ctx)
    what = rng.choice(["no epsilon", "epsilon zero", "negative epsilon", "no parameter", "unknown parameter", "bounds equal", "bounds reversed", "profile", "integer", "infinite bounds", "default bounds", "tiny epsilon"])
    b, p = doc["bisection"], doc["parameters"]["x"]
    if what == "no epsilon":
        del b["epsilon"]
    elif what == "epsilon zero":
        b["epsilon"] = 0.0
    elif what == "negative epsilon":
        b["epsilon"] = -.5
    elif what == "no parameter":
        del b["parameter"]
    elif what == "unknown parameter":
        b["parameter"] = "nothing"
    elif what == "bounds equal":
        p["upper_bounds"] = p["lower_bounds"]
    elif what == "bounds reversed":
        p["upper_bounds"], p["lower_bounds"] = p["lower_bounds"], p["upper_bounds"]
    elif what == "profile":
        doc["parameters"]["prof"] = {"type": "monthlyprofile", "values": [1.0] * 12, "lower_bounds": 0.0, "upper_bounds": 5.0, "is_variable": True}
        b["parameter"] = "prof"
    elif what == "integer":
        doc["parameters"]["cc"] = {"type": "scenarioweeklyprofile"} and {"type": "arrayindexed", "values": [1.0] * 99}
        b["parameter"] = "cc"
    elif what == "infinite bounds":
        p["upper_bounds"] = float("inf")
    elif what == "default bounds":
        p.pop("upper_bounds")
    elif what == "tiny epsilon":
        b["epsilon"] = 1e-300
        # (halving towards zero takes 1074 steps to the smallest number)
        p["lower_bounds"], p["upper_bounds"] = 1.5, 9.0
    ctx.event("misconfigured")
    ctx.event("misconfigured: " + what)
    ctx.key("misconfigured", what, kind)
    err, m, mon = None, None, None
    try:
        m = BisectionSearchModel.load(copy.deepcopy(doc))
        mon = Count(m, name="pv-monitor")
        mon.param = "x"
        mon.tried = []
        m.run()
    except trace.Injected:
        ctx.violation("endless:" + what, f"a search with {what} does not end, values {mon.tried[-3:]}")
        return
    except (ValueError, KeyError, TypeError) as e:
        err = e
    if what == "tiny epsilon":
        # a tolerance finer than the numbers is a search to the last digit
        ctx.check(err is None or "feasible" in str(err), "tiny", f"{what}: {err!r}")
        return
    ctx.check(err is not None, "silent:" + what, f"a search with {what} was run without an error")
    if err is not None and m is not None:
        ctx.check(len(mon.tried) <= 1, "late:" + what, f"{what} was reported after {len(mon.tried)} simulations")
