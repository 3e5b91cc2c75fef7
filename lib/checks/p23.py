"""P23: a defect injected into a valid model, and a timestep without a feasible allocation, raise an error before results; valid models run."""
import copy
import json
import math
import os
import tempfile
import warnings

import numpy as np

from pywr.model import Model
from pv import api, trace
from . import p23b, runcmp
from .p22 import places, strip

META = {
    "n": [1600, 16000], "budget": [60, 700], "min_events": {"valid models": 300, "defects": 300, "defect reported": 300, "failing steps": 100, "failure reported": 100, "models that run again once repaired": 50},
    "rule": "distinct: the defect, the kind of item it is injected into, the solver and the kinds of items in the model",
    "assumptions": ["a defect is one that the documentation or an existing check of pywr rules out; model.check() is called before the run, as the tutorial does"],
}
DEFECTS = {}


def defect(f):
    DEFECTS[f.__name__.replace("_", " ")] = f
    return f


class NotHere(Exception):
    """This model has no place for the defect."""


class D:
    def __init__(self, ctx, g, doc):
        self.ctx, self.rng, self.g, self.doc = ctx, ctx.rng, g, doc
        self.what = ""

    def pick(self, xs, what=None):
        xs = list(xs)
        if not xs:
            raise NotHere
        x = self.rng.choice(xs)
        if what:
            self.what = str(what(x))
        return x

    def node(self, *kinds, key=None):
        n = self.pick([n for n in self.doc["nodes"] if (not kinds or n["type"].lower() in kinds) and (key is None or key in n)])
        self.what += " " + n["type"].lower()
        return n

    def pars(self):
        """Every parameter definition, named or inline."""
        return [p for p in self.doc["parameters"].values() if isinstance(p, dict)] + [c[k] for c, k, _ in places(self.doc) if isinstance(c[k], dict)]

    def par(self, *kinds, key=None, cond=None):
        p = self.pick([p for p in self.pars() if (not kinds or api.kind(p) in kinds) and (key is None or key in p) and (cond is None or cond(p))])
        self.what += " " + api.kind(p)
        return p

    def rec(self, key=None, cond=None):
        r = self.pick([r for r in self.doc.get("recorders", {}).values() if (key is None or key in r) and (cond is None or cond(r))])
        self.what += " " + r["type"].lower()
        return r


# ------------------------------------------------------------------ structure
@defect
def duplicate_node_name(d):
    n = copy.deepcopy(d.node("link", "input", "output", "storage"))
    if d.rng.random() < .5:
        n = {"name": n["name"], "type": d.rng.choice(["link", "output", "input"])}
    d.doc["nodes"].insert(d.rng.randint(0, len(d.doc["nodes"])), n)


@defect
def edge_to_unknown_node(d):
    e = d.pick(d.doc["edges"])
    e[d.rng.randrange(2)] = "no such node"


@defect
def edge_with_one_end(d):
    i = d.rng.randrange(len(d.doc["edges"]))
    d.doc["edges"][i] = d.doc["edges"][i][:1]


@defect
def edge_with_unknown_slot(d):
    byname = {n["name"]: n["type"].lower() for n in d.doc["nodes"]}
    ok = ("storage", "reservoir", "link", "input", "output", "river", "catchment", "multisplitlink", "riversplit", "piecewiselink", "losslink", "delaynode", "breaklink", "rivergauge")
    e = d.pick([e for e in d.doc["edges"] if byname[e[0]] in ok and byname[e[1]] in ok])
    i = d.rng.randrange(2)
    slots = list(e[2:]) or [None, None]
    slots[i] = d.rng.choice([7, "no such slot"])
    d.what = byname[e[i]] + " " + ("from" if i == 0 else "to")
    e[2:] = slots


@defect
def edge_from_a_group(d):
    n = d.node("virtualstorage", "aggregatednode", "aggregatedstorage", "annualvirtualstorage")
    o = d.node("link", "output")
    d.doc["edges"].append([n["name"], o["name"]] if d.rng.random() < .5 else [o["name"], n["name"]])


@defect
def link_without_a_route(d):
    d.doc["nodes"].append({"name": "lost", "type": d.rng.choice(["link", "input", "output"])})
    if d.rng.random() < .5:
        o = d.node("link", "river")
        d.doc["nodes"][-1]["type"] = "link"
        d.doc["edges"].append([o["name"], "lost"])


@defect
def unknown_node_type(d):
    d.node()["type"] = d.rng.choice(["nosuchnode", "lnk", ""])


@defect
def unknown_parameter_type(d):
    d.par()["type"] = d.rng.choice(["nosuch", "nosuchparameter", "parameters"])


@defect
def unknown_recorder_type(d):
    d.rec()["type"] = d.rng.choice(["nosuch", "nosuchrecorder"])


@defect
def missing_type(d):
    r = d.rng.random()
    x = d.node() if r < .4 else d.rec() if r < .7 else None
    if x is None:
        x = d.pick([p for p in d.doc["parameters"].values()])
        d.what = api.kind(x)
        for k in list(x):
            if k not in ("type", "parameter", "node"):
                x.pop(k)
    del x["type"]


@defect
def missing_name(d):
    del d.node()["name"]


@defect
def missing_section(d):
    k = d.pick(["nodes", "edges", "metadata"])
    d.what = k
    del d.doc[k]


@defect
def unknown_parameter_reference(d):
    c, k, kind = d.pick(list(places(d.doc)))
    d.what = kind
    c[k] = "no such parameter"


@defect
def unknown_node_reference(d):
    xs = [(p, k) for p in d.pars() for k in ("node", "storage_node") if isinstance(p.get(k), str)] + \
        [(r, "node") for r in d.doc.get("recorders", {}).values() if "node" in r]
    x, k = d.pick(xs)
    d.what = x["type"].lower()
    x[k] = "no such node"


@defect
def unknown_member(d):
    n = d.node("virtualstorage", "aggregatednode", "aggregatedstorage", "annualvirtualstorage", "monthlyvirtualstorage", "seasonalvirtualstorage", "rollingvirtualstorage")
    k = "storage_nodes" if "storage_nodes" in n else "nodes"
    n[k][d.rng.randrange(len(n[k]))] = "no such node"


@defect
def unknown_recorder_reference(d):
    xs = [(p, "recorder") for p in d.pars() if isinstance(p.get("recorder"), str)]
    rs = [r for r in d.doc.get("recorders", {}).values() if r.get("recorders")]
    if rs and (not xs or d.rng.random() < .5):
        r = d.rng.choice(rs)
        r["recorders"][0] = "no such recorder"
    else:
        x, k = d.pick(xs)
        x[k] = "no such recorder"


@defect
def unknown_scenario(d):
    x = d.pick([p for p in d.pars() if "scenario" in p])
    d.what = api.kind(x)
    x["scenario"] = "no such scenario"


@defect
def unknown_table(d):
    c, k, kind = d.pick([x for x in places(d.doc) if isinstance(x[0][x[1]], (int, float)) and x[2] == "node"])
    c[k] = {"table": "no such table", "column": "a", "index": 0} if d.rng.random() < .5 else {"type": "constant", "table": "no such table", "column": "a", "index": 0}


@defect
def missing_data(d):
    d.doc.setdefault("tables", {})["tt"] = {"data": {"a": {"x": 1.0, "y": 2.0}, "b": {"x": 3.0, "y": 4.0}}}
    c, k, kind = d.pick([x for x in places(d.doc) if isinstance(x[0][x[1]], (int, float)) and x[2] == "node"])
    bad = d.rng.choice([{"column": "a", "index": "z"}, {"column": "z", "index": "x"}, {"column": "a"}, {"index": "x"}, {}, "file"])
    d.what = str(sorted(bad))
    c[k] = {"type": "constant", "url": "no-such-file.csv", "column": "a", "index": 1, "index_col": 0} if bad == "file" else dict({"type": "constant", "table": "tt"}, **bad)


@defect
def unknown_keyword(d):
    r = d.rng.random()
    if r < .4:
        x = d.node()
    elif r < .75:
        x = d.par(cond=lambda p: "url" not in p)
    else:
        x = d.rec()
    x["no_such_keyword"] = d.rng.choice([1, 2.5, "text"])


@defect
def circular_parameters(d):
    d.doc["parameters"]["cyc a"] = {"type": "aggregated", "agg_func": "sum", "parameters": ["cyc b"]}
    d.doc["parameters"]["cyc b"] = {"type": "negative", "parameter": "cyc a"} if d.rng.random() < .5 else {"type": "aggregated", "agg_func": "sum", "parameters": ["cyc a"]}
    if d.rng.random() < .3:
        d.doc["parameters"]["cyc a"]["parameters"] = ["cyc a"]


# ------------------------------------------------------------------ sizes
@defect
def profile_of_wrong_length(d):
    p = d.par("monthlyprofile", "dailyprofile", "weeklyprofile", cond=lambda p: isinstance(p.get("values"), list))
    n = len(p["values"])
    m = d.rng.choice({"monthlyprofile": [1, 11, 13], "dailyprofile": [1, 12, 364, 367], "weeklyprofile": [1, 12, 51, 54]}[api.kind(p)])
    d.what += f" {m}"
    p["values"] = (p["values"] * (m // n + 1))[:m]


@defect
def scenario_profile_of_wrong_length(d):
    p = d.par("scenariomonthlyprofile", "scenariodailyprofile", "scenarioweeklyprofile")
    m = {"scenariomonthlyprofile": d.rng.choice([11, 13]), "scenariodailyprofile": d.rng.choice([364, 367]), "scenarioweeklyprofile": d.rng.choice([51, 54])}[api.kind(p)]
    d.what += f" {m}"
    p["values"] = [(r * 2)[:m] for r in p["values"]]


@defect
def scenario_data_of_wrong_size(d):
    p = d.par("scenariomonthlyprofile", "scenariodailyprofile", "scenarioweeklyprofile", "constantscenario", "constantscenarioindex", "arrayindexedscenariomonthlyfactors",
              "arrayindexedscenario")
    k = "factors" if api.kind(p) == "arrayindexedscenariomonthlyfactors" else "values"
    if api.kind(p) == "arrayindexedscenario":
        more = d.rng.random() < .5
        p[k] = [r + r[:1] if more else r[:-1] for r in p[k]]
        if not p[k][0]:
            raise NotHere
    else:
        more = d.rng.random() < .5 or len(p[k]) == 1
        p[k] = p[k] + p[k][:1] if more else p[k][:-1]
    d.what += " more" if more else " fewer"


@defect
def too_few_control_curve_values(d):
    p = d.par("controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", cond=lambda p: "values" in p or "parameters" in p)
    k = "values" if "values" in p else "parameters"
    p[k] = p[k] + [p[k][0]] if d.rng.random() < .5 else p[k][:-1]
    d.what += f" {k}"


@defect
def group_factors_of_wrong_length(d):
    n = d.pick([n for n in d.doc["nodes"] if n["type"].lower() in ("virtualstorage", "annualvirtualstorage", "monthlyvirtualstorage", "seasonalvirtualstorage",
                "rollingvirtualstorage", "aggregatednode") and any(n.get(k) for k in ("factors", "flow_weights"))])
    k = d.pick([k for k in ("factors", "flow_weights") if n.get(k)])
    n[k] = n[k] + [1.0] if d.rng.random() < .5 else n[k][:-1]
    d.what = f"{n['type'].lower()} {k}"


@defect
def pieces_of_wrong_length(d):
    n = d.pick([n for n in d.doc["nodes"] if n["type"].lower() in ("piecewiselink", "multisplitlink") and any(n.get(k) for k in ("costs", "max_flows"))])
    k = d.pick([k for k in ("costs", "max_flows") if n.get(k)])
    n[k] = n[k] + [1.0] * (9 if "split" in n["type"].lower() else 1) if d.rng.random() < .5 else n[k][:-1]
    d.what = f"{n['type'].lower()} {k}"


@defect
def split_factors_of_wrong_length(d):
    n = d.node("multisplitlink", "riversplit", key="factors")
    n["factors"] = n["factors"] + [1.0] if d.rng.random() < .5 and n["type"].lower() == "multisplitlink" else n["factors"] + [1.0, 1.0]


# ------------------------------------------------------------------ options
@defect
def unknown_aggregation(d):
    r = d.rng.random()
    if r < .5:
        p = d.par("aggregated", "aggregatedindex")
        p["agg_func"] = "no such function"
    else:
        x = d.rec()
        x["agg_func"] = "no such function"
        d.doc.setdefault("recorders", {})


@defect
def unknown_predicate(d):
    p = d.par(key="predicate")
    p["predicate"] = d.rng.choice(["=>", "bigger", "<>"])


@defect
def unknown_solver(d):
    d.doc["solver"] = {"name": "no such solver"}


@defect
def unknown_solver_option(d):
    d.doc["solver"] = {"name": d.rng.choice(["glpk", "glpk-edge", "lpsolve"]), "no_such_option": True}
    d.what = d.doc["solver"]["name"]


@defect
def scenario_combination_out_of_range(d):
    s = d.doc.get("scenarios")
    if not s:
        raise NotHere
    for x in s:
        x.pop("slice", None)
    rows = [[d.rng.randrange(x["size"]) for x in s] for _ in range(3)]
    k = d.rng.choice(["high", "low", "wide", "narrow"])
    if k == "high":
        j = d.rng.randrange(len(s))
        rows[1][j] = s[j]["size"]
    elif k == "low":
        rows[2][d.rng.randrange(len(s))] = -1
    elif k == "wide":
        rows = [r + [0] for r in rows]
    else:
        rows = [r[:-1] for r in rows]
        if not rows[0]:
            raise NotHere
    d.what = k
    d.doc["scenario_combinations"] = rows


@defect
def scenario_of_size_zero(d):
    d.doc.setdefault("scenarios", []).append({"name": "none", "size": d.rng.choice([0, -1])})
    d.doc.pop("scenario_combinations", None)


@defect
def ensemble_names_of_wrong_length(d):
    s = d.pick(d.doc.get("scenarios", []))
    n = s["size"] + d.rng.choice([1, -1])
    if n == 0:
        raise NotHere
    s["ensemble_names"] = [f"e{i}" for i in range(n)]


@defect
def duplicate_scenario(d):
    s = copy.deepcopy(d.pick(d.doc.get("scenarios", [])))
    d.doc["scenarios"].append(s)
    d.doc.pop("scenario_combinations", None)


@defect
def empty_scenario_selection(d):
    s = d.pick(d.doc.get("scenarios", []))
    d.doc.pop("scenario_combinations", None)
    s["slice"] = [s["size"], s["size"] + 2]


@defect
def end_before_start(d):
    t = d.doc["timestepper"]
    t["end"], t["start"] = "2000-01-01", "2000-02-01"


@defect
def impossible_timestep(d):
    t = d.doc["timestepper"]
    t["timestep"] = d.rng.choice([0, -1, -7, "no such frequency"])
    d.what = str(t["timestep"])


@defect
def impossible_date(d):
    d.doc["timestepper"][d.rng.choice(["start", "end"])] = d.rng.choice(["2015-13-01", "2015-02-30", "some day"])


# ------------------------------------------------------------------ volumes
@defect
def no_initial_volume(d):
    n = d.node("storage", "reservoir", "virtualstorage", "annualvirtualstorage", "monthlyvirtualstorage", "seasonalvirtualstorage")
    n.pop("initial_volume", None)
    n.pop("initial_volume_pc", None)


@defect
def half_an_initial_volume(d):
    n = d.node("storage", "reservoir", "virtualstorage", "annualvirtualstorage", "monthlyvirtualstorage")
    n["max_volume"] = {"type": "monthlyprofile", "values": [100.0] * 12}
    n["initial_volume"], n["initial_volume_pc"] = 10.0, .1
    k = d.rng.choice(["initial_volume", "initial_volume_pc"])
    del n[k]
    d.what += " " + k


@defect
def virtual_storage_with_a_cost(d):
    n = d.node("virtualstorage", "annualvirtualstorage", "monthlyvirtualstorage", "seasonalvirtualstorage", "rollingvirtualstorage")
    n["cost"] = d.rng.choice([1.0, -2.0])


@defect
def rolling_period_too_short(d):
    n = d.node("rollingvirtualstorage")
    n.pop("days", None)
    n["timesteps"] = d.rng.choice([1, 0, -3])
    d.what = str(n["timesteps"])


@defect
def no_rolling_period(d):
    n = d.node("rollingvirtualstorage")
    n.pop("days", None)
    n.pop("timesteps", None)


def attempt(ctx, doc, solver, args, tmp):
    """Loads, checks and runs: (error or None, phase, number of steps with results)."""
    mon, phase = None, "load"
    try:
        d2, finish = strip(doc) if "nodes" in doc and all("type" in n and "name" in n for n in doc["nodes"]) else (copy.deepcopy(doc), None)
        kw = {} if "solver" in doc else {"solver": solver, "solver_args": args}
        m = Model.load(d2, path=tmp, **kw)
        if finish:
            m, mon = finish(m)
        else:
            mon = trace.Monitor(m)
        phase = "check"
        m.check()
        phase = "run"
        m.run()
    except Exception as e:
        return e, phase, len(mon.log) if mon else 0
    return None, phase, len(mon.log)


def case(ctx):
    rng = ctx.rng
    if rng.random() < .35:
        return p23b.case(ctx)
    g, r, solver, args = runcmp.richcase(ctx, infeasible=False, minflow=0)
    warnings.simplefilter("ignore")
    with tempfile.TemporaryDirectory(prefix="pv23-") as tmp:
        err, phase, n = attempt(ctx, g.doc, solver, args, tmp)
        if isinstance(err, runcmp.ERRORS):
            ctx.event("models without a feasible allocation")
            return
        if err is not None:
            ctx.violation("valid", f"a valid model was rejected at {phase}: {err!r}")
            return
        ctx.event("valid models")
        names = list(DEFECTS)
        rng.shuffle(names)
        done = 0
        for name in names:
            d = D(ctx, g, copy.deepcopy(g.doc))
            try:
                DEFECTS[name](d)
            except NotHere:
                continue
            done += 1
            inject(ctx, name, d, solver, args, tmp)
            if done >= 4:
                break


def inject(ctx, name, d, solver, args, tmp):
    err, phase, n = attempt(ctx, d.doc, solver, args, tmp)
    ctx.event("defects")
    ctx.event("defect:" + name)
    ctx.key(name, d.what.strip(), solver, phase)
    ctx.sample({"defect": name, "where": d.what.strip(), "reported": repr(err)[:100], "at": phase})
    key = f"silent:{name}:{d.what.strip()}"
    if err is None:
        ctx.violation(key, f"{name} ({d.what.strip()}) was simulated without an error")
    elif n:
        ctx.violation(key, f"{name} ({d.what.strip()}) was reported after the results of {n} steps: {err!r}")
    else:
        ctx.event("defect reported")
        ctx.event("reported at " + phase)
