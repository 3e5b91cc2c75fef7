"""P09: each scenario combination of a run equals the single run with that combination's data; combinations and labels are right."""
import copy

import numpy as np
import pandas as pd

from pywr.parameters import DataFrameParameter, TablesArrayParameter
from pv import ref, trace
from . import runcmp

META = {
    "n": [2000, 20000], "budget": [70, 750],
    "min_events": {"combinations compared": 400, "labels": 400, "slices": 30, "user combinations": 30, "changed selection": 20, "data frame": 40, "table": 20,
                   "per-scenario recorder results": 300},
    "rule": "distinct: solver settings, scenario sizes, slices/combinations, kinds of parameters and node types",
    "assumptions": ["costs are made generic; where a combination and its single run differ first at equal total cost, the pair is compared up to that step"],
}


def single(doc, combo):
    """The document of one combination: scenario-varying parameters replaced by that member's data, no scenarios."""
    def sub(p):
        if isinstance(p, list):
            return [sub(x) for x in p]
        if not isinstance(p, dict):
            return p
        if "scenario" in p and "type" in p:
            k, j = ref.norm(p["type"]), combo[p["scenario"]]
            rest = {a: b for a, b in p.items() if a not in ("scenario", "type", "values", "factors", "parameters")}
            if k in ("constantscenario", "constantscenarioindex"):
                return dict(rest, type=k, scenario="pv-one", values=[p["values"][j]])
            if k == "arrayindexedscenario":
                return dict(rest, type="arrayindexed", values=[r[j] for r in p["values"]])
            if k == "arrayindexedscenariomonthlyfactors":
                return dict(rest, type="aggregated", agg_func="product", parameters=[{"type": "arrayindexed", "values": p["values"]},
                                                                                     {"type": "monthlyprofile", "values": p["factors"][j]}])
            if k in ("scenariomonthlyprofile", "scenariodailyprofile", "scenarioweeklyprofile"):
                return dict(rest, type=k[len("scenario"):], values=p["values"][j])
            if k == "scenariowrapper":
                return dict(rest, type="aggregated", agg_func="sum", parameters=[sub(p["parameters"][j])])
            raise KeyError(k)
        return {a: sub(b) for a, b in p.items()}

    doc = copy.deepcopy(doc)
    doc["scenarios"] = [{"name": "pv-one", "size": 1}]
    doc.pop("scenario_combinations", None)
    doc["parameters"] = sub(doc["parameters"])
    doc["nodes"] = sub(doc["nodes"])
    if "recorders" in doc:
        doc["recorders"] = sub(doc["recorders"])
    return doc


def case(ctx):
    rng = ctx.rng
    g, r, solver, args = runcmp.richcase(ctx, params=(1, 7), recs=(0, 5), minflow=0, scenarios={1: 3, 2: 3, 3: 1}, scen_size=(2, 5), slices=.35, combos=.3)
    for _ in range(rng.randint(1, 3)):  # more scenario data
        from pv.rich import SCEN
        r.newparams = {}
        if r.add(rng.choice(sorted(SCEN))):
            ctx.event("parameter:scenario")
        g.doc["parameters"].update(r.newparams)
    r.attach()
    doc = g.doc
    runcmp.generic(ctx, doc)
    data = extra(ctx, g)
    m, mon = trace.monitored(doc, solver, params=True, costs=True, **args)
    attach(m, data, doc, None)
    what = "first selection"
    if doc.get("scenario_combinations"):
        ctx.event("user combinations")
    if any(s.get("slice") for s in doc["scenarios"]):
        ctx.event("slices")
    if rng.random() < .25:
        ctx.event("changed selection")
        what = "changed selection"
        how = rng.choice(["run", "setup", "steps"])
        try:
            m.run() if how == "run" else m.setup() if how == "setup" else m.step()
        except runcmp.ERRORS:
            pass
        doc = reselect(ctx, m, doc)
    A = runcmp.run(m, mon)
    combos = ref.combos(doc)
    labels(ctx, m, doc, combos, A)
    ctx.key(solver, [s["size"] for s in doc["scenarios"]], len(combos), sorted(str(p["type"]).lower() for p in doc["parameters"].values()), len(doc["nodes"]))
    ctx.sample({"solver": solver, "scenarios": [{k: v for k, v in s.items() if k != "name"} for s in doc["scenarios"]], "combinations": len(combos), "what": what})
    if len(m.scenarios.combinations) != len(combos):
        return
    for s in rng.sample(range(len(combos)), min(len(combos), 4 if ctx.thorough else 2)):
        d1 = single(doc, combos[s])
        m1, mon1 = trace.monitored(d1, solver, params=True, costs=True, **args)
        attach(m1, data, doc, combos[s])
        B = runcmp.run(m1, mon1)
        ctx.event("combinations compared")
        msg = f"combination {s} {combos[s]} of {len(combos)} ({what}) and the single run"
        cut = runcmp.Done.__new__(runcmp.Done)
        cut.log, cut.error, cut.recs = B.log, B.error, B.recs
        if A.error and len(B.log) >= len(A.log):
            cut.log, cut.error = B.log[:len(A.log)], A.error  # another combination stopped the run
        res = runcmp.logs(ctx, A, cut, "scenario-differs", msg, sel=[(s, 0)], soft=("par", "idx", "active"), exact=runcmp.stateless(doc))
        ctx.event("compare:" + res)
        if res == "same" and not A.error and not B.error:
            perscen(ctx, A, B, s, len(combos), msg, {n: str(r['type']).lower() for n, r in doc.get('recorders', {}).items()})


def extra(ctx, g):
    """Data frames and tables varying by scenario, attached after loading."""
    rng, doc = ctx.rng, g.doc
    out = []
    for n in doc["nodes"]:
        if n["type"].lower() in ("input", "output") and rng.random() < .35 and not n["name"].endswith("dis") and "min_flow" not in n and "spill" not in n["name"]:
            s = rng.choice(doc["scenarios"])
            vals = ctx.np.uniform(0, 20, (g.nsteps, s["size"])).round(3)
            kind = "df" if g.delta != "M" and rng.random() < .7 else "tab"
            ctx.event("data frame" if kind == "df" else "table")
            out.append((n["name"], kind, s["name"], vals, rng.choice([0, 0, 0, -1, 2]), ctx.i))
    return out


def attach(m, data, doc, combo):
    for k, (node, kind, scen, vals, off, i) in enumerate(data):
        if combo is not None:
            vals = vals[:, [combo[scen]]]
        sc = m.scenarios[scen] if combo is None else None
        if kind == "df":
            ts = doc["timestepper"]
            idx = pd.date_range(ts["start"], periods=len(vals), freq=f"{ts['timestep']}D")
            p = DataFrameParameter(m, pd.DataFrame(vals, index=idx), scenario=sc, timestep_offset=off)
        else:
            import tables
            fn = f"d{i}-{k}-{'all' if combo is None else 'one'}.h5"
            with tables.open_file(fn, "w") as fh:
                fh.create_array(fh.root, "values", vals)
            p = TablesArrayParameter(m, fn, "values", scenario=sc if sc is not None else m.scenarios["pv-one"], timestep_offset=off)
        m.nodes[node].max_flow = p


def reselect(ctx, m, doc):
    """Changes which combinations run, through the model's attributes."""
    rng = ctx.rng
    doc = copy.deepcopy(doc)
    sc = doc["scenarios"]
    if rng.random() < .5:
        allc = [[]]
        for s in sc:
            allc = [c + [j] for c in allc for j in range(s["size"])]
        doc["scenario_combinations"] = rng.sample(allc, rng.randint(1, min(6, len(allc))))
        m.scenarios.user_combinations = doc["scenario_combinations"]
    else:
        doc.pop("scenario_combinations", None)
        m.scenarios.user_combinations = None
        for s in sc:
            if rng.random() < .7:
                n = s["size"]
                s["slice"] = rng.choice([[0, 1], [1, n], [0, None], [None, -1], [None, None, 2], [-1, None], [0, n + 3], [1, None, 2]])
                m.scenarios[s["name"]].slice = slice(*s["slice"])
            elif s.get("slice") and rng.random() < .5:
                s.pop("slice")
                m.scenarios[s["name"]].slice = None
    return doc


def labels(ctx, m, doc, combos, A):
    ctx.event("labels")
    names = [s["name"] for s in doc["scenarios"]]
    got = [tuple(int(x) for x in si.indices) for si in m.scenarios.combinations]
    want = [tuple(c[n] for n in names) for c in combos]
    if not ctx.check(got == want, "combinations", f"combinations {got}, expected {want} from {doc['scenarios']} {doc.get('scenario_combinations')}"):
        return
    ctx.check([si.global_id for si in m.scenarios.combinations] == list(range(len(want))), "combinations", "global ids are not consecutive")
    ens = {s["name"]: s.get("ensemble_names") or list(range(s["size"])) for s in doc["scenarios"]}
    lab = [tuple(ens[n][j] for n, j in zip(names, w)) for w in want]
    mi = m.scenarios.multiindex
    ctx.check([tuple(x) for x in mi] == lab and list(mi.names) == names, "labels", f"labels {list(mi)} {list(mi.names)}, expected {lab} {names}")
    cn = list(m.scenarios.combination_names)
    ctx.check(cn == ["-".join(f"{n}.{j:03d}" for n, j in zip(names, w)) for w in want], "labels", f"combination names {cn} for {want}")
    if A.error:
        return
    for r in m.recorders:
        if isinstance(r, trace.Monitor) or not hasattr(r, "to_dataframe") or "Event" in type(r).__name__:
            continue
        try:
            df = r.to_dataframe()
        except Exception:
            continue
        if df.shape[1] == len(lab) and isinstance(df.columns, pd.MultiIndex):
            ctx.event("recorder frames")
            ctx.check([tuple(x) for x in df.columns] == lab, "labels", f"columns of recorder {type(r).__name__}: {list(df.columns)}, expected {lab}")
            if hasattr(r, "data") and "Curve" not in type(r).__name__:
                d = np.array(r.data)
                if d.shape == df.shape:
                    ctx.check(runcmp.same(df.values.astype(float), d), "labels", f"frame of {type(r).__name__} differs from its data")


def perscen(ctx, A, B, s, n, msg, types):
    for name, d in A.recs.items():
        if "ratio" in types.get(name, ""):
            continue  # the ratio of two rounding errors is arbitrary
        e = B.recs[name]
        if "values" in d and isinstance(d["values"], np.ndarray) and d["values"].shape == (n,):
            ctx.event("per-scenario recorder results")
            ctx.check(runcmp.same(d["values"][[s]], e["values"]), "scenario-recorder", f"{msg}: values of {name}: {d['values'].tolist()}[{s}] != {e['values']}")
        if "data" in d and d["data"].ndim == 2 and d["data"].shape[1] == n:
            ctx.check(runcmp.same(d["data"][:, [s]], e["data"]), "scenario-recorder", f"{msg}: data of {name} differ")
        if "events" in d:
            ctx.check([x[:2] for x in d["events"] if x[2] == s] == [x[:2] for x in e["events"]], "scenario-recorder", f"{msg}: events of {name} differ")
