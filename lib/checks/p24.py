"""P24: linked models run in lock-step and exchange current values."""
import copy
import json
import os
import random
import tempfile
import warnings

import numpy as np
import pandas as pd

from pywr.model import Model, MultiModel
from pywr.parameters import IndexParameter, Parameter
from pv import gen, rich, trace
from . import netcase, runcmp
from .p22 import strip

META = {
    "n": [800, 12000], "budget": [60, 800],
    "min_events": {"linked simulations": 120, "exchanged values": 3000, "from an earlier model": 800, "from a later model": 800, "shadowed values": 1500,
                   "models repeated alone": 200, "steps in lock-step": 500, "reruns": 60, "defects reported": 40},
    "rule": "distinct: number of models, the kinds of exchanged values with their directions, the ways of loading, the solvers and the calendar",
    "assumptions": ["a value of a model that is solved later is the one of the previous step; in the first step it is the state at the start "
                    "(volume) or zero (flow, parameter)"],
}
STORE = {}


class PvSeries(Parameter):
    """The recorded values, supplied to a model that runs alone."""

    def __init__(self, model, data, **kw):
        super().__init__(model, **kw)
        self.data = data

    def value(self, ts, si):
        return self.data[ts.index][si.global_id]

    @classmethod
    def load(cls, model, data):
        return cls(model, STORE[data["key"]], name=data.get("name"))


class PvSeriesIndex(IndexParameter):
    def __init__(self, model, data, **kw):
        super().__init__(model, **kw)
        self.data = data

    def index(self, ts, si):
        return int(self.data[ts.index][si.global_id])

    @classmethod
    def load(cls, model, data):
        return cls(model, STORE[data["key"]], name=data.get("name"))


PvSeries.register()
PvSeriesIndex.register()


class Watch(trace.Monitor):
    """Also logs indices, the state at the start, and the order of events over all models."""

    def __init__(self, model, label, events, **kw):
        super().__init__(model, params=True, costs=True, name="pv-monitor")
        self.label, self.events = label, events
        solve = model.solve

        def wrapped():
            self.events.append((self.label, "solve", model.timestep.index, model.timestep.datetime))
            return solve()

        model.solve = wrapped

    def reset(self):
        super().reset()
        self.vol0 = {n: np.array(x.volume) for n, x in self.targets if hasattr(x, "volume")}
        self.pc0 = {n: np.array(x.current_pc) for n, x in self.targets if hasattr(x, "volume")}

    def before(self):
        super().before()
        self.events.append((self.label, "before", self.model.timestepper.current.index, self.model.timestepper.current.datetime))

    def after(self):
        super().after()
        self.log[-1]["idx"] = {p.name: np.array(p.get_all_indices()) for p in self.model.parameters if p.name and isinstance(p, IndexParameter)}
        self.events.append((self.label, "after", self.model.timestepper.current.index, self.model.timestepper.current.datetime))


class Like(gen.Gen):
    """A model with the calendar and the scenarios of another."""
    other = None

    def calendar(self):
        o = self.other
        if o is None:
            return super().calendar()
        self.delta, self.nsteps, self.start, self.end = o.delta, o.nsteps, o.start, o.end
        return copy.deepcopy(o.doc["timestepper"])

    def scenarios(self):
        o = self.other
        if o is None:
            return super().scenarios()
        self.scen = copy.deepcopy(o.doc.get("scenarios", []))
        self.used_names |= {s["name"] for s in self.scen}
        return self.scen


KW = dict(nsteps=(3, 9), minflow=.02, slices=.15, vparmax=.2, n_mid=(1, 4), deltas={1: 6, 7: 2, 5: 1, 30: 1, "M": 1})


def submodel(ctx, other, solver):
    kw = dict(KW, combos=.3 if other is None else 0)
    if solver == "lpsolve":
        kw.update(lpsafe=True, param_factors=0)
    g = Like(ctx.rng, **{k: v for k, v in kw.items()})
    g.other = other
    g.build()
    if other is not None and "scenario_combinations" in other.doc:
        g.doc["scenario_combinations"] = copy.deepcopy(other.doc["scenario_combinations"])
    r = rich.Rich(g, params=ctx.rng.randint(1, 4), recs=ctx.rng.randint(0, 3))
    return g, r


def add_csv(ctx, g, folder, i):
    """A series of the model's own folder, so that data are found relative to the sub-model."""
    idx = pd.date_range("1990-01-01", periods=10, freq="D")
    del idx
    dates = pd.date_range(g.start - pd.Timedelta(days=5), g.end + pd.Timedelta(days=40), freq="D")
    df = pd.DataFrame({"v": np.full(len(dates), 1000.0 + i)}, index=dates)
    df.index.name = "date"
    os.makedirs(folder, exist_ok=True)
    df.to_csv(os.path.join(folder, "own.csv"))
    g.doc["parameters"]["zz own"] = {"type": "dataframe", "url": "own.csv", "column": "v", "index_col": "date", "parse_dates": True}


def link(ctx, gs, names, flt, idx, j):
    """Adds a parameter to model j that takes a value of another model, and uses it."""
    rng = ctx.rng
    i = rng.choice([k for k in range(len(gs)) if k != j])
    g, o = gs[j], gs[i]
    nodes = [n["name"] for n in o.doc["nodes"] if "virtual" not in n["type"].lower() and n["type"].lower() not in ("aggregatednode", "aggregatedstorage", "shadownode", "shadowstorage")]
    stores = [n["name"] for n in o.doc["nodes"] if n["type"].lower() in ("storage", "reservoir", "aggregatedstorage") or "virtualstorage" in n["type"].lower()]
    kinds = ["flow"] * bool(nodes) + ["storage"] * bool(stores) + ["parameter"] * bool(flt[i]) + ["index"] * bool(idx[i])
    kind = rng.choice(kinds)
    shadow = kind in ("flow", "storage") and rng.random() < .4
    ref = rng.choice({"flow": nodes, "storage": stores, "parameter": flt[i], "index": idx[i]}[kind])
    name = f"zz link {len([p for p in g.doc['parameters'] if p.startswith('zz link')])}"
    typ, key = {"flow": ("OtherModelNodeFlow", "node"), "storage": ("OtherModelNodeStorage", "node"), "parameter": ("OtherModelParameterValue", "parameter"),
                "index": ("OtherModelIndexParameterValueIndex", "parameter")}[kind]
    typ += rng.choice(["", "Parameter"])
    g.doc["parameters"][name] = {"type": rng.choice([typ, typ.lower()]), "other_model": names[i], key: ref}
    sname, pc = name.replace("link", "shadow"), False
    if shadow:
        typ = {"flow": "ShadowNode", "storage": "ShadowStorage"}[kind]
        g.doc["nodes"].insert(rng.randint(0, len(g.doc["nodes"])), {"type": rng.choice([typ, typ.lower()]), "name": sname, "other_model": names[i], "node": ref})
        pc = rng.random() < .5
        g.doc["parameters"][name] = ({"type": "flowdelay", "node": sname, "timesteps": 1} if kind == "flow" else
                                     {"type": "storage", "storage_node": sname, "use_proportional_volume": pc})
        kind = "shadow of " + kind
    x = name
    if kind == "index":
        x = {"type": "indexedarray", "index_parameter": name, "params": [float(rng.randint(0, 30)) for _ in range(12)]}
    nonneg = {"type": "max", "parameter": x, "threshold": rng.choice([0.0, 1.0])}
    limited = [n for n in g.doc["nodes"] if n["type"].lower() in ("input", "output", "link") and not n.get("min_flow")]
    costed = [n for n in g.doc["nodes"] if isinstance(n.get("cost"), (int, float)) and n["type"].lower() in ("input", "output", "link", "catchment", "storage")]
    use = rng.choice(["limit"] * bool(limited) + ["cost"] * bool(costed) or ["none"])
    if use == "limit":
        n = rng.choice(limited)
        old = n.get("max_flow")
        n["max_flow"] = {"type": "aggregated", "agg_func": "min", "parameters": [old, nonneg]} if old is not None and rng.random() < .6 else nonneg
    elif use == "cost":
        n = rng.choice(costed)
        n["cost"] = {"type": "aggregated", "agg_func": "sum", "parameters": [n["cost"], {"type": "aggregated", "agg_func": "product", "parameters": [.013, x]}]}
    return dict(consumer=j, provider=i, kind=kind, ref=ref, name=name, use=use, shadow=sname if shadow else None, pc=pc)


def case(ctx):
    rng = ctx.rng
    warnings.simplefilter("ignore")
    n = rng.choice([2, 2, 2, 3, 3, 4])
    solvers = [netcase.SOLVE[rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])] for _ in range(n)]
    if rng.random() < .5:
        solvers = [solvers[0]] * n
    with tempfile.TemporaryDirectory(prefix="pv24-") as tmp:
        gs, flt, idx = [], [], []
        for i in range(n):
            g, r = submodel(ctx, gs[0] if gs else None, solvers[i][0])
            folder = os.path.join(tmp, f"sub {i}")
            add_csv(ctx, g, folder, i)
            try:
                m = strip(g.doc)[1](Model.load(strip(g.doc)[0], path=folder, solver=solvers[i][0], solver_args=solvers[i][1]))[0]
                m.run()
            except runcmp.ERRORS:
                ctx.event("models without a feasible allocation")
                return
            idx.append([p.name for p in m.parameters if p.name in g.doc["parameters"] and isinstance(p, IndexParameter)])
            flt.append([p.name for p in m.parameters if p.name in g.doc["parameters"] and not isinstance(p, IndexParameter) and "eficit" not in type(p).__name__])
            gs.append(g)
        names = [f"{rng.choice('abcxyz')} model {i}" for i in range(n)]
        links = [link(ctx, gs, names, flt, idx, rng.randrange(n)) for _ in range(rng.randint(1, 5))]
        # within a model, links are not to depend on each other through their providers in the same step: order is by model
        ways = [rng.choice(["file", "data", "api"]) for _ in range(n)]
        if "api" in ways:
            ways = ["api"] * n if rng.random() < .4 else [w if w != "api" else "file" for w in ways]
        if rng.random() < .2:
            return defect(ctx, tmp, gs, names, solvers, links)
        built = build(ctx, tmp, gs, names, solvers, ways)
        mm, mons, events = built
        ctx.event("linked simulations")
        ctx.event("models:%d" % n)
        kinds = sorted({(l["kind"], l["provider"] < l["consumer"], l["use"]) for l in links})
        ctx.key(n, kinds, sorted(set(ways)), sorted({s for s, a in solvers}), gs[0].delta, len(gs[0].scen))
        ctx.sample({"models": n, "links": [(l["kind"], l["provider"], l["consumer"], l["use"]) for l in links], "ways": ways, "solvers": [s for s, a in solvers]})
        try:
            mm.run()
        except runcmp.ERRORS:
            ctx.event("linked simulations without a feasible allocation")
            order(ctx, events, names, None)
            return
        first = [list(m.log) for m in mons]
        nsteps = gs[0].nsteps
        for i in range(n):
            ctx.check(len(first[i]) == nsteps, "steps", f"model {i} of {n} made {len(first[i])} of {nsteps} steps ({ways[i]})")
            own = {float(x) for r in first[i] for x in np.ravel(r["par"]["zz own"])}
            ctx.check(own == {1000.0 + i}, "own-data", f"model {i} of {n} ({ways[i]}) read the data {own}, its own are {1000.0 + i}")
            if ways[i] != "api":
                ctx.check(mm.models[names[i]].solver.name == solvers[i][0], "solver", f"model {i} ({ways[i]}) is solved with {mm.models[names[i]].solver.name}, not {solvers[i][0]}")
        order(ctx, events, names, nsteps)
        exchanged(ctx, links, mons)
        alone(ctx, tmp, gs, solvers, links, mons, mm, names)
        # again
        A = [runcmp.Done(m, mon) for m, mon in zip(mm.models.values(), mons)]
        again = rng.choice(["run", "setup", "new"])
        if again == "setup":
            mm.setup()
        if again == "new":
            mm, mons2, events = build(ctx, tmp, gs, names, solvers, ways)
        else:
            mons2 = mons
            events.clear()
        mm.run()
        ctx.event("reruns")
        rerun(ctx, A, [runcmp.Done(m, mon) for m, mon in zip(mm.models.values(), mons2)], again)
        order(ctx, events, names, nsteps)
        exchanged(ctx, links, mons2)


def rerun(ctx, A, B, again):
    """All models do the same once more.  Compared by step: a tie in one of them shows in the others from then on."""
    n = len(A)
    if not ctx.check([len(a.log) for a in A] == [len(b.log) for b in B], "rerun", f"{[len(b.log) for b in B]} steps, {[len(a.log) for a in A]} in the first run ({again})"):
        return
    for t in range(len(A[0].log)):
        for i in range(n):
            a, b = copy.copy(A[i]), copy.copy(B[i])
            a.log, b.log = a.log[t:t + 1], b.log[t:t + 1]
            if runcmp.logs(ctx, a, b, "rerun", f"model {i} of {n}, step {t}, simulated again ({again})") != "same":
                return
    for i in range(n):
        runcmp.recorders(ctx, A[i], B[i], "rerun", f"model {i} of {n}, simulated again ({again})")


def build(ctx, tmp, gs, names, solvers, ways):
    """Loads the linked models."""
    rng = ctx.rng
    events, mons, finishes = [], [], []
    ts = gs[0].doc["timestepper"]
    if ways[0] == "api":
        mm = MultiModel()
        for i, g in enumerate(gs):
            d, fin = strip(g.doc)
            m = Model.load(d, path=os.path.join(tmp, f"sub {i}"), solver=solvers[i][0], solver_args=solvers[i][1])
            fin2(m, g)
            mm.add_model(names[i], m)
            mons.append(Watch(m, names[i], events))
        return mm, mons, events
    common = len({s for s, a in solvers}) == 1 and all(not a for s, a in solvers) and rng.random() < .6
    top = {"metadata": {"title": "linked", "minimum_version": "0.1"}, "timestepper": copy.deepcopy(ts), "models": []}
    for i, g in enumerate(gs):
        d, fin = strip(g.doc)
        folder = f"sub {i}"
        if rng.random() < .5:
            # each sub-model's own calendar does not matter
            d["timestepper"] = {"start": "2003-03-03", "end": "2003-04-05", "timestep": rng.choice([1, 3])}
        e = {"name": names[i]}
        if not common:
            if solvers[i][1] or rng.random() < .5:
                d["solver"] = dict({"name": solvers[i][0]}, **solvers[i][1])
            else:
                e["solver"] = solvers[i][0]
        if ways[i] == "file":
            with open(os.path.join(tmp, folder, "model.json"), "w") as f:
                json.dump(d, f)
            e["filename"] = f"{folder}/model.json"
        else:
            e["data"] = d
            e["path"] = os.path.join(tmp, folder)
        top["models"].append(e)
    how = rng.choice(["file", "dict", "open"])
    ctx.event("as:" + how)
    kw = {"solver": solvers[0][0]} if common else {}
    path = os.path.join(tmp, "linked.json")
    with open(path, "w") as f:
        json.dump(top, f)
    if how == "file":
        mm = MultiModel.load(path, **kw)
    elif how == "open":
        with open(path) as f:
            mm = MultiModel.load(f, path=path, **kw)
    else:
        mm = MultiModel.load(top, path=rng.choice([tmp, path]), **kw)
    for i, g in enumerate(gs):
        m = mm.models[names[i]]
        fin2(m, g)
        mons.append(Watch(m, names[i], events))
    return mm, mons, events


def fin2(m, g):
    """What a document cannot express."""
    from pywr._core import Domain
    objs = {}
    for n in g.doc["nodes"]:
        if n.get("domain"):
            m.nodes[n["name"]].domain = objs.setdefault(n["domain"], Domain(n["domain"]))
        if "conversion_factor" in n:
            m.nodes[n["name"]].conversion_factor = n["conversion_factor"]


def order(ctx, events, names, nsteps):
    """Every model does its whole step, in the declared order, before the next begins the step; all together."""
    want = [(nm, ph) for nm in names for ph in ("before", "solve", "after")]
    k = len(want)
    for p, (nm, ph, i, date) in enumerate(events):
        t, q = divmod(p, k)
        if (nm, ph) != want[q] or i != t or date != events[t * k][3]:
            ctx.violation("order", f"event {p} is {ph} of {nm} at step {i} ({date}), expected {want[q][1]} of {want[q][0]} at step {t} ({events[t * k][3]})")
            return
    ctx.event("steps in lock-step", len(events) // k)
    if nsteps is not None:
        ctx.check(len(events) == k * nsteps, "order", f"{len(events)} events, expected {k * nsteps}")


def exchanged(ctx, links, mons):
    for l in links:
        C, P = mons[l["consumer"]], mons[l["provider"]]
        earlier = l["provider"] < l["consumer"]
        if l["shadow"]:
            shadowed(ctx, l, C, P, earlier)
            continue
        part = {"flow": "flow", "storage": "vol1", "parameter": "par", "index": "idx"}[l["kind"]]
        for t, r in enumerate(C.log):
            got = np.asarray(r["idx" if l["kind"] == "index" else "par"][l["name"]], dtype=float)
            if earlier:
                want = P.log[t][part][l["ref"]]
            elif t:
                want = P.log[t - 1][part][l["ref"]]
            elif l["kind"] == "storage":
                want = P.vol0[l["ref"]]
            else:
                want = np.zeros(got.shape)
            want = np.asarray(want, dtype=float)
            ctx.event("exchanged values", got.size)
            ctx.event("from an earlier model" if earlier else "from a later model", got.size)
            if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                ctx.violation("value:" + l["kind"], f"step {t}: model {l['consumer']} gets {got.tolist()} as the {l['kind']} {l['ref']} of model {l['provider']}, which is {want.tolist()}")
                return


def shadowed(ctx, l, C, P, earlier):
    """A shadow node has the state of its original, and so have the parameters that use it."""
    s, ref, store = l["shadow"], l["ref"], l["kind"] == "shadow of storage"
    for t, r in enumerate(C.log):
        if earlier or t:
            o = P.log[t if earlier else t - 1]
            want = {"flow": o["flow"][ref], "prev": o["flow"][ref]}
            if store:
                want.update(vol=o["vol1"][ref], vol1=o["vol1"][ref], pc=o["pc1"][ref], pc1=o["pc1"][ref])
        else:
            z = np.zeros(len(r["flow"][s]))
            want = {"flow": z, "prev": z}
            if store:
                want.update(vol=P.vol0[ref], vol1=P.vol0[ref], pc=P.pc0[ref], pc1=P.pc0[ref])
        for k, w in want.items():
            got = np.asarray(r[k][s])
            ctx.event("shadowed values", got.size)
            if got.shape != w.shape or not np.array_equal(got, w, equal_nan=True):
                ctx.violation("shadow:" + k, f"step {t}: {k} of the {l['kind']} in model {l['consumer']} is {got.tolist()}, {ref} of model {l['provider']} has {w.tolist()}")
                return
        w = want["pc" if l["pc"] else "vol"] if store else C.log[t - 1]["flow"][s] if t else np.zeros(len(r["flow"][s]))
        got = np.asarray(r["par"][l["name"]])
        if not np.array_equal(got, w, equal_nan=True):
            ctx.violation("shadow:parameter", f"step {t}: the parameter of the {l['kind']} in model {l['consumer']} is {got.tolist()}, expected {w.tolist()}")
            return


def alone(ctx, tmp, gs, solvers, links, mons, mm, names):
    """Each model gives the same results alone, with the exchanged values supplied."""
    for i, g in enumerate(gs):
        doc = copy.deepcopy(g.doc)
        mine = [l for l in links if l["consumer"] == i]
        if not mine and ctx.rng.random() < .5:
            continue
        for l in mine:
            part = "idx" if l["kind"] == "index" else "par"
            key = (i, l["name"])
            STORE[str(key)] = np.array([r[part][l["name"]] for r in mons[i].log])
            doc["parameters"][l["name"]] = {"type": "pvseriesindex" if l["kind"] == "index" else "pvseries", "key": str(key)}
        shadows = {l["shadow"] for l in mine if l["shadow"]}
        doc["nodes"] = [x for x in doc["nodes"] if x["name"] not in shadows]
        d, fin = strip(doc)
        m, mon = fin(Model.load(d, path=os.path.join(tmp, f"sub {i}"), solver=solvers[i][0], solver_args=solvers[i][1]))
        B = runcmp.run(m, mon)
        A = runcmp.Done(mm.models[names[i]], mons[i])
        ctx.event("models repeated alone")
        what = f"model {i} of {len(gs)}: linked and alone"
        if B.error:
            ctx.violation("alone", f"{what}: alone it fails: {B.error}")
            continue
        for r in A.log:
            r.pop("idx", None)
            for k in ("vol", "pc", "prev", "active", "flow", "vol1", "pc1"):
                for s in shadows:
                    r[k].pop(s, None)
        if runcmp.logs(ctx, A, B, "alone", what) == "same":
            runcmp.recorders(ctx, A, B, "alone", what)


DEFECTS = ["start", "end", "step", "sizes", "combinations", "other model", "other node", "both", "neither"]


def place(docs, l):
    """Where a link is defined."""
    d = docs[l["consumer"]]
    return next(n for n in d["nodes"] if n["name"] == l["shadow"]) if l["shadow"] else d["parameters"][l["name"]]


def defect(ctx, tmp, gs, names, solvers, links):
    """Models that cannot be run together are refused."""
    rng = ctx.rng
    what = rng.choice(DEFECTS)
    events, err, phase = [], None, "load"
    j = rng.randrange(len(gs))
    docs = [strip(g.doc)[0] for g in gs]
    ts = docs[j]["timestepper"]
    if what in ("both", "neither"):
        e = [{"name": nm, "data": d} for nm, d in zip(names, docs)]
        if what == "both":
            e[j]["filename"] = "x.json"
        else:
            del e[j]["data"]
        top = {"metadata": {"title": "linked", "minimum_version": "0.1"}, "timestepper": docs[0]["timestepper"], "models": e}
        for q, x in enumerate(e):
            x["path"] = os.path.join(tmp, f"sub {q}")
    elif what == "start":
        ts["start"] = str((pd.Timestamp(ts["start"]) - (pd.DateOffset(months=1) if ts["timestep"] == "M" else pd.Timedelta(days=ts["timestep"]))).date())
    elif what == "end":
        k = rng.choice([1, -1]) if gs[0].nsteps > 2 else 1
        ts["end"] = str((pd.Timestamp(ts["end"]) + (pd.DateOffset(months=k) if ts["timestep"] == "M" else pd.Timedelta(days=k * ts["timestep"]))).date())
    elif what == "step":
        ts["timestep"] = 2 if ts["timestep"] != 2 else 3
        ts["end"] = str((pd.Timestamp(ts["start"]) + pd.Timedelta(days=2 * (gs[0].nsteps - 1))).date())
    elif what == "sizes":
        docs[j]["scenarios"] = docs[j].get("scenarios", []) + [{"name": "zz more", "size": 2}]
        docs[j].pop("scenario_combinations", None)
    elif what == "combinations":
        sc = docs[j].get("scenarios", [])
        if not sc or "scenario_combinations" in docs[j] or any("slice" in s for s in sc):
            return
        docs[j]["scenario_combinations"] = [[0] * len(sc)]
    elif what == "other model":
        place(docs, links[0])["other_model"] = "nobody"
    elif what == "other node":
        p = place(docs, links[0])
        p["node" if "node" in p else "parameter"] = "nothing"
    mons = []
    try:
        if what in ("both", "neither"):
            MultiModel.load(top)
        else:
            mm = MultiModel()
            for i, d in enumerate(docs):
                m = Model.load(d, path=os.path.join(tmp, f"sub {i}"), solver=solvers[i][0], solver_args=solvers[i][1])
                mm.add_model(names[i], m)
                mons.append(Watch(m, names[i], events))
            phase = "run"
            mm.run()
    except Exception as e:
        err = e
    ctx.event("defects")
    ctx.event("defect:" + what)
    ctx.key("defect", what, j, len(gs), phase)
    if err is None:
        ctx.violation("silent:" + what, f"models with different {what} ({j} of {len(gs)}) were simulated without an error, {[len(m.log) for m in mons]} steps")
        return
    if isinstance(err, runcmp.ERRORS) and what not in ("start", "step", "end"):
        return
    # different steps show when one of them is made, a different end when the first model ends
    if events and what not in ("start", "step", "end"):
        ctx.violation("late:" + what, f"{what} ({j} of {len(gs)}) was reported after {len(events)} events: {err!r}")
        return
    ctx.event("defects reported")
