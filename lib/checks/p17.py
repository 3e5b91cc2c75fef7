"""P17: compound nodes give the flows of the explicit arrangement of simple nodes their documentation describes."""
import numpy as np

from pywr.core import Scenario
from pywr.domains.groundwater import KeatingAquifer
from pywr.model import Model
from pywr.nodes import AggregatedNode, Input, Link, NodeMeta, Output, Storage
from pywr.parameters import ArrayIndexedParameter, ArrayIndexedScenarioParameter, Parameter
from . import parcase, runcmp

META = {
    "n": [1500, 16000], "budget": [70, 700],
    "min_events": {"steps compared": 8000, "stage:piecewise": 100, "stage:multisplit": 100, "stage:riversplit": 100, "stage:riversplitgauge": 100, "stage:rivergauge": 100,
                   "stage:loss": 100, "stage:delay": 100, "stage:break": 100, "stage:discharge": 60, "stage:reservoir": 100, "stage:keating": 100,
                   "slices in cost order": 500, "splits in proportion": 500, "losses": 500, "delayed flows": 500, "fixed flows": 100},
    "rule": "distinct: kinds of the stages, solver, timestep, number of scenarios, ways of giving the options",
    "assumptions": ["the explicit network is built from Input, Link, Output, Storage and AggregatedNode only; delays, Keating flows and control-curve costs come from independent parameters",
                    "costs are generic so that the least-cost allocation is unique; runs whose flows differ at equal total cost are counted as ties and not compared further"],
}
KINDS = ["piecewise", "multisplit", "riversplit", "riversplitgauge", "rivergauge", "loss", "delay", "break", "discharge", "reservoir", "keating", "river"]
INF = float("inf")
TOL = 1e-5


class V:
    """A constant, or a series per step (and member) in both notations."""

    def __init__(self, c, lo, hi, series=.3, nonzero=False):
        rng = c.rng
        f = lambda: 0.0 if not nonzero and lo <= 0 and rng.random() < .08 else round(rng.uniform(lo, hi), 4)
        self.c = c
        self.kind = "const"
        if rng.random() < series:
            self.kind = "scen" if c.S > 1 and rng.random() < .5 else "array"
        self.data = f() if self.kind == "const" else [f() for _ in range(c.T)] if self.kind == "array" else [[f() for _ in range(c.S)] for _ in range(c.T)]

    def json(self):
        if self.kind == "const":
            return self.data
        if self.kind == "array":
            return {"type": "arrayindexed", "values": self.data}
        return {"type": "arrayindexedscenario", "scenario": "sc", "values": self.data}

    def api(self, m):
        if self.kind == "const":
            return self.data
        if self.kind == "array":
            return ArrayIndexedParameter(m, self.data)
        return ArrayIndexedScenarioParameter(m, m.scenarios["sc"], np.array(self.data))

    def at(self, t, s):
        return self.data if self.kind == "const" else self.data[t] if self.kind == "array" else self.data[t][s]

    def all(self):
        return np.ravel(self.data)


class Delay(Parameter):
    """The outflow of a node some timesteps ago."""

    def __init__(self, model, node, n, initial):
        super().__init__(model)
        self.node, self.n, self.initial = node, n, initial

    def reset(self):
        self.hist = []

    def value(self, ts, si):
        return self.hist[ts.index - self.n][si.global_id] if ts.index >= self.n else self.initial

    def after(self):
        self.hist.append(np.array(self.node.flow))


class Keating(Parameter):
    """Stream flow from the level at the start of the step: sum over the stream levels below it of 2 T C (level - stream level)."""

    def __init__(self, model, node, volumes, levels, stream, trans, coef):
        super().__init__(model)
        self.a = node, volumes, levels, stream, trans, coef

    def value(self, ts, si):
        node, volumes, levels, stream, trans, coef = self.a
        lev = np.interp(node.volume[si.global_id], volumes, levels)
        return sum(2 * t * coef * max(lev - s, 0.0) for s, t in zip(stream, trans))


class CurveCost(Parameter):
    def __init__(self, model, curve, above, below):
        super().__init__(model)
        self.a = curve, above, below

    def value(self, ts, si):
        curve, above, below = self.a
        v = self.node.volume[si.global_id] / self.node.max_volume
        return above if v >= curve else below


class Cfg:
    pass


def cost(c, lo=-3, hi=3):
    return V(c, lo, hi, .15, True)


def stage(c, k):
    """Options of one stage."""
    rng = c.rng
    o = dict(kind=k)
    if k == "piecewise":
        n = rng.randint(1, 4)
        o.update(costs=[cost(c) for _ in range(n)], maxs=[V(c, 0, 8) if i < n - 1 or rng.random() < .5 else None for i in range(n)])
    elif k in ("multisplit", "riversplit"):
        n = rng.randint(1, 3) if k == "multisplit" else 1
        e = rng.randint(1, 2)
        o.update(n=n, extra=e, costs=None, maxs=None, factors=None)
        if k == "riversplit" or rng.random() < .7:
            o["factors"] = [round(rng.uniform(.3, 5), 2) for _ in range(e + 1)]
            if rng.random() < .25:
                o["factors"] = [float(rng.randint(1, 4)) for _ in range(e + 1)]
            if k == "multisplit" and rng.random() < .2 and e == 2:
                o["factors"][rng.randrange(e + 1)] = None
        more = e if rng.random() < .5 else 0
        if rng.random() < .8:
            o["costs"] = [cost(c) for _ in range(n + more)]
        if rng.random() < .6:
            o["maxs"] = [V(c, 2, 12) if i < n - 1 or rng.random() < .2 else None for i in range(n)] + [V(c, 1, 8) if rng.random() < .3 else None for _ in range(more)]
        o["slots"] = rng.choice([None, [f"slot {i}" for i in range(e + 1)], list(range(e, -1, -1))])
    elif k == "riversplitgauge":
        e = rng.randint(1, 2)
        o.update(n=2, extra=e, factors=[round(rng.uniform(.3, 5), 2) for _ in range(e + 1)], mrf=V(c, 0, 8), mrf_cost=cost(c, -20, 0), cost=cost(c))
        o["slots"] = rng.choice([None, [f"slot {i}" for i in range(e + 1)]])
    elif k == "rivergauge":
        o.update(mrf=V(c, 0, 8), mrf_cost=cost(c, -20, 0), cost=cost(c))
    elif k == "loss":
        t = rng.choice(["net", "net", "gross", None])
        if t == "gross":
            f = rng.choice([0.0, 1.0, round(rng.uniform(.01, .95), 3), round(rng.uniform(.01, .95), 3)])
        else:
            f = rng.choice([0.0, 1.0, round(rng.uniform(.01, 2), 3), round(rng.uniform(.01, 2), 3)])
        o.update(type=t, factor=f, cost=cost(c), max=V(c, 0, 15) if rng.random() < .5 else None, min=V(c, 0, 1) if rng.random() < .3 and f != 1.0 else None)
        if t != "gross" and rng.random() < .3:
            o["factor"] = V(c, 0, 1.5, 1.0)
    elif k == "delay":
        n = rng.randint(1, 5)
        o.update(n=n, initial=rng.choice([0.0, round(rng.uniform(0, 5), 3), None]), days=rng.random() < .4)
    elif k == "break":
        o.update(cost=cost(c), max=V(c, 0, 15) if rng.random() < .6 else None, min=V(c, 0, 1) if rng.random() < .3 else None)
    elif k == "discharge":
        o.update(flow=V(c, 0, 6, .7))
    elif k == "reservoir":
        o.update(max=float(rng.choice([20, 50, 80])), pc=round(rng.random(), 3), curve=rng.choice([None, round(rng.uniform(.2, .9), 3)]), above=round(rng.uniform(-.5, .4), 3),
                 below=round(rng.uniform(-20, -6), 3), minv=rng.choice([0.0, 3.0]))
    elif k == "keating":
        n = rng.randint(1, 2)
        L = sorted(rng.sample(range(0, 60), rng.randint(2, 4)))
        levels = [float(x) for x in L]
        p = rng.randint(1, 3)
        o.update(levels=levels, streams=[[round(rng.uniform(L[0] - 3, L[-1]), 2) for _ in range(p)] for _ in range(n)], trans=[round(rng.uniform(.01, .4), 3) for _ in range(p)],
                 coef=round(rng.uniform(.2, 1), 3), add=rng.randint(0, 2), recharge=V(c, 0, 10, .8), cost=round(rng.uniform(-.5, .5), 3))
        if rng.random() < .5:
            v = sorted({round(rng.uniform(0, 300), 2) for _ in range(len(L))})
            if len(v) < len(L):
                v = [50.0 * i for i in range(len(L))]
            o["volumes"], o["how"] = v, "volumes"
        else:
            area = round(rng.uniform(1000, 10000), 1)
            st = [round(rng.uniform(.05, 1.5), 3) for _ in L[1:]]
            v = [0.0]
            for a, b, s in zip(L, L[1:], st):
                v.append(v[-1] + area * s * (b - a) / 1000)  # a level in metres over an area in m2 gives m3; stored volumes are in Ml
            o.update(volumes=v, how="area", area=area, storativity=st)
        o["initial"] = round(rng.uniform(levels[0] + .4 * (levels[-1] - levels[0]), levels[-1]), 2)
    return o


def common(c, m, n):
    """Junctions, sources, spills and demands, in both networks."""
    rng = c
    g = {}
    for j in range(n + 1):
        g[f"j{j}"] = Link(m, f"j{j}")
        sp = Output(m, f"spill{j}", cost=c.spill[j])
        g[f"j{j}"].connect(sp)
        if c.demand[j]:
            d = Output(m, f"demand{j}", max_flow=c.demand[j][0].api(m), cost=c.demand[j][1])
            g[f"j{j}"].connect(d)
    a = Input(m, "a", max_flow=c.a.api(m))
    a.min_flow = a.max_flow
    b = Input(m, "b", max_flow=c.b.api(m), cost=c.bcost)
    a.connect(g["j0"])
    b.connect(g["j0"])
    if c.store:
        s = Storage(m, "store", max_volume=c.store[0], initial_volume=c.store[1], cost=c.store[2])
        b.connect(s)
        s.connect(g["j0"])
    for j, x in enumerate(c.bypass):
        if x is not None:
            l = Link(m, f"bypass{j}", cost=x, max_flow=4.0)
            g[f"j{j}"].connect(l)
            l.connect(g[f"j{j + 1}"])
    return g


def extras(c, m, j, k):
    """The consumers of the extra outlets of stage j."""
    out = []
    for i in range(k):
        mx, cs = c.extra[j][i]
        out.append(Output(m, f"extra{j}-{i}", max_flow=mx.api(m), cost=cs))
    return out


# ----------------------------------------------------------------------------- compound form
def opt(d, **kw):
    d.update({k: v for k, v in kw.items() if v is not None})
    return d


def compound(c, m, j, o):
    """The stage as its compound node, by API or from a document entry; returns (inlet connect function, names to compare)."""
    rng, k, name = c.rng, o["kind"], f"X{j}"
    js = c.json
    val = (lambda v: None if v is None else v.json() if isinstance(v, V) else v) if js else (lambda v: None if v is None else v.api(m) if isinstance(v, V) else v)
    d = {"name": name}
    if k == "piecewise":
        t = "PiecewiseLink"
        opt(d, nsteps=len(o["costs"]), costs=[val(x) for x in o["costs"]], max_flows=[val(x) for x in o["maxs"]])
    elif k == "multisplit":
        t = "MultiSplitLink"
        opt(d, nsteps=o["n"], extra_slots=o["extra"], factors=o["factors"], slot_names=o["slots"])
        if o["costs"]:
            d["costs"] = [val(x) for x in o["costs"]]
        if o["maxs"]:
            d["max_flows"] = [val(x) for x in o["maxs"]]
        if o["extra"] == 1 and c.tick(j):
            d.pop("extra_slots")
    elif k == "riversplit":
        t = "RiverSplit"
        opt(d, factors=o["factors"], slot_names=o["slots"])
        if o["costs"]:
            d["costs"] = [val(x) for x in o["costs"]]
        if o["maxs"]:
            d["max_flows"] = [val(x) for x in o["maxs"]]
    elif k == "riversplitgauge":
        t = "RiverSplitWithGauge"
        opt(d, factors=o["factors"], slot_names=o["slots"], mrf=val(o["mrf"]), mrf_cost=val(o["mrf_cost"]), cost=val(o["cost"]))
    elif k == "rivergauge":
        t = "RiverGauge"
        opt(d, mrf=val(o["mrf"]), mrf_cost=val(o["mrf_cost"]), cost=val(o["cost"]))
    elif k == "loss":
        t = "LossLink"
        opt(d, loss_factor=val(o["factor"]), loss_factor_type=o["type"], cost=val(o["cost"]), max_flow=val(o["max"]), min_flow=val(o["min"]))
    elif k == "delay":
        t = "DelayNode"
        opt(d, initial_flow=o["initial"])
        if o["days"]:
            d["days"] = o["n"] * c.delta
        else:
            d["timesteps"] = o["n"]
    elif k == "break":
        t = "BreakLink"
        opt(d, cost=val(o["cost"]), max_flow=val(o["max"]), min_flow=val(o["min"]))
    elif k == "discharge":
        t = "Discharge"
        opt(d, flow=val(o["flow"]))
    elif k == "river":
        t = "River"
    elif k == "reservoir":
        t = "Reservoir"
        opt(d, max_volume=o["max"], initial_volume_pc=o["pc"], min_volume=o["minv"], cost=o["below"], above_curve_cost=o["above"], control_curve=o["curve"])
    elif k == "keating":
        t = "KeatingAquifer"
        opt(d, num_streams=len(o["streams"]), num_additional_inputs=o["add"], stream_flow_levels=o["streams"], transmissivity=o["trans"], coefficient=o["coef"], levels=o["levels"],
            cost=o["cost"])
        if o["how"] == "volumes":
            d["volumes"] = o["volumes"]
        else:
            d.update(area=o["area"], storativity=o["storativity"])
    if js and k != "keating":
        node = NodeMeta.node_registry[t.lower()].pre_load(m, d)
        node.finalise_load()
    else:
        from pywr import nodes
        from pywr.domains import river
        cls = getattr(nodes, t, None) or getattr(river, t, None) or KeatingAquifer
        nm = d.pop("name")
        if t in ("PiecewiseLink", "MultiSplitLink"):
            ns = d.pop("nsteps")
            node = cls(m, ns, name=nm, **d)
        else:
            node = cls(m, name=nm, **d)
    return node


def place_compound(c, m, g, j, o):
    k = o["kind"]
    x = compound(c, m, j, o)
    a, b = g[f"j{j}"], g[f"j{j + 1}"]
    if k in ("multisplit", "riversplit", "riversplitgauge"):
        slots = o["slots"] or list(range(o["extra"] + 1))
        a.connect(x)
        x.connect(b, from_slot=slots[0])
        for s, e in zip(slots[1:], extras(c, m, j, o["extra"])):
            x.connect(e, from_slot=s)
    elif k == "keating":
        x.initial_level = o["initial"]
        r = Input(m, f"recharge{j}", max_flow=o["recharge"].api(m))
        r.connect(x)
        for i in range(len(o["streams"])):
            x.connect(b, from_slot=i)
        for i, e in enumerate(extras(c, m, j, o["add"])):
            x.connect(e, from_slot=len(o["streams"]) + i)
        l = Link(m, f"through{j}", cost=.123)
        a.connect(l)
        l.connect(b)
    else:
        a.connect(x)
        x.connect(b)
    return x


# ----------------------------------------------------------------------------- explicit form
def place_explicit(c, m, g, j, o):
    """The stage as simple nodes; returns {name: function of the Spy giving the flows that the compound node must report}."""
    k = o["kind"]
    a, b = g[f"j{j}"], g[f"j{j + 1}"]
    val = lambda v, none=None: none if v is None else v.api(m) if isinstance(v, V) else v
    if k in ("river",):
        x = Link(m, f"E{j}")
        a.connect(x)
        x.connect(b)
        return dict(flow=[x])
    if k in ("piecewise", "rivergauge"):
        costs, maxs = (o["costs"], o["maxs"]) if k == "piecewise" else ([o["mrf_cost"], o["cost"]], [o["mrf"], None])
        i, u = Link(m, f"E{j} in"), Link(m, f"E{j} out")
        a.connect(i)
        u.connect(b)
        sl = []
        for n, (cs, mx) in enumerate(zip(costs, maxs)):
            l = Link(m, f"E{j} {n}", cost=val(cs), max_flow=val(mx))
            i.connect(l)
            l.connect(u)
            sl.append(l)
        return dict(flow=sl, slices=[[l] for l in sl])
    if k in ("multisplit", "riversplit", "riversplitgauge"):
        n, e = o["n"], o["extra"]
        if k == "riversplitgauge":
            costs, maxs = [o["mrf_cost"], o["cost"]], [o["mrf"], None]
        else:
            costs, maxs = o["costs"] or [0.0] * n, o["maxs"] or [None] * n
        costs = list(costs) + [0.0] * (n + e - len(costs))
        maxs = list(maxs) + [None] * (n + e - len(maxs))
        i, u = Link(m, f"E{j} in"), Link(m, f"E{j} out")
        a.connect(i)
        u.connect(b)
        sl = []
        for q in range(n + e):
            l = Link(m, f"E{j} {q}", cost=val(costs[q]), max_flow=val(maxs[q]))
            i.connect(l)
            l.connect(u)
            sl.append(l)
        for q, x in enumerate(extras(c, m, j, e)):
            w = Link(m, f"E{j} extra {q}")
            sl[n + q].connect(w)
            w.connect(x)
        if o["factors"]:
            use = [(f, l) for f, l in zip(o["factors"], sl[n - 1:]) if f is not None]
            ag = AggregatedNode(m, f"E{j} ratio", [l for _, l in use])
            ag.factors = [f for f, _ in use]
        return dict(flow=sl, slices=[[l] for l in sl])
    if k == "loss":
        gr, nt, lo = Link(m, f"E{j} gross"), Link(m, f"E{j} net", cost=val(o["cost"]), max_flow=val(o["max"]), min_flow=val(o["min"], 0.0)), Output(m, f"E{j} loss")
        a.connect(gr)
        gr.connect(nt)
        gr.connect(lo)
        nt.connect(b)
        f = o["factor"]
        if not isinstance(f, V) and f == 0:
            lo.max_flow = 0.0
        elif o["type"] == "gross" and f == 1.0:
            nt.max_flow = 0.0
        else:
            ag = AggregatedNode(m, f"E{j} ratio", [lo, nt])
            ag.factors = [val(f), 1.0] if o["type"] != "gross" else [f, 1 - f]
        return dict(flow=[nt], loss=lo)
    if k == "delay":
        u = Output(m, f"E{j} out")
        i = Input(m, f"E{j} in")
        i.min_flow = i.max_flow = Delay(m, u, o["n"], o["initial"] or 0.0)
        a.connect(u)
        i.connect(b)
        return dict(flow=[i])
    if k == "break":
        x = Link(m, f"E{j}", cost=val(o["cost"]), max_flow=val(o["max"]), min_flow=val(o["min"], 0.0))
        a.connect(x)
        x.connect(b)
        return dict(flow=[x])
    if k == "discharge":
        x, i = Link(m, f"E{j}"), Input(m, f"E{j} flow", max_flow=val(o["flow"]))
        i.min_flow = i.max_flow
        a.connect(x)
        i.connect(x)
        x.connect(b)
        return dict()
    if k == "reservoir":
        cc = CurveCost(m, 1.0 if o["curve"] is None else o["curve"], o["above"], o["below"])
        x = Storage(m, f"E{j}", max_volume=o["max"], min_volume=o["minv"], initial_volume=o["pc"] * o["max"], cost=cc)
        cc.node = x
        a.connect(x)
        x.connect(b)
        return dict(volume=x)
    if k == "keating":
        n = len(o["streams"])
        x = Storage(m, f"E{j}", inputs=n + o["add"], max_volume=o["volumes"][-1], min_volume=o["volumes"][0], initial_volume=float(np.interp(o["initial"], o["levels"], o["volumes"])),
                    cost=o["cost"])
        r = Input(m, f"recharge{j}", max_flow=o["recharge"].api(m))
        r.connect(x)
        for q in range(n):
            x.inputs[q].min_flow = x.inputs[q].max_flow = Keating(m, x, o["volumes"], o["levels"], o["streams"][q], o["trans"], o["coef"])
            x.connect(b, from_slot=q)
        for q, e in enumerate(extras(c, m, j, o["add"])):
            x.connect(e, from_slot=n + q)
        l = Link(m, f"through{j}", cost=.123)
        a.connect(l)
        l.connect(b)
        return dict(volume=x, outlets=x.inputs)
    raise KeyError(k)


# ----------------------------------------------------------------------------- comparison
def config(ctx):
    rng = ctx.rng
    c = Cfg()
    c.rng = rng
    c.T = rng.randint(3, 14)
    c.delta = rng.choice([1, 1, 1, 2, 7])
    c.S = rng.choice([1, 1, 2, 3])
    ks = [KINDS[ctx.i % len(KINDS)]] + [rng.choice(KINDS) for _ in range(rng.randint(0, 2))]
    rng.shuffle(ks)
    n = len(ks)
    c.ks = ks
    u = lambda lo, hi: round(rng.uniform(lo, hi), 4)
    c.spill = [u(.05, 1.5) for _ in range(n + 1)]
    c.demand = [(V(c, 0, 10, .5), u(-40, -4)) if rng.random() < .5 or j == n else None for j in range(n + 1)]
    c.a, c.b, c.bcost = V(c, 0, 8, .8), V(c, 0, 20, .5), u(.5, 8)
    c.store = (50.0, round(rng.uniform(0, 50), 2), u(-3, -.2)) if rng.random() < .4 else None
    c.bypass = [u(.5, 4) if rng.random() < .25 else None for _ in range(n)]
    c.extra = [[(V(c, 0, 9, .4), u(-40, 2)) for _ in range(3)] for _ in range(n)]
    ticks = [rng.random() < .5 for _ in range(n)]
    c.tick = lambda j: ticks[j]
    c.opts = [stage(c, k) for k in ks]
    c.json = rng.random() < .5
    solvers = ["glpk", "glpk-edge", "lpsolve"]
    if "discharge" in ks:
        solvers.remove("glpk-edge")
    if any(o["kind"] == "loss" and isinstance(o["factor"], V) for o in c.opts):
        solvers.remove("lpsolve")
    c.solver = rng.choice(solvers)
    return c


def model(c, form):
    m = Model(solver=c.solver)
    import datetime
    s = datetime.date(2015, 12, 25)
    m.timestepper.start, m.timestepper.end, m.timestepper.delta = str(s), str(s + datetime.timedelta(days=c.delta * (c.T - 1))), c.delta
    if c.S > 1:
        Scenario(m, "sc", size=c.S)
    g = common(c, m, len(c.ks))
    parts = [form(c, m, g, j, o) for j, o in enumerate(c.opts)]
    return m, parcase.Spy(m, flows=True), parts


def run(m):
    try:
        m.run()
    except runcmp.ERRORS as e:
        return e


class Costs(parcase.Recorder):
    """The cost of every node in every step."""

    def __init__(self, model):
        super().__init__(model, name="pv-costs")

    def reset(self):
        self.obj = []

    def after(self):
        m = self.model
        v = np.zeros(len(m.scenarios.combinations))
        for n in m.graph.nodes():
            sub = n.parent is not None and not isinstance(n.parent, Storage) or type(n).__name__ in ("Input", "Output", "Link", "StorageInput", "StorageOutput", "Discharge", "River")
            if sub and hasattr(n, "get_cost"):
                for si in m.scenarios.combinations:
                    v[si.global_id] += n.get_cost(si) * n.flow[si.global_id]
        self.obj.append(v)


def case(ctx):
    c = config(ctx)
    for k in c.ks:
        ctx.event("stage:" + k)
    ctx.key(tuple(c.ks), c.solver, c.delta, c.S, c.json)
    ctx.event("solver:" + c.solver)
    mA, A, xs = model(c, place_compound)
    mB, B, es = model(c, place_explicit)
    cA, cB = Costs(mA), Costs(mB)
    eA, eB = run(mA), run(mB)
    if (eA is None) != (eB is None):
        e = eA or eB
        if numerical(e):
            ctx.event("numerical failures")
            return
        ctx.violation("error", f"{c.ks} with {c.solver}: the network with compound nodes {'fails: ' + repr(eA) if eA else 'runs'}; the explicit one {'fails: ' + repr(eB) if eB else 'runs'}")
        return
    if eA is not None:
        ctx.event("infeasible in both")
        if type(eA) is not type(eB):
            ctx.violation("error", f"{c.ks} with {c.solver}: {eA!r} with compound nodes, {eB!r} without")
        return
    ctx.sample(dict(stages=c.ks, solver=c.solver, steps=c.T, scenarios=c.S, delta=c.delta))
    fa = {n.name: v for n, v in A.flow.items()}
    fb = {n.name: v for n, v in B.flow.items()}
    shared = [n.name for n in mA.graph.nodes() if n.name in fb and n.parent is None and n.name[0] in "jsdabert"]
    va = {n: v for n, v in A.vol1.items()}
    for t in range(c.T):
        for s in range(c.S):
            oa, ob = cA.obj[t][s], cB.obj[t][s]
            if abs(oa - ob) > TOL * max(1, abs(oa)):
                ctx.violation("objective:" + "+".join(sorted(set(c.ks))), f"{c.ks} with {c.solver}, step {t}, scenario {s}: total cost {oa} with compound nodes, {ob} for the explicit network; {show(c)}")
                return
            pairs = [(n, fa[n][t][s], fb[n][t][s]) for n in shared]
            for j, (x, e) in enumerate(zip(xs, es)):
                if "flow" in e:
                    pairs.append((f"{c.ks[j]} X{j}", A.flow[x][t][s], sum(B.flow[l][t][s] for l in e["flow"])))
                for q, ls in enumerate(e.get("slices", [])):
                    pairs.append((f"{c.ks[j]} X{j} slice {q}", A.flow[x.sublinks[q]][t][s], sum(B.flow[l][t][s] for l in ls)))
                if "loss" in e:
                    pairs.append((f"loss of X{j}", A.flow[x.output][t][s], B.flow[e["loss"]][t][s]))
                if "volume" in e:
                    pairs.append((f"volume of X{j}", A.vol1[x][t][s], B.vol1[e["volume"]][t][s]))
                    pairs.append((f"net flow of X{j}", A.flow[x][t][s], B.flow[e["volume"]][t][s]))
                for q, l in enumerate(e.get("outlets", [])):
                    pairs.append((f"outlet {q} of X{j}", A.flow[x.inputs[q]][t][s], B.flow[l][t][s]))
            ctx.event("steps compared")
            bad = [(n, a, b) for n, a, b in pairs if abs(a - b) > TOL * max(1, abs(b))]
            inv = [y for j, (x, o) in enumerate(zip(xs, c.opts)) for y in invariants(ctx, c, A, x, o, t, s)]
            for k, msg in inv:
                ctx.violation(k, f"{c.ks} with {c.solver}, step {t}, scenario {s}: {msg}")
            if inv:
                return
            for j, e in enumerate(es):
                if "volume" in e and {n for n, _, _ in bad} & {f"volume of X{j}"} and not {n for n, _, _ in bad} & {f"net flow of X{j}"}:
                    ctx.violation("volume", f"{c.ks} with {c.solver}, step {t}, scenario {s}: the volume of X{j} differs at equal net flows: {bad}")
                    return
            if bad:
                # the same total cost: more than one best allocation
                ctx.event("ties")
                ctx.counters["tie:" + bad[0][0].split(" ")[0]] += 1
                return


def numerical(e):
    return "undefined" in str(e) or "Retry" in str(e)


def show(c):
    return {k: ([y.data if isinstance(y, V) else y for y in v] if isinstance(v, list) else v.data if isinstance(v, V) else v) for o in c.opts for k, v in o.items()}


def invariants(ctx, c, A, x, o, t, s):
    """What the documentation says of the stage's own flows in this step."""
    k = o["kind"]
    f = lambda n: A.flow[n][t][s]
    if k in ("piecewise", "rivergauge", "multisplit", "riversplit", "riversplitgauge"):
        tot = sum(f(l) for l in x.sublinks)
        if abs(f(x) - tot) > TOL or abs(f(x.output) - tot) > TOL:
            yield "slices-sum", f"{x.name} reports {f(x)}, its slices carry {tot}, its inlet {f(x.output)}"
        if k in ("piecewise", "rivergauge"):
            costs, maxs = (o["costs"], o["maxs"]) if k == "piecewise" else ([o["mrf_cost"], o["cost"]], [o["mrf"], None])
            lim = [INF if m is None else m.at(t, s) for m in maxs]
            cs = [q.at(t, s) for q in costs]
            for i, a in enumerate(x.sublinks):
                if f(a) > lim[i] + TOL:
                    yield "slice-limit", f"slice {i} of {x.name} carries {f(a)} above its limit {lim[i]}"
                for q in range(len(cs)):
                    if cs[q] < cs[i] - 1e-6 and f(a) > TOL:
                        ctx.counters["slices in cost order"] += 1
                        if f(x.sublinks[q]) < lim[q] - TOL:
                            yield "slice-order", f"slice {i} of {x.name} (cost {cs[i]}) carries {f(a)} while slice {q} (cost {cs[q]}) carries {f(x.sublinks[q])} of {lim[q]}"
            if abs(f(x.input) - tot) > TOL:
                yield "slices-sum", f"{x.name} lets out {f(x.input)} of {tot}"
        else:
            if o["factors"]:
                use = [(r, l) for r, l in zip(o["factors"], x.sublinks[o["n"] - 1:]) if r is not None]
                for r, l in use[1:]:
                    ctx.counters["splits in proportion"] += 1
                    if abs(f(l) * use[0][0] - f(use[0][1]) * r) > TOL * max(1, r * f(use[0][1])):
                        yield "split-ratio", f"{x.name} with factors {o['factors']} carries {[f(z) for _, z in use]}"
            for q in range(o["extra"]):
                ex = f(x._extra_inputs[q])
                if ex > f(x.sublinks[o["n"] + q]) + TOL or ex < -TOL:
                    yield "split-outlet", f"outlet {q + 1} of {x.name} gives {ex}, its share is {f(x.sublinks[o['n'] + q])}"
            if abs(f(x.input) + sum(f(z) for z in x._extra_inputs) - tot) > TOL * max(1, tot):
                yield "slices-sum", f"{x.name} lets out {f(x.input)} and {[f(z) for z in x._extra_inputs]} of {tot}"
    elif k == "loss":
        net, loss, gross = f(x.net), f(x.output), f(x.gross)
        fac = o["factor"].at(t, s) if isinstance(o["factor"], V) else o["factor"]
        want = fac * gross if o["type"] == "gross" else fac * net
        ctx.counters["losses"] += 1
        if abs(loss - want) > TOL * max(1, want) or abs(gross - net - loss) > TOL or abs(f(x) - net) > TOL:
            yield "loss", f"{x.name} ({o['type']} factor {fac}): gross {gross}, net {net}, loss {loss}, reported {f(x)}"
    elif k == "delay":
        want = A.flow[x.output][t - o["n"]][s] if t >= o["n"] else (o["initial"] or 0.0)
        ctx.counters["delayed flows"] += 1
        if abs(f(x.input) - want) > TOL or abs(f(x) - want) > TOL:
            yield "delay", f"{x.name} lets out {f(x.input)} (reported {f(x)}), {o['n']} steps ago {want} entered"
    elif k == "break":
        if abs(f(x) - f(x.link)) > TOL or abs(A.vol1[x.storage][t][s]) > TOL or abs(f(x.storage.outputs[0]) - f(x.link)) > TOL:
            yield "break", f"{x.name} reports {f(x)}, its link {f(x.link)}, stored {A.vol1[x.storage][t][s]}"
    elif k == "discharge":
        ctx.counters["fixed flows"] += 1
        if abs(f(x) - o["flow"].at(t, s)) > TOL:
            yield "discharge", f"{x.name} gives {f(x)}, its flow is {o['flow'].at(t, s)}"
