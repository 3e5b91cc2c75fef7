"""P18: time-series recorders hold exactly what was simulated, in the right rows and columns, and do not disturb it."""
import random

import numpy as np
import pandas as pd

from pywr import parameters as P
from pywr import recorders as R
from pywr.recorders._thresholds import NodeThresholdRecorder, StorageThresholdRecorder
from .parcase import Spy, idx366
from .reccase import RB, Recs, agg, over

META = {
    "n": [1500, 20000], "budget": [70, 700],
    "min_events": {"values compared": 100000, "undisturbed runs": 100, "reruns": 200, "frames": 1000, "from a document": 1000, "labels": 500, "zero maximum": 50, "whole frames": 200, "states": 2000,
                   "selection:slices": 20, "selection:user": 20},
    "rule": "distinct: recorder class, its options, kind of node, selection of combinations",
    "assumptions": ["flows, volumes and parameter values as logged by a recorder of the check's own (checked by P05 and P10)", "level and area are those in force during the step, that is of its initial volume",
                    "fullness relative to a curve at exactly 1.0 with a full reservoir may be 0 or 1"],
}


class Log(Spy):
    """Also logs the states of the threshold recorders after each step."""

    def __init__(self, model, states):
        super().__init__(model, flows=True)
        self.states = states
        for r in states:
            self.children.add(r)

    def reset(self):
        super().reset()
        self.state = {r: [] for r in self.states}

    def after(self):
        super().after()
        for r in self.states:
            self.state[r].append(np.array(r.values()))


CMP = {"LT": np.less, "GT": np.greater, "LE": np.less_equal, "GE": np.greater_equal, "EQ": np.equal}


def ratio(a, b, zero):
    """a/b, and `zero` where b is zero."""
    out = np.full(a.shape, float(zero))
    np.divide(a, b, out=out, where=b != 0)
    return out


class G:
    def __init__(self, ctx, b):
        self.ctx, self.rng, self.b, self.m = ctx, ctx.rng, b, b.m
        self.recs = Recs(ctx, b)
        self.states = []

    def key(self, cls, *k):
        self.ctx.key(cls, self.b.how, *k)

    def node(self, names=None):
        return self.rng.choice(names or self.b.simple)

    def flow(self):
        nd = self.node(self.b.flows + ["agn", "agn"])
        o = {}
        if self.rng.random() < .4:
            o["factor"] = self.rng.choice([2.0, .5, -1, 0, 1000])
        f = self.b.flow(nd)
        self.key("flow", sorted(o), nd, self.b.compound)
        self.recs.add(R.NumpyArrayNodeRecorder, dict(node=self.b.n[nd]), o, "flow", lambda spy: f(spy) * o.get("factor", 1.0))

    def supply(self):
        nd = self.node()
        f, mx = self.b.flow(nd), self.b.limit(nd)
        k = self.rng.randrange(3)
        cls = [R.NumpyArrayNodeDeficitRecorder, R.NumpyArrayNodeSuppliedRatioRecorder, R.NumpyArrayNodeCurtailmentRatioRecorder][k]
        self.key(cls.__name__, nd, self.b.compound)

        def want(spy):
            a, b = f(spy), mx(spy)
            self.ctx.event("zero maximum", int((b == 0).sum()))
            return [lambda: b - a, lambda: ratio(a, b, 1), lambda: 1 - ratio(a, b, 1)][k]()
        self.recs.add(cls, dict(node=self.b.n[nd]), {}, "supply", want)

    def cost(self):
        nd = self.node()
        self.key("cost", nd, self.b.compound)
        self.recs.add(R.NumpyArrayNodeCostRecorder, dict(node=self.b.n[nd]), {}, "cost", self.b.cost(nd))

    def volume(self):
        st = self.node(self.b.stores)
        o = {} if self.rng.random() < .5 else {"proportional": self.rng.random() < .7}
        self.key("volume", st, sorted(o.items()))
        self.recs.add(R.NumpyArrayStorageRecorder, dict(node=self.b.n[st]), o, "volume", self.b.pc(st) if o.get("proportional") else self.b.vol(st))

    def normalised(self):
        st = self.node(self.b.stores)
        rng = self.rng
        if rng.random() < .5:
            c = rng.choice([0.0, .2, .5, .75, 1.0])
            p = P.ConstantParameter(self.m, c, name=self.b.name())
        elif rng.random() < .5:
            p = P.MonthlyProfileParameter(self.m, [rng.choice([0, .25, .5, .8, 1.0]) for _ in range(12)], name=self.b.name())
        else:
            p = P.UniformDrawdownProfileParameter(self.m, 1, rng.randint(1, 12), rng.randint(0, 20), name=self.b.name()) if rng.random() < .5 else self.b.par(0, 1)
        pc = self.b.pc(st)
        self.key("normalised", st, type(p).__name__)

        def want(spy):
            v, c = pc(spy), np.array(spy.par[p])
            out = np.where(v < c, ratio(v, c, 0) - 1, ratio(v - c, 1 - c, np.nan))
            return out
        self.recs.add(R.NumpyArrayNormalisedStorageRecorder, dict(node=self.b.n[st], parameter=p), {}, "normalised", want)

    def scale(self):
        if not self.b.scale:
            return
        st, what = self.rng.choice(sorted(self.b.scale))
        cls = R.NumpyArrayLevelRecorder if what == "level" else R.NumpyArrayAreaRecorder
        self.key(what)
        self.recs.add(cls, dict(node=self.b.n[st]), {}, what, self.b.scale[st, what])

    def parameter(self):
        k = self.rng.randrange(4)
        if k == 0:
            p, d = self.b.idx()
            self.key("index")
            self.recs.add(R.NumpyArrayIndexParameterRecorder, dict(parameter=p), {}, "index", lambda spy: d.astype(float))
            return
        p = self.b.par(-9, 20)
        self.key(["", "parameter", "profile", "window"][k], type(p).__name__)
        if k == 1:
            self.recs.add(R.NumpyArrayParameterRecorder, dict(parameter=p), {}, "parameter", lambda spy: np.array(spy.par[p]))
        elif k == 2:
            def want(spy):
                out = np.zeros((366, self.b.S))
                for (_, _, a), row in zip(self.b.cal.steps, spy.par[p]):
                    out[idx366(a)] = row
                return out
            self.recs.add(R.NumpyArrayDailyProfileParameterRecorder, dict(parameter=p), {}, "profile", want)
        else:
            w = self.rng.choice([1, 2, 3, 7, 1000])
            spec, f = agg(self.rng)
            o = {"window": w}
            j = self.rng.randrange(3)
            if j:
                o[["", "temporal_agg_func", "agg_func"][j]] = spec
            else:
                f = lambda v: sum(v) / len(v)

            def want(spy):
                v = np.array(spy.par[p])
                return np.array([over(f, v[max(0, t - w + 1):t + 1], False) for t in range(self.b.T)])
            self.recs.add(R.RollingWindowParameterRecorder, dict(parameter=p), o, "window", want)

    def rolling(self):
        nd = self.node(self.b.flows)
        f = self.b.flow(nd)
        if self.b.cal.delta != "M" and self.rng.random() < .5:
            w = self.rng.randint(1, 4)
            o = {"days": w * self.b.cal.delta + self.rng.choice([0, self.b.cal.delta - 1])}
        else:
            w = self.rng.choice([1, 2, 3, 100])
            o = {"timesteps": w}
        self.key("rolling", sorted(o), w)

        def want(spy):
            v = f(spy)
            return np.array([v[max(0, t - w + 1):t + 1].mean(axis=0) for t in range(self.b.T)])
        self.recs.add(R.RollingMeanFlowNodeRecorder, dict(node=self.b.n[nd]), o, "rolling", want)

    def power(self):
        rng = self.rng
        nd = self.node(self.b.flows)
        f = self.b.flow(nd)
        el = rng.choice([None, self.b.par(0, 60)])
        o = {}
        if rng.random() < .7:
            o["turbine_elevation"] = self.b.number(0, 40)
        for k, v in (("efficiency", .85), ("density", 997.0), ("flow_unit_conversion", 1e3), ("energy_unit_conversion", 1e-3)):
            if rng.random() < .4:
                o[k] = v
        self.key("power", el is None, sorted(o))

        def want(spy):
            t = o.get("turbine_elevation", 0.0)
            head = np.full((self.b.T, self.b.S), t) if el is None else np.array(spy.par[el]) - t
            return np.maximum(head, 0) * f(spy) * o.get("density", 1000) * 9.81 * o.get("efficiency", 1.0) * o.get("flow_unit_conversion", 1.0) * o.get("energy_unit_conversion", 1e-6)
        self.recs.add(R.HydropowerRecorder, dict(node=self.b.n[nd], water_elevation_parameter=el), o, "power", want)

    def state(self):
        rng = self.rng
        st = rng.random() < .5
        nd = self.node(self.b.storages if st else self.b.flows)
        f = self.b.vol(nd) if st else self.b.flow(nd)
        th = float(rng.randint(0, 10))
        pred = rng.choice([None, *CMP])
        cls = StorageThresholdRecorder if st else NodeThresholdRecorder
        self.key("state", cls.__name__, pred)
        r = cls(self.m, self.b.n[nd], th, predicate=pred if pred is None or rng.random() < .7 else pred.lower(), name=f"state{len(self.states)}")
        self.states.append((r, lambda spy: np.where(np.isclose(f(spy), th, rtol=1e-9, atol=1e-9) & (f(spy) != th), np.nan, CMP[pred or "LT"](f(spy), th))))

    def add(self, n):
        for _ in range(n):
            self.rng.choice([self.flow, self.flow, self.supply, self.supply, self.cost, self.volume, self.volume, self.normalised, self.scale, self.parameter, self.parameter, self.rolling,
                             self.power, self.state])()


def case(ctx):
    rng = ctx.rng
    before = rng.getstate()
    kw = dict(nmax=rng.choice([5, 20, 60])) if rng.random() < .9 else dict(nmax=800)
    b = RB(rng, **kw)
    g = G(ctx, b)
    g.add(rng.randint(3, 10))
    ctx.event("selection:" + b.how)
    ctx.sample(dict(steps=b.T, step=b.cal.delta, combinations=b.S, recorders=[type(r).__name__ for r, *_ in g.recs.items]))
    spy = Log(b.m, [r for r, _ in g.states])
    runs = 2 if rng.random() < .25 else 1
    names, labels = b.labels()
    for run in range(runs):
        ctx.event("reruns", run)
        b.m.run()
        frames = {}
        for r, kind, expect, _ in g.recs.items:
            want = expect(spy)
            got = np.array(r.data, dtype=float)
            ctx.event("values compared", want.size)
            if kind == "normalised":
                loose = np.isnan(want)
                ctx.check(np.isin(got[loose], (0, 1)).all(), "normalised-full", f"{r}: full at a curve of 1.0 gives {got[loose]}")
                want[loose] = got[loose]
            ctx.close(got, want, kind + "-data", f"{type(r).__name__} {r.name}", rtol=1e-9, atol=1e-9)
            if hasattr(r, "to_dataframe"):
                df = frames[r.name] = r.to_dataframe()
                ctx.event("frames")
                ctx.check(np.array_equal(df.values, r.data, equal_nan=True), kind + "-frame", f"{r}: frame differs from the data")
                if kind == "profile":
                    rows = list(range(1, 367))
                    ctx.check(list(df.index) == rows, "profile-rows", f"{r}: {list(df.index)[:4]}")
                else:
                    rows = [i.to_timestamp().date() if isinstance(df.index, pd.PeriodIndex) else i.date() for i in df.index]
                    ctx.check(rows == [d for d, _, _ in b.cal.steps], kind + "-dates", lambda: f"{r}: dates {rows[:4]}, expected {b.cal.steps[:4]}")
                cols = [c if isinstance(c, tuple) else (c,) for c in df.columns]
                ctx.event("labels", len(cols))
                ctx.check(list(df.columns.names) == names and cols == labels, kind + "-labels", lambda: f"{r}: {df.columns.names} {cols}, expected {names} {labels}")
        for r, f in g.states:
            want, got = f(spy), np.array(spy.state[r])
            ctx.event("states", want.size)
            got = np.where(np.isnan(want), np.nan, got)
            ctx.close(got, want, "state", f"{type(r).__name__} {r.name}", atol=0)
        if frames and not any(k == "profile" for _, k, _, _ in g.recs.items):
            df = b.m.to_dataframe()
            ctx.event("whole frames")
            ctx.check(df.columns.names[0] == "Recorder" and sorted(set(df.columns.get_level_values(0))) == sorted(frames), "whole-recorders", lambda: f"{df.columns}")
            for k, f in frames.items():
                ctx.check(df[k].equals(f) or np.array_equal(df[k].values, f.values.astype(float), equal_nan=True), "whole-values", f"recorder {k} in the model's frame")
    if rng.random() < .3:
        r2 = random.Random()
        r2.setstate(before)
        kw2 = dict(nmax=r2.choice([5, 20, 60])) if r2.random() < .9 else dict(nmax=800)
        b2 = RB(r2, **kw2)
        s2 = Spy(b2.m, flows=True)
        b2.m.run()
        ctx.event("undisturbed runs")
        ctx.check([n.name for n in s2.ns] == [n.name for n in spy.ns], "same-nodes", "harness: the two systems differ")
        by = dict(zip(s2.ns, spy.ns))
        for n in s2.ns:
            for what in ("flow", "vol1"):
                if n in getattr(s2, what):
                    ctx.check(np.array_equal(getattr(s2, what)[n], getattr(spy, what)[by[n]]), "disturbed", f"{what} of {n.name} differs from the run without recorders")
