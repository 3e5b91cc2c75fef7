"""Shared by the recorder checks: systems with every kind of recorded quantity, a log to compare with, and own definitions of the aggregation functions."""
import itertools
import math

import numpy as np

from pywr import nodes as N
from pywr import parameters as P
from pywr.parameters import IndexParameter
from pywr.recorders import load_recorder
from .parcase import Bench, Spy


class Series(IndexParameter):
    """Whole numbers given per step and combination."""

    def __init__(self, model, data, **kw):
        super().__init__(model, **kw)
        self.data = data

    def index(self, ts, si):
        return int(self.data[ts.index][si.global_id])

    def value(self, ts, si):
        return float(self.data[ts.index][si.global_id])


class Values(P.Parameter):
    def __init__(self, model, data, **kw):
        super().__init__(model, **kw)
        self.data = data

    def value(self, ts, si):
        return float(self.data[ts.index][si.global_id])


class RB(Bench):
    """A Bench with compound nodes, varying costs, levels, areas, and a selection of the scenario combinations."""

    def __init__(self, rng, **kw):
        super().__init__(rng, **kw)
        m = self.m
        self.ens = {}
        self.select()
        self.np = 0
        # a chain with a compound node
        i = N.Input(m, "xin", max_flow=self.series(P.ArrayIndexedScenarioParameter, 0, 9))
        o = N.Output(m, "xout", max_flow=self.series(P.ArrayIndexedScenarioParameter, 0, 8), cost=self.par(-9, -1) if rng.random() < .5 else -10)
        k = rng.choice(["loss", "break", "piecewise", "delay", "link"])
        self.inner = None
        lim = rng.choice([None, 5.0, self.series(P.ArrayIndexedScenarioParameter, 0, 9)])
        kw = {} if lim is None else dict(max_flow=lim)
        if rng.random() < .5:
            kw["cost"] = self.par(-2, 2)
        if k == "loss":
            x = N.LossLink(m, "x", loss_factor=rng.choice([0, .25, .5]), **kw)
            self.inner = x.net
        elif k == "break":
            x = N.BreakLink(m, "x", **kw)
            self.inner = x.link
        elif k == "piecewise":
            x = N.PiecewiseLink(m, 2, name="x", max_flows=[2.0, None], costs=[-1.0, 1.0])
        elif k == "delay":
            x = N.DelayNode(m, "x", timesteps=rng.randint(1, 2))
        else:
            x = N.Link(m, "x", **kw)
        i.connect(x)
        x.connect(o)
        if k == "delay":
            spill = N.Output(m, "xspill")
            x.connect(spill)
            self.n["xspill"] = spill
        self.compound = k
        for q in (i, o, x):
            self.n[q.name] = q
        if rng.random() < .5:
            self.n["lk0"].cost = self.par(-2, 2)
        self.scale = {}
        for st in self.storages:
            for a in ("level", "area"):
                s = self.n[st]
                r = rng.random()
                if r < .3:
                    mx = self.max(st)
                    pts = sorted({0.0, float(mx), *[float(rng.randint(0, int(mx))) for _ in range(2)]})
                    vals = sorted(self.number(0, 50) for _ in pts)
                    setattr(s, a, P.InterpolatedVolumeParameter(m, s, pts, vals))
                    self.scale[st, a] = lambda spy, s=s, pts=pts, vals=vals: np.interp(np.array(spy.vol0[s]), pts, vals)
                elif r < .5:
                    c = self.number(1, 50)
                    setattr(s, a, c)
                    self.scale[st, a] = lambda spy, c=c: np.full((self.T, self.S), c)
                elif r < .7:
                    p = self.par(0, 50)
                    setattr(s, a, p)
                    self.scale[st, a] = lambda spy, p=p: np.array(spy.par[p])
        self.simple = [n for n in self.n if n not in self.stores and n != "agn" and (n != "x" or self.compound in ("loss", "break", "link"))]
        self.flows = [n for n in self.n if n not in self.stores] + self.storages

    def select(self):
        """All combinations, slices of them or a list of them; names for the members."""
        rng, m = self.rng, self.m
        ss = m.scenarios.scenarios
        self.combos = list(itertools.product(*[range(s.size) for s in ss])) or [()]
        self.how = "all"
        if ss and rng.random() < .4:
            if rng.random() < .5:
                self.how = "user"
                self.combos = [rng.choice(self.combos) for _ in range(rng.randint(1, 4))]
                m.scenarios.user_combinations = [list(c) for c in self.combos]
            else:
                self.how = "slices"
                rs = []
                for s in ss:
                    if rng.random() < .7:
                        a = rng.randrange(s.size)
                        z = rng.randint(a + 1, s.size)
                        q = rng.choice([None, 1, 2])
                        if a == 0 and rng.random() < .4:
                            a = None
                        if z == s.size and rng.random() < .4:
                            z = None
                        elif rng.random() < .2 and z < s.size:
                            z -= s.size
                        s.slice = slice(a, z, q)
                        rs.append(range(s.size)[s.slice])
                    else:
                        rs.append(range(s.size))
                self.combos = list(itertools.product(*rs))
        for s in ss:
            if rng.random() < .3:
                self.ens[s.name] = s.ensemble_names = [f"member {c}" for c in "abcd"[:s.size]]
        self.mem, self.S = self.combos, len(self.combos)

    def labels(self):
        ss = self.m.scenarios.scenarios
        if not ss:
            return [""], [(0,)]
        return [s.name for s in ss], [tuple(self.ens[s.name][i] if s.name in self.ens else i for s, i in zip(ss, c)) for c in self.combos]

    def max(self, st):
        v = self.n[st].max_volume
        return v.get_double_variables()[0] if isinstance(v, P.Parameter) else v

    def name(self):
        self.np += 1
        return f"p{self.np}"

    def par(self, lo, hi):
        """Some named parameter."""
        rng, m = self.rng, self.m
        k = rng.randrange(4)
        if k == 0:
            return P.ConstantParameter(m, self.number(lo, hi), name=self.name())
        if k == 1 and m.scenarios.scenarios:
            s = rng.choice(m.scenarios.scenarios)
            return P.ConstantScenarioParameter(m, s, [self.number(lo, hi) for _ in range(s.size)], name=self.name())
        if k == 2:
            return P.MonthlyProfileParameter(m, [self.number(lo, hi) for _ in range(12)], name=self.name())
        p = self.series(P.ArrayIndexedScenarioParameter, lo, hi)
        p.name = self.name()
        return p

    def idx(self, k=None, scale=1):
        """An index parameter with a series of its own, in runs."""
        rng = self.rng
        hi = rng.choice([1, 1, 3])
        stay = rng.choice([0, .5, .9])
        d = np.zeros((self.T, self.S), int)
        for s in range(self.S):
            v = rng.randint(0, hi)
            for t in range(self.T):
                if rng.random() >= stay:
                    v = rng.randint(0, hi)
                d[t, s] = v * scale
        return Series(self.m, d, name=self.name()), d

    def limit(self, nd):
        """The maximum flow of a node."""
        n = self.n[nd]
        v = (self.inner if nd == "x" and self.inner is not None else n).max_flow
        return self.of(v)

    def cost(self, nd):
        n = self.n[nd]
        return self.of((self.inner if nd == "x" and self.inner is not None else n).cost)

    def of(self, v):
        if isinstance(v, P.Parameter):
            return lambda spy: np.array(spy.par[v])
        return lambda spy: np.full((self.T, self.S), 0.0 if v is None else float(v))

    def flow(self, nd):
        return lambda spy: np.array(spy.flow[self.n[nd]])

    def vol(self, nd):
        return lambda spy: np.array(spy.vol1[self.n[nd]])

    def pc(self, nd):
        """Fullness at the end of the step."""
        if nd == "agst":
            tot = sum(self.max(s) for s in self.storages)
            return lambda spy: sum(np.array(spy.vol1[self.n[s]]) for s in self.storages) / tot
        mx = 200.0 if nd == "vst" else self.max(nd)
        return lambda spy: np.array(spy.vol1[self.n[nd]]) / mx


# ----------------------------------------------------------------------------- aggregation
def pct(v, q):
    """Linear interpolation between the order statistics."""
    v = sorted(v)
    if any(math.isnan(x) for x in v):
        return math.nan
    h = (len(v) - 1) * q / 100
    a = min(int(math.floor(h)), len(v) - 1)
    b = min(a + 1, len(v) - 1)
    return v[a] + (h - a) * (v[b] - v[a])


def score(v, x, kind="rank"):
    n = len(v)
    if any(math.isnan(y) for y in v):
        return math.nan
    lt, eq = sum(y < x for y in v), sum(y == x for y in v)
    strict, weak = 100.0 * lt / n, 100.0 * (lt + eq) / n
    if kind == "strict":
        return strict
    if kind == "weak":
        return weak
    if kind == "mean":
        return (strict + weak) / 2
    return (100.0 * (lt + .5 * (eq + 1)) / n) if eq else strict


def spread(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def tenth(a, axis=None):
    return np.sum(a, axis=axis) / 10


def nanall(f):
    def g(v):
        v = [float(x) for x in v]
        return math.nan if any(math.isnan(x) for x in v) else f(v)
    return g


def agg(rng, calls=True, exact=True):
    """(function as given to the recorder, own version over a list); without `exact` none that rounding errors upset."""
    k = rng.randrange(10 if calls else 7)
    if not exact and k in (6, 8):
        k = 3
    if k >= 7:
        if k == 7:
            q = rng.choice([0, 5, 25, 50, 95, 100, 33.3])
            return rng.choice([{"func": "percentile", "args": [q]}, {"func": "percentile", "args": [q], "kwargs": {}}, {"func": "percentile", "kwargs": {"q": q}}]), lambda v: pct(v, q)
        if k == 8:
            x, kind = float(rng.randint(0, 8)), rng.choice(["rank", "weak", "strict", "mean"])
            return {"func": "percentileofscore", "kwargs": {"score": x, "kind": kind}}, lambda v: score(v, x, kind)
        return rng.choice([(spread, nanall(lambda v: max(v) - min(v))), (tenth, nanall(lambda v: math.fsum(v) / 10))])
    name, f = [("sum", math.fsum), ("min", min), ("max", max), ("mean", lambda v: math.fsum(v) / len(v)), ("median", lambda v: pct(v, 50)), ("product", math.prod),
               ("count_nonzero", None)][k]
    if name == "count_nonzero":
        return name, lambda v: float(sum(1 for x in v if x != 0))
    g = nanall(f)
    if rng.random() < .1:
        name = name.upper()
    elif rng.random() < .1:
        name = {"func": name}
    return name, g


def over(f, data, ignore_nan):
    """f over the first axis of a table, for every column (inf: undefined, if a value is infinite)."""
    out = []
    for c in np.asarray(data, dtype=float).T:
        v = [float(x) for x in c]
        if any(math.isinf(x) for x in v):
            out.append(math.inf)
            continue
        if ignore_nan:
            v = [x for x in v if not math.isnan(x)]
            if not v:
                out.append(math.nan)
                continue
        out.append(f(v))
    return np.array(out, dtype=float)


def one(f, v, ignore_nan):
    return over(f, np.asarray(v, dtype=float).reshape(-1, 1), ignore_nan)[0]


class Recs:
    """Adds recorders to a system, through their constructors or from documents."""

    def __init__(self, ctx, b):
        self.ctx, self.b, self.k = ctx, b, 0
        self.items = []

    def add(self, cls, refs, opts, kind, expect, json=True, **more):
        """refs: name of the argument -> node or parameter (or list); opts: plain options."""
        rng, m = self.ctx.rng, self.b.m
        self.k += 1
        name = f"r{self.k}"
        if json and rng.random() < .5 and not any(callable(v) for v in opts.values()):
            d = {"type": cls.__name__ if rng.random() < .5 else cls.__name__[:-len("Recorder")].lower(), "name": name}
            d.update({k: [x.name for x in v] if isinstance(v, list) else v.name for k, v in refs.items() if v is not None})
            d.update(opts)
            self.ctx.event("from a document")
            r = load_recorder(m, d)
        else:
            self.ctx.event("by the API")
            k0 = 0 if next(iter(refs)) in ("nodes", "parameters") else 1
            r = cls(m, *list(refs.values())[:k0], **dict(list(refs.items())[k0:]), name=name, **opts)
        self.items.append((r, kind, expect, more))
        self.ctx.event("recorder:" + cls.__name__)
        return r
