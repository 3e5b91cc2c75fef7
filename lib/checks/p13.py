"""P13: arithmetic, aggregating, indexing and interpolating parameters equal their definitions."""
import copy
import itertools
import math

import numpy as np
from scipy.integrate import quad

from pywr import parameters as P
from pywr.core import Scenario
from pywr.model import Model
from pywr.parameters import load_parameter
from .parcase import Cal, Spy, members

META = {
    "n": [2500, 40000], "budget": [70, 700],
    "min_events": {"values compared": 100000, "refused": 150, "reruns": 150, "interpolations at a knot": 20, "outside the range": 50, "built from a document": 300, "built by the API": 300},
    "rule": "distinct: kind of parameter, its options, way of building",
    "assumptions": ["values are compared to 1e-9 relative (quadrature over a kinked curve 2%)"],
}


EXACT = ("constant", "constantscenario", "constantscenarioindex", "arrayindexed", "arrayindexedscenario", "negative", "parameterthreshold", "scenariowrapper", "indexedarray", "max", "min", "negativemax", "negativemin")


class G:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rng = self.rng
        self.cal = Cal(rng, nmax=40)
        self.scens = [(f"sc{i}", rng.randint(1, 4)) for i in range(rng.randint(0, 2))]
        self.comb = list(itertools.product(*[range(k) for _, k in self.scens])) or [()]
        self.T, self.S = len(self.cal), len(self.comb)
        self.items = []  # (name, spec, value (T,S), index (T,S) or None)
        self.exact = set()  # parameters whose values are computed without rounding

    def add(self, spec, val, idx=None):
        name = f"p{len(self.items)}"
        spec = dict(spec, name=name)
        val = np.asarray(val, dtype=float)
        self.items.append((name, spec, val, idx))
        refs = [v for k, v in spec.items() if k in REFS] + [v for k in LISTS for v in spec.get(k, ())]
        if spec["type"] in EXACT and all(r in self.exact for r in refs if isinstance(r, str)):
            self.exact.add(name)
        return name

    def full(self, v):
        return np.full((self.T, self.S), float(v))

    def numbers(self, n, lo=-20, hi=60):
        rng = self.rng
        k = rng.random()
        if k < .3:
            return [rng.randint(int(lo), int(hi)) for _ in range(n)]
        return [round(rng.uniform(lo, hi), 3) for _ in range(n)]

    def base(self):
        rng = self.rng
        k = rng.random()
        if k < .15:
            v, sc, off = self.numbers(1)[0], rng.choice([1.0, 1.0, 2.5, -1]), rng.choice([0.0, 0.0, 3, -1.5])
            d = dict(type="constant", value=v)
            if sc != 1 or rng.random() < .2:
                d["scale"] = sc
            if off:
                d["offset"] = off
            return self.add(d, self.full(off + v * sc))
        if k < .3 and self.scens:
            i = rng.randrange(len(self.scens))
            v = self.numbers(self.scens[i][1])
            return self.add(dict(type="constantscenario", scenario=self.scens[i][0], values=v), np.repeat(np.array([[v[c[i]] for c in self.comb]], dtype=float), self.T, 0))
        if k < .65 and self.scens:
            i = rng.randrange(len(self.scens))
            v = np.array([self.numbers(self.scens[i][1]) for _ in range(self.T)], dtype=float)
            return self.add(dict(type="arrayindexedscenario", scenario=self.scens[i][0], values=v.tolist()), v[:, [c[i] for c in self.comb]])
        v = np.array(self.numbers(self.T), dtype=float)
        return self.add(dict(type="arrayindexed", values=v.tolist()), np.repeat(v[:, None], self.S, 1))

    def some(self):
        """(name, values) of an existing parameter."""
        it = self.rng.choice([it for it in self.items if "tol" not in it[1] and not np.isnan(it[2]).any() and np.abs(it[2]).max() < 1e7])
        return it[0], it[2]

    def index(self, lo, hi):
        """An index parameter with values in lo..hi: (name, idx)."""
        rng = self.rng
        cand = [it for it in self.items if it[3] is not None and it[3].min() >= lo and it[3].max() <= hi]
        if cand and rng.random() < .3:
            it = rng.choice(cand)
            return it[0], it[3]
        k = rng.random()
        if k < .4 and self.scens:
            i = rng.randrange(len(self.scens))
            v = [rng.randint(lo, hi) for _ in range(self.scens[i][1])]
            idx = np.repeat(np.array([[v[c[i]] for c in self.comb]]), self.T, 0)
            return self.add(dict(type="constantscenarioindex", scenario=self.scens[i][0], values=v), idx, idx), idx
        if lo == 0 and hi >= 1:
            x, xv = self.some()
            t = self.threshold(x, xv)
            pred = rng.choice(["LT", "GT", "LE", "GE", "EQ", "<", ">", "<=", ">=", "="])
            f = {"LT": np.less, "GT": np.greater, "LE": np.less_equal, "GE": np.greater_equal, "EQ": np.equal, "<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal, "=": np.equal}[pred]
            idx = f(xv, t).astype(int)
            vals = self.numbers(2)
            return self.add(dict(type="parameterthreshold", parameter=x, threshold=t, predicate=pred, values=vals), np.where(idx == 1, vals[1], vals[0]), idx), idx
        v = rng.randint(lo, hi)
        if self.scens:
            i = 0
            v = [rng.randint(lo, hi) for _ in range(self.scens[0][1])]
            idx = np.repeat(np.array([[v[c[0]] for c in self.comb]]), self.T, 0)
            return self.add(dict(type="constantscenarioindex", scenario=self.scens[0][0], values=v), idx, idx), idx
        return None

    def threshold(self, x, xv):
        """A threshold; on a value only where that value is exact, else away from all values."""
        rng = self.rng
        if x in self.exact and rng.random() < .6:
            return float(rng.choice(xv.ravel().tolist()))
        t = round(rng.uniform(-10, 30), 2)
        while x not in self.exact and np.abs(xv - t).min() < 1e-6 * (1 + np.abs(xv).max()):
            t += .37
        return t

    def knots(self, lo, hi, n):
        """Increasing knots over [lo, hi]."""
        rng = self.rng
        xs = sorted({round(rng.uniform(lo, hi), 2) for _ in range(n)} | {lo, hi})
        return xs

    def derived(self):
        rng = self.rng
        k = rng.choice(["agg", "agg", "agg", "aggcall", "aggidx", "aggidx", "div", "neg", "max", "min", "negmax", "negmin", "off", "indexed", "indexed", "poly", "poly2s", "piece", "interp", "interp",
                        "interpfill", "quad", "scaled", "wrap", "mti", "thr"])
        x, xv = self.some()
        if k in ("agg", "aggcall"):
            n = rng.randint(1, 4)
            ps = [self.some() for _ in range(n)]
            a = np.array([p[1] for p in ps])
            names = [p[0] for p in ps]
            if k == "agg" and rng.random() < .3:  # a plain number among them
                c = self.numbers(1)[0]
                j = rng.randrange(n + 1)
                names.insert(j, c)
                a = np.insert(a, j, c, 0)
            f = rng.choice(["sum", "min", "max", "mean", "product", "median"])
            v = {"sum": a.sum(0), "min": a.min(0), "max": a.max(0), "mean": a.mean(0), "product": a.prod(0), "median": np.median(a, 0)}[f]
            if np.abs(v).max() > 1e9:
                return None
            if k == "aggcall":
                def span(vals):
                    return max(vals) - min(vals) + 7 * vals[0]
                return self.add(dict(type="aggregated", parameters=names, agg_func=span), a.max(0) - a.min(0) + 7 * a[0])
            return self.add(dict(type="aggregated", parameters=names, agg_func=f if rng.random() < .8 else f.upper()), v), f
        if k == "aggidx":
            n = rng.randint(1, 4)
            ps = [p for p in (self.index(0, rng.choice([1, 3])) for _ in range(n)) if p]
            if not ps:
                return None
            a = np.array([p[1] for p in ps])
            f = rng.choice(["sum", "min", "max", "any", "all", "product", "call"])
            if f == "call":
                def g(vals):
                    return int(2 * max(vals) - min(vals))
                v = 2 * a.max(0) - a.min(0)
                return self.add(dict(type="aggregatedindex", parameters=[p[0] for p in ps], agg_func=g), v, v), f
            v = {"sum": a.sum(0), "min": a.min(0), "max": a.max(0), "any": a.any(0).astype(int), "all": a.all(0).astype(int), "product": a.prod(0)}[f]
            return self.add(dict(type="aggregatedindex", parameters=[p[0] for p in ps], agg_func=f), v, v), f
        if k == "div":
            y, yv = self.some()
            if np.abs(yv).min() < 1e-6 or np.abs(xv / yv).max() > 1e9:
                return None
            return self.add(dict(type="division", numerator=x, denominator=y), xv / yv)
        if k == "neg":
            return self.add(dict(type="negative", parameter=x), -xv)
        if k in ("max", "min", "negmax", "negmin"):
            t = rng.choice([None, self.threshold(x, xv)])
            d = dict(type={"max": "max", "min": "min", "negmax": "negativemax", "negmin": "negativemin"}[k], parameter=x)
            if t is not None:
                d["threshold"] = t
            s = -1 if k.startswith("neg") else 1
            f = np.maximum if k.endswith("max") else np.minimum
            return self.add(d, f(s * xv, t or 0.0)), k
        if k == "off":
            o = self.numbers(1)[0]
            return self.add(dict(type="offset", parameter=x, offset=o), xv + o)
        if k in ("indexed", "wrap"):
            if k == "wrap":
                if not self.scens:
                    return None
                i = rng.randrange(len(self.scens))
                n = self.scens[i][1]
                idx = np.repeat(np.array([[c[i] for c in self.comb]]), self.T, 0)
            else:
                n = rng.randint(1, 4)
                r = self.index(0, n - 1)
                if not r:
                    return None
                iname, idx = r
            ps = [self.some() for _ in range(n)]
            a = np.array([p[1] for p in ps])
            v = np.take_along_axis(a, idx[None], 0)[0]
            names = [p[0] for p in ps]
            if k == "wrap":
                return self.add(dict(type="scenariowrapper", scenario=self.scens[i][0], parameters=names), v), n
            return self.add(dict(type="indexedarray", index_parameter=iname, **{rng.choice(["params", "parameters"]): names}), v), n
        if k == "poly":
            c = [round(rng.uniform(-2, 2), 2) for _ in range(rng.randint(1, 4))]
            sc, off = rng.choice([(1.0, 0.0), (.1, 0.0), (.05, 2.0), (-.1, -1)])
            z = xv * sc + off
            if np.abs(z).max() > 1e3:
                return None
            v = sum(ci * z ** i for i, ci in enumerate(c))
            d = dict(type="polynomial1d", coefficients=c, parameter=x)
            if sc != 1 or off:
                d.update(scale=sc, offset=off)
            return self.add(d, v), len(c)
        if k == "piece":
            # x >= 0 increasing from (0, 0)
            xs = self.knots(1, rng.choice([20, 60]), rng.randint(0, 4))
            for _ in range(rng.choice([0, 0, 1, 2])):  # segments of no width
                xs = sorted(xs + [rng.choice(xs + [0.0])])
            ys = self.numbers(len(xs), 0, 10)
            w = np.maximum(xv, 0)
            v = np.zeros_like(w)
            prev = 0.0
            for a, b in zip(xs, ys):
                v += b * np.clip(w - prev, 0, a - prev)
                prev = a
            if xv.min() < 0:
                return None
            return self.add(dict(type="piecewiseintegral", parameter=x, x=xs, y=ys), v), len(xs)
        if k in ("interp", "interpfill", "quad"):
            lo, hi = math.floor(xv.min()), math.ceil(xv.max()) + 1
            if hi - lo > 1e6:
                return None
            if k == "quad":
                lo, hi = min(lo, 0), max(hi, 1)
            if k == "interpfill":
                w = hi - lo
                lo, hi = lo + .2 * w, hi - .3 * w
            xs = self.knots(lo, hi, rng.randint(1, 5))
            if k == "interp" and rng.random() < .5:  # a knot exactly on a value
                xs = sorted(set(xs) | {float(xv[0, 0])})
            ys = self.numbers(len(xs))
            kw = {}
            kind = "linear"
            if k == "interp" and x in self.exact and rng.random() < .4:
                kind = rng.choice(["previous", "next"])
                kw = dict(interp_kwargs=dict(kind=kind))
            elif k == "interpfill":
                fv = rng.choice(["extrapolate", "pair", "one"])
                kw = dict(interp_kwargs=dict(fill_value={"extrapolate": "extrapolate", "pair": self.numbers(2), "one": self.numbers(1)[0]}[fv], bounds_error=False))
            if k == "quad":
                two = rng.random() < .5
                y, yv = self.some()
                if two and (yv.min() < xs[0] or yv.max() > xs[-1]):
                    return None
                F = integral(xs, ys)
                v = F(xv) - (F(yv) if two else F(np.zeros_like(xv)))
                d = dict(type="interpolatedquadrature", upper_parameter=x, x=xs, y=ys)
                if two:
                    d["lower_parameter"] = y
                # scipy's quadrature estimates its error poorly across kinks
                return self.add(dict(d, tol=1e-8 if len(xs) == 2 else .02), v), two
            v = interpolate(xs, ys, xv, kind, kw.get("interp_kwargs", {}).get("fill_value"))
            self.ctx.event("interpolations at a knot", int(np.isin(xv, xs).sum() > 0))
            if k == "interpfill":
                self.ctx.event("outside the range", int(((xv < xs[0]) | (xv > xs[-1])).any()))
            return self.add(dict(type="interpolated", parameter=x, x=xs, y=ys, **kw), v), kind + str(kw.get("interp_kwargs", {}).get("fill_value", ""))[:5]
        if k == "scaled":
            s = self.numbers(1)[0]
            return self.add(dict(type="scaledprofile", scale=s, profile=x), s * xv)
        if k == "mti":
            n = rng.randint(1, 3)
            th = sorted([self.threshold(x, xv) for _ in range(n)], reverse=True)
            idx = np.full(xv.shape, n)
            for j in range(n - 1, -1, -1):
                idx = np.where(xv >= th[j], j, idx)
            names = list(th)
            if rng.random() < .4:
                names[0] = self.add(dict(type="constant", value=th[0]), self.full(th[0]))
            return self.add(dict(type="multiplethresholdparameterindex", parameter=x, thresholds=names), np.full(xv.shape, np.nan), idx), n
        if k == "thr":
            r = self.index(0, 1)
            return (r[0], "t") if r else None
        return None


def integral(xs, ys):
    xs, ys = np.array(xs, float), np.array(ys, float)
    cum = np.concatenate([[0], np.cumsum(np.diff(xs) * (ys[1:] + ys[:-1]) / 2)])

    def F(x):
        j = np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 2)
        y = ys[j] + (ys[j + 1] - ys[j]) * (x - xs[j]) / (xs[j + 1] - xs[j])
        return cum[j] + (x - xs[j]) * (ys[j] + y) / 2
    return F


def interpolate(xs, ys, x, kind, fill):
    xs, ys = np.array(xs, float), np.array(ys, float)
    if kind == "previous":
        return ys[np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 1)]
    if kind == "next":
        return ys[np.clip(np.searchsorted(xs, x, side="left"), 0, len(xs) - 1)]
    j = np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 2)
    v = ys[j] + (ys[j + 1] - ys[j]) * (x - xs[j]) / (xs[j + 1] - xs[j])
    if fill is not None and not isinstance(fill, str):
        a, b = fill if isinstance(fill, (list, tuple)) else (fill, fill)
        v = np.where(x < xs[0], a, np.where(x > xs[-1], b, v))
    return v


REFS = ("parameter", "numerator", "denominator", "index_parameter", "upper_parameter", "lower_parameter", "profile")
LISTS = ("parameters", "params", "thresholds")


def api(m, spec):
    """Builds a parameter through its constructor."""
    d = dict(spec)
    t = d.pop("type")
    par = lambda v: m.parameters[v] if isinstance(v, str) else v
    for k in REFS:
        if k in d:
            d[k] = par(d[k])
    for k in LISTS:
        if k in d:
            d[k] = [par(x) for x in d[k]]
    s = m.scenarios[d.pop("scenario")] if "scenario" in d else None
    if t == "aggregated":
        d["parameters"] = [x if isinstance(x, P.Parameter) else P.ConstantParameter(m, x) for x in d["parameters"]]
        return P.AggregatedParameter(m, **d)
    if t == "indexedarray":
        return P.IndexedArrayParameter(m, d.pop("index_parameter"), d.pop("params", None) or d.pop("parameters"), **d)
    if t == "parameterthreshold":
        return P.ParameterThresholdParameter(m, d.pop("parameter"), d.pop("threshold"), **d)
    cls = {"constant": P.ConstantParameter, "aggregatedindex": P.AggregatedIndexParameter, "division": P.DivisionParameter, "negative": P.NegativeParameter, "max": P.MaxParameter,
           "min": P.MinParameter, "negativemax": P.NegativeMaxParameter, "negativemin": P.NegativeMinParameter, "offset": P.OffsetParameter, "polynomial1d": P.Polynomial1DParameter,
           "piecewiseintegral": P.PiecewiseIntegralParameter, "interpolated": P.InterpolatedParameter, "interpolatedquadrature": P.InterpolatedQuadratureParameter,
           "scaledprofile": P.ScaledProfileParameter, "multiplethresholdparameterindex": P.MultipleThresholdParameterIndexParameter, "arrayindexed": P.ArrayIndexedParameter,
           "arrayindexedscenario": P.ArrayIndexedScenarioParameter, "constantscenario": P.ConstantScenarioParameter, "constantscenarioindex": P.ConstantScenarioIndexParameter,
           "scenariowrapper": P.ScenarioWrapperParameter}[t]
    if s is not None:
        return cls(m, s, **d)
    return cls(m, **d)


def bad(ctx):
    """Out-of-range lookups and impossible definitions raise an error; nothing unrelated is read."""
    rng = ctx.rng
    m = Model(solver="null")
    m.timestepper.start, m.timestepper.end = "2015-01-01", "2015-01-04"
    Scenario(m, "sc", size=3)
    lo, hi = sorted(rng.sample(range(-5, 20), 2))
    c = lambda v: dict(type="constant", value=v)
    n = rng.randint(1, 3)
    cands = [dict(type="interpolated", parameter=c(hi + rng.choice([.001, 1, 50])), x=[lo, hi], y=[1, 2]), dict(type="interpolated", parameter=c(lo - rng.choice([.001, 1, 50])), x=[lo, hi], y=[1, 2]),
             dict(type="indexedarray", index_parameter=dict(type="constantscenarioindex", scenario="sc", values=[0, 0, n + rng.choice([0, 1, 5])]), params=[c(1.0)] * n),
             dict(type="scenariowrapper", scenario="sc", parameters=[c(1.0)] * rng.choice([1, 2, 4])),
             dict(type="constantscenario", scenario="sc", values=[1.0] * rng.choice([0, 1, 2, 4])), dict(type="constantscenarioindex", scenario="sc", values=[1] * rng.choice([0, 1, 2, 4])),
             dict(type="piecewiseintegral", parameter=c(1), x=[1, 2, 3], y=[1, 2]), dict(type="piecewiseintegral", parameter=c(1), x=[1, 3, 2], y=[1, 2, 3]),
             dict(type="aggregated", parameters=[c(1)], agg_func="nonsense"), dict(type="aggregated", parameters=[c(1), c(0)], agg_func=rng.choice(["any", "all"])),
             dict(type="aggregated", parameters=[], agg_func="sum"), dict(type="aggregatedindex", parameters=[], agg_func="sum"),
             dict(type="aggregatedindex", parameters=[c(1)], agg_func="sum"), dict(type="division", numerator=c(1), denominator=c(0.0)),
             dict(type="polynomial1d", coefficients=[1.0, 2.0]), dict(type="interpolated", parameter=c(lo), x=[lo, hi], y=[1, 2, 3]),
             dict(type="parameterthreshold", parameter=c(1), threshold=2, predicate="nonsense"), dict(type="arrayindexed", values=[1.0] * 3)]
    for d in rng.sample(cands, 5):
        m = Model(solver="null")
        m.timestepper.start, m.timestepper.end = "2015-01-01", "2015-01-04"
        Scenario(m, "sc", size=3)
        if d["type"] == "arrayindexed":
            build = lambda: P.ArrayIndexedParameter(m, d["values"], name="x")
        else:
            build = lambda: load_parameter(m, dict(copy.deepcopy(d), name="x"))
        ctx.event("refused")
        ctx.key("bad", d["type"])
        try:
            build()
            m.run()
        except Exception:
            continue
        ctx.violation("accepted:" + d["type"], f"{d} gave values instead of an error")


def case(ctx):
    rng = ctx.rng
    if ctx.i % 8 == 7:
        bad(ctx)
        return
    g = G(ctx)
    for _ in range(rng.randint(2, 4)):
        g.base()
    for _ in range(rng.randint(4, 10)):
        r = g.derived()
        if isinstance(r, tuple):
            ctx.key(g.items[-1][1]["type"], r[1])
        elif r:
            ctx.key(g.items[-1][1]["type"])
    m = Model(solver="null")
    g.cal.apply(m)
    for n, k in g.scens:
        Scenario(m, n, size=k)
    ps = []
    for name, spec, val, idx in g.items:
        tol = spec.pop("tol", 1e-9)
        noload = spec["type"] in ("arrayindexed", "arrayindexedscenario") or callable(spec.get("agg_func"))
        if noload or rng.random() < .4:
            p = api(m, spec)
            ctx.event("built by the API")
        else:
            p = load_parameter(m, copy.deepcopy(spec))
            ctx.event("built from a document")
        ps.append((p, spec, val, idx, tol))
    ctx.sample(dict(steps=g.T, combinations=g.S, parameters=[{k: v for k, v in s.items() if not isinstance(v, list) or len(v) < 6} for _, s, _, _ in g.items][-3:]))
    spy = Spy(m)
    for run in range(2 if rng.random() < .25 else 1):
        ctx.event("reruns", run)
        m.run()
        for p, spec, val, idx, tol in ps:
            t = spec["type"]
            short = {k: v for k, v in spec.items() if not isinstance(v, list) or len(v) < 7}
            if not np.isnan(val).any():
                ctx.event("values compared", val.size)
                ctx.close(np.array(spy.par[p]), val, t, f"{short}", rtol=tol, atol=1e-9 if tol < 1e-3 else tol * np.abs(val).max() + 1)
            if idx is not None:
                ctx.event("values compared", idx.size)
                ctx.close(np.array(spy.idx[p]), idx, t + "-index", f"index of {short}")
