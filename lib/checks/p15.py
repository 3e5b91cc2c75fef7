"""P15: parameters that depend on past or current state report that state exactly."""
import copy
import datetime as dt
import math

import numpy as np

from pywr import parameters as P
from pywr.parameters import load_parameter
from pywr.parameters.groundwater import KeatingStreamFlowParameter
from pywr.parameters.licenses import AnnualExponentialLicense, AnnualHyperbolaLicense, AnnualLicense, StorageLicense, TimestepLicense
from .p13 import interpolate
from .parcase import Bench, Spy

META = {
    "n": [4000, 50000], "budget": [75, 700],
    "min_events": {"values compared": 50000, "licence steps": 10000, "licensed years": 500, "licence years exhausted": 50, "feedback": 200, "reruns": 200, "refused": 60, "year changes within a step": 50,
                   "before any history": 500},
    "rule": "distinct: kind of parameter, its options, way of building",
    "assumptions": ["flows and volumes are those the nodes report (checked by P01, P05)", "a TimestepLicense is used with daily steps, the assumption its source states",
                    "a DeficitParameter is compared during the step (yesterday's deficit) and after it (today's)"],
}


class G:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.lic = ctx.rng.random() < .4
        self.b = Bench(ctx.rng, nmax=ctx.rng.choice([30, 500]) if self.lic else 40, deltas=(1, 1, 5, 7, 30, "M") if self.lic else (1, 1, 1, 2, 7, "M"), nscen=ctx.rng.choice([0, 1]) if self.lic else None)
        self.m, self.n = self.b.m, self.b.n
        self.T, self.S = self.b.T, self.b.S
        self.todo = []
        self.after = []  # checks on the whole run
        self.k = 0
        self.first = []  # parameters that the log must follow
        self.back = []  # parameters that may control the model

    def name(self):
        self.k += 1
        return f"q{self.k}"

    def node(self, any=False):
        rng = self.rng
        return rng.choice([n for n in self.n if n not in self.b.stores and (any or n != "agn")] + (["agn", "st0"] if any else []))

    def flow(self, nd):
        return lambda spy: np.array(spy.flow[self.n[nd]])

    def before(self, nd, first=0.0):
        """Flow of the step before."""
        return lambda spy: np.concatenate([np.full((1, self.S), float(first)), np.array(spy.flow[self.n[nd]])[:-1]])

    def vol(self, st):
        return lambda spy: np.array(spy.vol0[self.n[st]])

    def pc(self, st):
        def f(spy):
            v = np.array(spy.vol0[self.n[st]])
            return np.clip(v / self.cap(st), 0, 1)
        return f

    def cap(self, st):
        if st == "agst":
            return sum(self.cap(s) for s in self.b.storages)
        v = self.n[st].max_volume
        return v.get_constant_value() if isinstance(v, P.Parameter) else v

    def build(self, cls, spec, lists=()):
        """From a document or through the constructor."""
        rng, m = self.rng, self.m
        spec = dict(spec, name=self.name())
        if rng.random() < .5:
            self.ctx.event("from a document")
            return load_parameter(m, copy.deepcopy(spec))
        d = dict(spec)
        d.pop("type")
        for k in ("node", "storage_node"):
            if k in d:
                d[k] = self.n[d[k]]
        for k in ("parameter", "target", "water_elevation_parameter", "max_flow", "min_flow"):
            if isinstance(d.get(k), str):
                d[k] = m.parameters[d[k]]
            elif isinstance(d.get(k), (int, float)):
                d[k] = P.ConstantParameter(m, d[k])
        self.ctx.event("by the API")
        return cls(m, **d)

    def par(self, lo=-5, hi=12):
        p = self.b.series(P.ArrayIndexedScenarioParameter, lo, hi)
        p.name = self.name()
        return p

    def add(self, p, kind, oracle, tol=1e-9, **kw):
        self.todo.append((p, kind, oracle, tol))

    def make(self):
        rng, ctx, m, b = self.rng, self.ctx, self.m, self.b
        k = rng.choice(["flow", "delay", "delay", "deficit", "mean", "mean", "storage", "storage", "poly", "poly", "poly2", "ivol", "iflow", "hydro", "hydro", "keating"])
        if k == "flow":
            nd = self.node()
            d = dict(type="flow", node=nd)
            v = 0.0
            if rng.random() < .6:
                v = d["initial_value"] = self.b.number(-3, 9)
            ctx.key(k, nd[:3], v != 0)
            p = self.build(P.FlowParameter, d)
            self.add(p, k, self.before(nd, v))
            self.back.append(p)
        elif k == "delay":
            nd = self.node(True)
            n = rng.randint(1, 6)
            d = dict(type="flowdelay", node=nd)
            v = 0.0
            if rng.random() < .6:
                v = d["initial_flow"] = self.b.number(0, 9)
            if b.cal.delta != "M" and rng.random() < .5:
                d["days"] = n * b.cal.delta
            else:
                d["timesteps"] = n
            ctx.key(k, nd[:3], v != 0, n, "days" in d)
            p = self.build(P.FlowDelayParameter, d)
            self.add(p, k, lambda spy: np.concatenate([np.full((min(n, self.T), self.S), v), self.flow(nd)(spy)[:max(self.T - n, 0)]]))
            self.back.append(p)
        elif k == "deficit":
            nd = rng.choice([f"out{j}" for j in range(b.J)] + [f"lk{j}" for j in range(b.J) if not math.isinf(self.n[f"lk{j}"].max_flow)])
            p = self.build(P.DeficitParameter, dict(type="deficit", node=nd))
            q = P.OffsetParameter(m, p, 0.0, name=self.name())  # sees the value used in the step
            ctx.key(k, nd[:3])

            def today(spy):
                node = self.n[nd]
                mx = node.max_flow
                mx = np.array(spy.par[mx]) if isinstance(mx, P.Parameter) else np.full((self.T, self.S), float(mx))
                return mx - self.flow(nd)(spy)
            self.first.append(p)
            self.add(p, "deficit-today", today, 1e-8)
            self.add(q, "deficit-yesterday", lambda spy: np.concatenate([np.zeros((1, self.S)), today(spy)[:-1]]), 1e-8)
            self.back.append(q)
        elif k == "mean":
            nd = self.node(True)
            n = rng.randint(1, 8)
            d = dict(type="rollingmeanflownode", node=nd)
            v = 0.0
            if rng.random() < .6:
                v = d["initial_flow"] = self.b.number(0, 9)
            if b.cal.delta != "M" and rng.random() < .5:
                d["days"] = n * b.cal.delta + rng.randrange(b.cal.delta)
            else:
                d["timesteps"] = n
            ctx.key(k, nd[:3], v != 0, n, "days" in d)

            def mean(spy):
                f = self.flow(nd)(spy)
                return np.array([np.full(self.S, v)] + [f[max(0, t - n):t].mean(0) for t in range(1, self.T)])
            p = self.build(P.RollingMeanFlowNodeParameter, d)
            self.add(p, k, mean)
            self.back.append(p)
        elif k == "storage":
            st = rng.choice(b.stores)
            d = dict(type="storage", storage_node=st)
            prop = rng.random() < .4
            if prop or rng.random() < .3:
                d["use_proportional_volume"] = prop
            ctx.key(k, st[:2], prop)
            p = self.build(P.StorageParameter, d)
            self.add(p, k, (lambda spy: self.vol(st)(spy) / self.cap(st)) if prop else self.vol(st))
            self.back.append(p)
        elif k in ("poly", "poly2"):
            sc, off = rng.choice([(1.0, 0.0), (.1, 0.0), (.05, 2.0), (-.1, -1)])
            if k == "poly":
                c = [round(rng.uniform(-2, 2), 2) for _ in range(rng.randint(1, 4))]
                d = dict(type="polynomial1d", coefficients=c)
                w = rng.randrange(3)
                if w == 0:
                    nd = d["node"] = self.node(True)
                    get = self.before(nd)
                    cls = None
                elif w == 1:
                    x = self.par()
                    d["parameter"] = x.name
                    get = lambda spy: np.array(spy.par[x])
            else:
                c = [[round(rng.uniform(-2, 2), 2) for _ in range(rng.choice([2]))] for _ in range(rng.randint(1, 3))]
                d = dict(type="polynomial2dstorage", coefficients=c)
                y = self.par()
                d["parameter"] = y.name
                psc, poff = rng.choice([(1.0, 0.0), (.5, 2)])
                if psc != 1:
                    d.update(parameter_scale=psc, parameter_offset=poff)
                w = 2
            if w == 2:
                st = d["storage_node"] = rng.choice(b.stores)
                prop = rng.random() < .5
                if prop:
                    d["use_proportional_volume"] = True
                get = self.pc(st) if prop else self.vol(st)
            pre = "storage_" if k == "poly2" else ""
            if sc != 1:
                d[pre + "scale"] = sc
            if off:
                d[pre + "offset"] = off
            ctx.key(k, w, d.get("use_proportional_volume"), sc)
            if k == "poly":
                oracle = lambda spy: sum(ci * (get(spy) * sc + off) ** i for i, ci in enumerate(c))
                cls = P.Polynomial1DParameter
            else:
                oracle = lambda spy: sum(c[i][j] * (get(spy) * sc + off) ** i * (np.array(spy.par[y]) * psc + poff) ** j for i in range(len(c)) for j in range(len(c[i])))
                cls = P.Polynomial2DStorageParameter
            self.add(self.build(cls, d), k, oracle, 1e-8)
        elif k in ("ivol", "iflow"):
            if k == "ivol":
                st = rng.choice(b.stores)
                hi = self.cap(st)
                get = self.vol(st)
                d = dict(type="interpolatedvolume", node=st)
            else:
                nd = self.node(True)
                hi = 200
                get = self.before(nd)
                d = dict(type="interpolatedflow", node=nd)
            xs = sorted({-1.0, hi + 1.0} | {float(rng.randint(0, int(min(hi, 30)))) for _ in range(rng.randint(0, 5))})
            if k == "iflow":
                xs = [-200.0] + xs
            ys = [self.b.number(-5, 30) for _ in xs]
            d["volumes" if k == "ivol" else "flows"] = xs
            d["values"] = ys
            kind = "linear"
            if rng.random() < .2:
                kind = rng.choice(["previous", "next"])
                d["interp_kwargs"] = dict(kind=kind)
            ctx.key(k, kind, len(xs))
            p = self.build(P.InterpolatedVolumeParameter if k == "ivol" else P.InterpolatedFlowParameter, d)
            # a step function is compared with the exact volume only
            self.add(p, k, lambda spy: interpolate(xs, ys, get(spy), kind, None))
            self.back.append(p)
        elif k == "hydro":
            P_ = self.par(0, 500)
            st = rng.choice(b.stores)
            d = dict(type="hydropowertarget", target=P_.name)
            w = rng.randrange(3)
            xs, ys = [-1.0, 300.0], [self.b.number(-10, 20), self.b.number(10, 80)]
            elev = None
            if w:
                e = P.InterpolatedVolumeParameter(m, self.n[st], xs, ys, name=self.name()) if w == 1 else self.par(-10, 60)
                d["water_elevation_parameter"] = e.name
                elev = lambda spy: np.array(spy.par[e])
            turb = 0.0
            if rng.random() < .6 or not w:
                turb = d["turbine_elevation"] = self.b.number(-5, 40)
            opts = {}
            for o, c in (("efficiency", [.8, 1]), ("density", [1000, 998.5]), ("min_head", [5, 20]), ("flow_unit_conversion", [1e3, .5]), ("energy_unit_conversion", [1e-6, 2.78e-7])):
                if rng.random() < .35:
                    opts[o] = rng.choice(c)
            d.update(opts)
            hi = lo = None
            if rng.random() < .6:
                hi = self.par(5, 60)
                d["max_flow"] = hi.name
            if rng.random() < .5:
                lo = self.par(0, 10)
                d["min_flow"] = lo.name
            ctx.key(k, w, sorted(opts), hi is None, lo is None)

            def hydro(spy):
                head = np.maximum(elev(spy) - turb if elev else np.full((self.T, self.S), turb), 0)
                pw = np.array(spy.par[P_])
                den = opts.get("energy_unit_conversion", 1e-6) * opts.get("density", 1000) * 9.81 * head * opts.get("efficiency", 1) * opts.get("flow_unit_conversion", 1)
                q = np.where(den > 0, pw / np.where(den > 0, den, 1), np.inf)
                if hi is not None:
                    q = np.minimum(q, spy.par[hi])
                if lo is not None:
                    q = np.maximum(q, spy.par[lo])
                return np.where(head < opts.get("min_head", 0), 0.0, q)
            self.add(self.build(P.HydropowerTargetParameter, d), k, hydro)
        else:
            st = rng.choice(b.storages)
            if self.n[st].level != 0.0 and self.n[st].level is not None:
                return
            xs, ys = [-1.0, 50.0, 300.0], sorted(self.b.number(0, 60) for _ in range(3))
            lev = P.InterpolatedVolumeParameter(m, self.n[st], xs, ys, name=self.name())
            self.n[st].level = lev
            n = rng.randint(1, 3)
            levels, trans, co = [self.b.number(0, 40) for _ in range(n)], [self.b.number(1, 9) for _ in range(n)], rng.choice([1.0, .3])
            p = KeatingStreamFlowParameter(m, self.n[st], levels, trans, **({} if co == 1 else dict(coefficient=co)), name=self.name())
            ctx.key(k, n)
            self.add(p, k, lambda spy: sum(2 * t * co * np.maximum(interpolate(xs, ys, self.vol(st)(spy), "linear", None) - l, 0) for l, t in zip(levels, trans)))

    def licence(self, j):
        rng, ctx, m, b = self.rng, self.ctx, self.m, self.b
        lk = self.n[f"lk{j}"]
        kind = rng.choice(["annual", "annual", "annual", "storage", "exponential", "hyperbola"] + (["timestep"] if b.cal.delta == 1 else []))
        per_day = rng.choice([.3, 1, 3, 20])
        steps = b.cal.steps
        total = sum(n for _, n, _ in steps)
        node = rng.choice([lk, lk, self.n[f"out{j}"]])
        ctx.key("licence", kind, b.cal.delta)
        first = steps[0][0]
        if kind == "timestep":
            v = self.b.number(0, 9)
            p = TimestepLicense(m, node, v, name=self.name())
            self.add(p, kind, lambda spy: np.full((self.T, self.S), v))
        elif kind == "storage":
            amount = float(round(per_day * total * rng.choice([.2, .7])))
            p = StorageLicense(m, node, amount, name=self.name()) if rng.random() < .5 else load_parameter(m, dict(type="storagelicense", node=node.name, amount=amount, name=self.name()))

            def oracle(spy):
                f = self.flow(node.name)(spy) * np.array([n for _, n, _ in steps])[:, None]
                used = np.concatenate([np.zeros((1, self.S)), np.cumsum(f, 0)[:-1]])
                self.ctx.event("licence steps", used.size)
                return np.maximum(amount - used, 0) / np.array([n for _, n, _ in steps])[:, None]
            self.add(p, kind, oracle, 1e-8)
            if node is lk:
                self.after.append(lambda spy: self.within(spy, node, lambda d: 0, amount, kind))
        else:
            amount = float(round(per_day * 365)) or 1.0
            kw = {}
            if kind == "exponential":
                kw = dict(max_value=self.b.number(1, 30))
                if rng.random() < .5:
                    kw["k"] = rng.choice([.5, 2.0])
            elif kind == "hyperbola":
                kw = dict(value=self.b.number(1, 30))
            cls = {"annual": AnnualLicense, "exponential": AnnualExponentialLicense, "hyperbola": AnnualHyperbolaLicense}[kind]
            if rng.random() < .5:
                p = cls(m, node, amount, **kw, name=self.name())
            else:
                p = load_parameter(m, dict(type={"annual": "annuallicense", "exponential": "annualexponentiallicense", "hyperbola": "annualhyperbolalicense"}[kind], node=node.name, amount=amount, **kw, name=self.name()))

            def oracle(spy):
                f = self.flow(node.name)(spy)
                out = np.zeros((self.T, self.S))
                used = np.zeros(self.S)  # in the calendar year of the step's first day
                year = None
                for t, (d, n, _) in enumerate(steps):
                    if d.year != year:
                        used = np.zeros(self.S)
                        if t:
                            pd_, pn, _ = steps[t - 1]
                            here = sum(1 for i in range(pn) if (pd_ + dt.timedelta(days=i)).year == d.year)
                            used = f[t - 1] * here
                            self.ctx.event("year changes within a step", int(here > 0))
                        year = d.year
                    yend = dt.date(d.year, 12, 31)
                    left = (yend - d).days + 1
                    v = np.maximum(amount - used, 0) / left
                    if n > left:
                        v = np.minimum(v, amount / (n - left))
                    ydays = (yend - dt.date(d.year, 1, 1)).days + 1
                    self.ctx.event("licence steps", self.S)
                    x = v / (amount / ydays)
                    if kind == "annual":
                        out[t] = v
                    elif kind == "exponential":
                        out[t] = kw["max_value"] * np.exp(-x / kw.get("k", 1.0))
                    else:
                        with np.errstate(divide="ignore", invalid="ignore"):
                            out[t] = kw["value"] / x
                    used = used + f[t] * min(n, left)
                return out
            # (the hyperbola is infinitely steep where the licence is exhausted)
            self.add(p, kind, oracle, 1e-8)
            if node is lk and kind == "annual":
                self.after.append(lambda spy: self.within(spy, node, lambda d: d.year, amount, kind))
        if kind in ("annual", "storage", "timestep") and node is lk:
            lk.max_flow = p
            if rng.random() < .6:
                self.n[f"out{j}"].max_flow = rng.choice([9.0, 50.0])
                self.n[f"in{j}"].max_flow = 50.0

    def within(self, spy, node, period, amount, kind):
        """No period uses more than was licensed; the amount is there again in the next."""
        f = self.flow(node.name)(spy)
        use = {}
        for t, (d, n, _) in enumerate(self.b.cal.steps):
            for i in range(n):
                y = period(d + dt.timedelta(days=i))
                use[y] = use.get(y, 0) + f[t]
        for y, u in use.items():
            self.ctx.event("licensed years", self.S)
            self.ctx.event("licence years exhausted", int((u > .999 * amount).sum()))
            self.ctx.check((u <= amount * (1 + 1e-6) + 1e-6).all(), "over-licence:" + kind, lambda: f"{kind} licence of {amount}: {u.max()} was used in {y}")

    def feedback(self):
        """Lets a state-dependent parameter control a demand or a cost."""
        rng, m = self.rng, self.m
        p = rng.choice(self.back)
        q = P.MinParameter(m, P.MaxParameter(m, p, 0.0), 30.0)
        n = self.n[rng.choice([f"out{j}" for j in range(self.b.J)])]
        if rng.random() < .3:
            n.cost = P.NegativeParameter(m, P.MaxParameter(m, q, 1.0))
        else:
            n.max_flow = q
        self.ctx.event("feedback")


def bad(ctx):
    g = G(ctx)
    rng, m, b = g.rng, g.m, g.b
    d = b.cal.delta
    c = lambda v: dict(type="constant", value=v)
    cands = [dict(type="flowdelay", node="out0", timesteps=0), dict(type="flowdelay", node="out0"), dict(type="rollingmeanflownode", node="out0"),
             dict(type="polynomial1d", coefficients=[1.0], node="out0", parameter=c(1.0)), dict(type="polynomial1d", coefficients=[1.0], node="out0", storage_node="st0"),
             dict(type="flow", node="nowhere"), dict(type="storage", storage_node="nowhere"), dict(type="interpolatedvolume", node="st0", volumes=[-2, -1.0], values=[1, 2]),
             dict(type="interpolatedvolume", node="st0", volumes=[0, 1.0, 2.0], values=[1, 2]), dict(type="polynomial1d", coefficients=[1.0])]
    if d == "M":
        cands += [dict(type="flowdelay", node="out0", days=30), dict(type="rollingmeanflownode", node="out0", days=60)] * 2
    elif d > 1:
        cands += [dict(type="flowdelay", node="out0", days=d + 1), dict(type="rollingmeanflownode", node="out0", days=d - 1)] * 2
    spec = rng.choice(cands)
    ctx.event("refused")
    ctx.key("bad", spec["type"], d)
    try:
        load_parameter(m, dict(copy.deepcopy(spec), name="x"))
        m.run()
    except Exception:
        return
    ctx.violation("accepted:" + spec["type"], f"{spec} was accepted with a step of {d}")


def case(ctx):
    rng = ctx.rng
    if ctx.i % 15 == 14:
        return bad(ctx)
    g = G(ctx)
    for _ in range(rng.randint(2, 8)):
        g.make()
    if g.lic:
        for j in range(g.b.J):
            if rng.random() < .8:
                g.licence(j)
    elif g.back and rng.random() < .5:
        for _ in range(rng.randint(1, 2)):
            g.feedback()
    ctx.sample(dict(steps=g.T, step=g.b.cal.delta, combinations=g.S, parameters=[f"{type(p).__name__}:{k}" for p, k, _, _ in g.todo]))
    spy = Spy(g.m, flows=True)
    for p in g.first:
        spy.children.add(p)
    for run in range(2 if rng.random() < .25 else 1):
        ctx.event("reruns", run)
        g.b.run(spy)
        for n in spy.ns:
            ctx.check((np.array(spy.prev[n]) == np.concatenate([np.zeros((1, g.S)), np.array(spy.flow[n])[:-1]])).all(), "previous-flow", lambda: f"previous flow of {n.name} is not the flow of the step before")
        ctx.event("before any history", len(g.todo))
        for p, kind, oracle, tol in g.todo:
            v = oracle(spy)
            ctx.event("values compared", v.size)
            got = np.array(spy.par[p])
            if kind == "hyperbola":  # exhausted up to rounding: compare the reciprocals
                with np.errstate(divide="ignore"):
                    got, v = 1 / got, 1 / v
            ctx.close(got, v, kind, f"{type(p).__name__} {p.name}", rtol=max(tol, 1e-9), atol=1e-7 if kind in ("annual", "storage", "exponential", "hyperbola") else 1e-8)
        for f in g.after:
            f(spy)
