"""P14: control curves and thresholds switch at exactly the right state."""
import copy
import datetime as dt

import numpy as np

from pywr import parameters as P
from pywr.nodes import Storage
from pywr.parameters import load_parameter
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayParameterRecorder, NumpyArrayStorageRecorder
from .parcase import Bench, Spy, idx366, members

META = {
    "n": [4000, 50000], "budget": [70, 700],
    "min_events": {"values compared": 50000, "on a curve": 1000, "on a threshold": 1000, "ratchet held": 500, "first step": 1000, "crossed": 2000, "reruns": 100, "full": 500, "empty": 500, "refused": 50},
    "rule": "distinct: kind of parameter, its options, kind of curve or threshold, way of building",
    "assumptions": ["storages, aggregated storages and virtual storages with fullness as logged at the start of the step (checked by P05, P06)", "curves are given in descending order",
                    "a recorder threshold does not use its ratchet in the first step, which has no recorded value"],
}
PRED = {"LT": np.less, "GT": np.greater, "LE": np.less_equal, "GE": np.greater_equal, "EQ": np.equal, "<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal, "=": np.equal,
        "lt": np.less, "ge": np.greater_equal}


class G:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.b = Bench(ctx.rng)
        self.m = self.b.m
        self.n = self.b.n
        self.todo = []  # (parameter, label, oracle(spy) -> (values or None, index or None))
        self.k = 0

    def name(self):
        self.k += 1
        return f"q{self.k}"

    def curves(self, n):
        """n curves, in descending order; [(thing to put in a document, getter(spy) -> (T, S))]."""
        rng, m, T, S = self.rng, self.m, self.b.T, self.b.S
        out = []
        if n == 0:
            return out
        fracs = [i / d for d in (10, 16, 20) for i in range(d + 1)]
        edges = sorted(rng.sample([i / 20 for i in range(21)], n + 1) if n < 20 else [], reverse=True)
        dup = rng.random() < .1
        for i in range(n):
            lo, hi = edges[i + 1], edges[i]
            inside = [f for f in fracs if lo <= f <= hi] or [lo]
            k = rng.choice(["number", "number", "constant", "series", "monthly", "member", "daily"])
            if dup and out and i:
                out.append(out[-1])
                continue
            if k == "number":
                v = rng.choice(inside)
                if v == 1.0 and rng.random() < .5:
                    v = 1
                out.append((v, (lambda spy, v=v: np.full((T, S), float(v)))))
                continue
            if k == "constant":
                p = P.ConstantParameter(m, rng.choice(inside), name=self.name())
            elif k == "monthly":
                p = P.MonthlyProfileParameter(m, [rng.choice(inside) for _ in range(12)], name=self.name())
            elif k == "daily":
                p = P.DailyProfileParameter(m, [rng.choice(inside) for _ in range(366)], name=self.name())
            elif k == "member" and m.scenarios.scenarios:
                s = rng.choice(m.scenarios.scenarios)
                p = P.ConstantScenarioParameter(m, s, [rng.choice(inside) for _ in range(s.size)], name=self.name())
            else:
                p = P.ArrayIndexedParameter(m, [rng.choice(inside) for _ in range(T)], name=self.name())
            out.append((p.name, (lambda spy, p=p: np.array(spy.par[p]))))
        return out

    def par(self, lo=-5, hi=12):
        """Some varying parameter."""
        rng, m = self.rng, self.m
        k = rng.randrange(4)
        if k == 0:
            return P.ConstantParameter(m, self.b.number(lo, hi), name=self.name())
        if k == 1 and m.scenarios.scenarios:
            s = rng.choice(m.scenarios.scenarios)
            return P.ConstantScenarioParameter(m, s, [self.b.number(lo, hi) for _ in range(s.size)], name=self.name())
        p = self.b.series(P.ArrayIndexedScenarioParameter, lo, hi)
        p.name = self.name()
        return p

    def build(self, spec, cls):
        """From a document or through the constructor."""
        rng, m = self.rng, self.m
        spec = dict(spec, name=self.name())
        if rng.random() < .5:
            d = copy.deepcopy(spec)
            if "control_curves" in d and len(d["control_curves"]) == 1 and d["type"] != "controlcurveindex" and rng.random() < .5:
                d["control_curve"] = d.pop("control_curves")[0]
            if rng.random() < .3:
                d["type"] += "parameter"
            self.ctx.event("from a document")
            return load_parameter(m, d)
        self.ctx.event("by the API")
        d = dict(spec)
        t = d.pop("type")
        res = lambda v: m.parameters[v] if isinstance(v, str) and v in m.parameters.keys() else v
        for k in ("control_curves", "parameters", "thresholds"):
            if k in d:
                d[k] = [res(x) for x in d[k]]
        if "control_curves" in d and len(d["control_curves"]) == 1 and isinstance(d["control_curves"][0], P.Parameter) and rng.random() < .5:
            d["control_curves"] = d["control_curves"][0]
        for k in ("threshold", "parameter"):
            if k in d:
                d[k] = res(d[k])
        for k in ("storage_node", "node"):
            if k in d:
                d[k] = self.n[d[k]]
        if "recorder" in d:
            d["recorder"] = m.recorders[d["recorder"]]
        if "threshold" in d:
            first = [d.pop(k) for k in ("storage_node", "node", "parameter", "recorder") if k in d]
            return cls(m, *first, d.pop("threshold"), **d)
        return cls(m, **d)

    def pc(self, spy, st):
        v = np.array(spy.pc0[self.n[st]])
        v = np.where(np.isnan(v), 1.0, v)
        return np.clip(v, 0.0, 1.0)

    def curve(self):
        rng, ctx = self.rng, self.ctx
        st = rng.choice(self.b.stores + self.b.storages)
        kind = rng.choice(["index", "plain", "plain", "interp", "interp", "piece"])
        n = rng.choice([1, 1, 2, 2, 3, 5])
        cs = self.curves(n)
        spec = dict(storage_node=st, control_curves=[c[0] for c in cs])
        getters = [c[1] for c in cs]
        ctx.key(kind, n, st[:2])

        def band(spy):
            pc = self.pc(spy, st)
            ccs = np.array([f(spy) for f in getters])
            idx = np.full(pc.shape, n)
            for j in range(n - 1, -1, -1):
                idx = np.where(pc >= ccs[j], j, idx)
            ctx.event("on a curve", int((pc[None] == ccs).sum()))
            ctx.event("full", int((pc == 1).sum()))
            ctx.event("empty", int((pc == 0).sum()))
            ctx.event("crossed", int((np.diff(idx, axis=0) != 0).sum()))
            return pc, ccs, idx

        if kind == "index":
            p = self.build(dict(spec, type="controlcurveindex"), P.ControlCurveIndexParameter)
            self.todo.append((p, "index", lambda spy: (None, band(spy)[2])))
            return
        size = {"plain": n + 1, "interp": n + 2, "piece": n + 1}[kind]
        pars = None
        if kind == "piece":
            vals = np.array([[self.b.number(-20, 20) for _ in range(2)] for _ in range(size)])
            spec["values"] = vals.tolist()
            mn, mx = 0.0, 1.0
            if rng.random() < .4:
                mn, mx = rng.choice([.05, .1, 0]), rng.choice([.9, .95, 1.0])
                if rng.random() < .7:
                    spec["minimum"] = mn
                else:
                    mn = 0.0
                if rng.random() < .7:
                    spec["maximum"] = mx
                else:
                    mx = 1.0
        elif rng.random() < .35:
            pars = [self.par() for _ in range(size)]
            spec["parameters"] = [p.name for p in pars]
            ctx.key(kind, "parameters")
        elif kind == "plain" and rng.random() < .15:
            vals = np.arange(size, dtype=float)
            ctx.key(kind, "default")
        else:
            vals = np.array([self.b.number(-20, 20) for _ in range(size)])
            spec["values"] = vals.tolist()

        def values(spy):
            if pars:
                return np.array([spy.par[p] for p in pars])
            return np.repeat(np.repeat(vals[:, None], self.b.T, 1)[:, :, None], self.b.S, 2)

        if kind == "plain":
            p = self.build(dict(spec, type="controlcurve"), P.ControlCurveParameter)

            def oracle(spy):
                pc, ccs, idx = band(spy)
                return np.take_along_axis(values(spy), idx[None], 0)[0], None
            # lets it control something
            if rng.random() < .5 and "values" in spec:
                p.set_double_variables
                self.n["out0"].max_flow = p
                for i in range(len(vals)):
                    vals[i] = abs(vals[i])
                q = np.array(p.values)
                q[:] = vals
                p.values = q
                ctx.event("controls a demand")
        elif kind == "interp":
            p = self.build(dict(spec, type="controlcurveinterpolated"), P.ControlCurveInterpolatedParameter)

            def oracle(spy):
                pc, ccs, idx = band(spy)
                v = values(spy)
                xs = np.concatenate([np.ones((1,) + pc.shape), ccs, np.zeros((1,) + pc.shape)])
                hi, lo = np.take_along_axis(xs, idx[None], 0)[0], np.take_along_axis(xs, idx[None] + 1, 0)[0]
                a, b = np.take_along_axis(v, idx[None], 0)[0], np.take_along_axis(v, idx[None] + 1, 0)[0]
                w = np.where(hi > lo, (pc - lo) / np.where(hi > lo, hi - lo, 1), 0.0)
                return a * w + b * (1 - w), None
        else:
            p = self.build(dict(spec, type="controlcurvepiecewiseinterpolated"), P.ControlCurvePiecewiseInterpolatedParameter)

            def oracle(spy):
                pc, ccs, idx = band(spy)
                xs = np.concatenate([np.full((1,) + pc.shape, mx), ccs, np.full((1,) + pc.shape, mn)])
                hi, lo = np.take_along_axis(xs, idx[None], 0)[0], np.take_along_axis(xs, idx[None] + 1, 0)[0]
                a, b = vals[idx, 0], vals[idx, 1]
                w = np.where(hi > lo, np.clip((pc - lo) / np.where(hi > lo, hi - lo, 1), 0, 1), 0.0)
                # (a storage above a top that lies below the first curve takes the upper value)
                w = np.where((hi < lo) | ((hi == lo) & (pc > hi)), np.where(pc > hi, 1.0, 0.0), w)
                return a * w + b * (1 - w), None
            # curves beyond the stated range have no documented meaning
            self.todo.append((p, kind, lambda spy: oracle(spy) if all((f(spy) <= mx).all() and (f(spy) >= mn).all() for f in getters) else (None, None)))
            return
        self.todo.append((p, kind, oracle))

    def threshold(self):
        rng, ctx, m = self.rng, self.ctx, self.m
        kind = rng.choice(["storage", "storage", "node", "node", "parameter", "recorder", "recorder", "year", "day", "multi", "multipar"])
        T, S = self.b.T, self.b.S
        pred = rng.choice(list(PRED))
        ratchet = rng.random() < .35
        first = None  # value of the index in the first step
        dates = [d for d, _, a in self.b.cal.steps]
        lo, hi = 0, 9
        ctx.key("threshold", kind, pred, ratchet)
        if kind == "storage":
            st = rng.choice(self.b.stores + self.b.storages)
            spec = dict(storage_node=st)
            cls, t = P.StorageThresholdParameter, "storagethreshold"
            get = lambda spy: np.array(spy.vol0[self.n[st]])
            hi = 20
        elif kind in ("node", "multi"):
            nd = rng.choice([n for n in self.n if n not in self.b.stores] + ["st0", "agn"])
            spec = dict(node=nd)
            cls, t = P.NodeThresholdParameter, "nodethreshold"
            get = lambda spy: np.concatenate([np.zeros((1, S)), np.array(spy.flow[self.n[nd]])[:-1]])
            first = 0 if kind == "node" else None
        elif kind in ("parameter", "multipar"):
            x = self.par()
            spec = dict(parameter=x.name)
            cls, t = P.ParameterThresholdParameter, "parameterthreshold"
            get = lambda spy: np.array(spy.par[x])
        elif kind == "recorder":
            k = rng.randrange(3)
            if k == 0:
                nd = rng.choice(["out0", "lk0", "in0"])
                r = NumpyArrayNodeRecorder(m, self.n[nd], name=self.name())
                now = lambda spy: np.array(spy.flow[self.n[nd]])
            elif k == 1:
                r = NumpyArrayStorageRecorder(m, self.n["st0"], name=self.name())
                now = lambda spy: np.array(spy.vol1[self.n["st0"]])
                hi = 20
            else:
                x = self.par()
                r = NumpyArrayParameterRecorder(m, x, name=self.name())
                now = lambda spy: np.array(spy.par[x])
            spec = dict(recorder=r.name)
            cls, t = P.RecorderThresholdParameter, "recorderthreshold"
            first = 1
            if rng.random() < .5:
                first = rng.choice([0, 1])
                spec["initial_value"] = first
            get = lambda spy: np.concatenate([np.zeros((1, S)), now(spy)[:-1]])
        elif kind == "year":
            spec, cls, t = {}, P.CurrentYearThresholdParameter, "currentyearthreshold"
            col = [float(a.year) for _, _, a in self.b.cal.steps]
            get = lambda spy: np.repeat(np.array(col)[:, None], S, 1)
            lo, hi = min(col), max(col) + 1
        else:
            spec, cls, t = {}, P.CurrentOrdinalDayThresholdParameter, "currentordinaldaythreshold"
            col = [float(d.toordinal()) for d in dates]
            get = lambda spy: np.repeat(np.array(col)[:, None], S, 1)
            lo, hi = min(col), max(col) + 1
        lo, hi = int(lo), int(hi)
        if kind in ("multi", "multipar"):
            n = rng.randint(1, 4)
            vals = sorted([self.b.number(lo, hi) for _ in range(n)], reverse=True)
            names, getters = [], []
            for v in vals:
                if rng.random() < .3:
                    x2 = P.ConstantParameter(m, v, name=self.name())
                    names.append(x2.name)
                else:
                    names.append(v)
            p = self.build(dict(spec, type="multiplethresholdindex" if kind == "multi" else "multiplethresholdparameterindex", thresholds=names),
                           P.MultipleThresholdIndexParameter if kind == "multi" else P.MultipleThresholdParameterIndexParameter)

            def oracle(spy):
                x = get(spy)
                idx = np.full(x.shape, n)
                for j in range(n - 1, -1, -1):
                    idx = np.where(x >= vals[j], j, idx)
                ctx.event("on a threshold", int((x[None] == np.array(vals)[:, None, None]).sum()))
                return None, idx
            self.todo.append((p, kind, oracle))
            return
        if rng.random() < .6:
            thr = float(rng.randint(lo, hi)) if kind in ("year", "day") else self.b.number(lo, hi)
            tget = lambda spy: np.full((T, S), thr)
            spec["threshold"] = thr
        else:
            tp = self.par(lo, hi)
            tget = lambda spy: np.array(spy.par[tp])
            spec["threshold"] = tp.name
        if ratchet:
            spec["ratchet"] = True
        elif rng.random() < .2:
            spec["ratchet"] = False
        if pred == "LT" and rng.random() < .5:
            pass
        else:
            spec["predicate"] = pred
        vals = [self.b.number(-5, 30), self.b.number(-5, 30)]
        if rng.random() < .85:
            spec["values"] = vals
        p = self.build(dict(spec, type=t), cls)

        def oracle(spy):
            x, th = get(spy), tget(spy)
            idx = PRED[pred](x, th).astype(int)
            ctx.event("on a threshold", int((x == th).sum()))
            if first is not None:
                ctx.event("first step", S)
                idx[0] = 0
            if ratchet:
                held = np.maximum.accumulate(idx, axis=0)
                ctx.event("ratchet held", int((held != idx).sum()))
                idx = held
            if first is not None:
                idx[0] = first
            return (np.where(idx == 1, vals[1], vals[0]) if "values" in spec else None), idx
        self.todo.append((p, kind, oracle))

    def weighted(self):
        rng, m = self.rng, self.m
        sts = [s for s in self.b.storages]
        rng.shuffle(sts)
        sts = sts[:rng.randint(1, len(sts))]
        rows, names = [], []
        for s in sts:
            k = rng.randrange(4)
            if k == 0:
                v = self.b.number(0, 20)
                p = P.ConstantParameter(m, v, name=self.name())
                rows.append(np.full(366, v))
            elif k == 1:
                v = [self.b.number(0, 20) for _ in range(366)]
                p = P.DailyProfileParameter(m, v, name=self.name())
                rows.append(np.array(v))
            else:
                v = [self.b.number(0, 20) for _ in range(12)]
                p = P.MonthlyProfileParameter(m, v, name=self.name())
                rows.append(np.array([v[(dt.date(2000, 1, 1) + dt.timedelta(days=i)).month - 1] for i in range(366)]))
            names.append(p.name)
        mx = []
        for s in sts:
            v = self.n[s].max_volume
            mx.append(v.get_constant_value() if isinstance(v, P.Parameter) else v)
        w = sum(r * x for r, x in zip(rows, mx)) / sum(mx)
        if rng.random() < .5:
            p = load_parameter(m, dict(type="weightedaverageprofile", storages=sts, profiles=names, name=self.name()))
        else:
            p = P.WeightedAverageProfileParameter(m, [self.n[s] for s in sts], [m.parameters[x] for x in names], name=self.name())
        self.ctx.key("weighted", len(sts))
        self.todo.append((p, "weighted", lambda spy: (np.repeat(np.array([w[idx366(a)] for _, _, a in self.b.cal.steps])[:, None], self.b.S, 1), None)))


def bad(ctx):
    g = G(ctx)
    rng, m = g.rng, g.m
    n = rng.randint(1, 3)
    cc = [round(1 - (i + 1) / (n + 1), 2) for i in range(n)]
    wrong = lambda right: [1.0] * rng.choice([k for k in (0, 1, right - 1, right + 1, right + 3) if k != right and k >= 0])
    st = "st0"
    cands = [dict(type="controlcurve", storage_node=st, control_curves=cc, values=wrong(n + 1)), dict(type="controlcurveinterpolated", storage_node=st, control_curves=cc, values=wrong(n + 2)),
             dict(type="controlcurvepiecewiseinterpolated", storage_node=st, control_curves=cc, values=[[1.0, 2.0]] * len(wrong(n + 1))),
             dict(type="controlcurvepiecewiseinterpolated", storage_node=st, control_curves=cc, values=[[1.0] * rng.choice([1, 3])] * (n + 1)),
             dict(type="controlcurve", storage_node="nowhere", control_curves=cc), dict(type="storagethreshold", storage_node=st, threshold=3, predicate="NE"),
             dict(type="controlcurveinterpolated", storage_node=st, control_curves=cc)]
    for d in rng.sample(cands, 3):
        ctx.event("refused")
        ctx.key("bad", d["type"])
        try:
            load_parameter(m, copy.deepcopy(dict(d, name=g.name())))
        except Exception:
            continue
        ctx.violation("accepted:" + d["type"], f"{d} was accepted")


def case(ctx):
    rng = ctx.rng
    if ctx.i % 25 == 24:
        return bad(ctx)
    g = G(ctx)
    for _ in range(rng.randint(3, 8)):
        rng.choice([g.curve, g.curve, g.threshold, g.threshold, g.threshold, g.weighted] if rng.random() < .5 else [g.curve, g.threshold])()
    ctx.sample(dict(steps=g.b.T, step=g.b.cal.delta, combinations=g.b.S, parameters=[f"{type(p).__name__}:{k}" for p, k, _ in g.todo]))
    spy = Spy(g.m, flows=True)
    for run in range(2 if rng.random() < .25 else 1):
        ctx.event("reruns", run)
        g.b.run(spy)
        for p, kind, oracle in g.todo:
            v, idx = oracle(spy)
            if v is not None:
                ctx.event("values compared", v.size)
                ctx.close(np.array(spy.par[p]), v, kind + "-value", f"{type(p).__name__} {p.name}", rtol=1e-9, atol=1e-9)
            if idx is not None:
                ctx.event("values compared", idx.size)
                ctx.check((np.array(spy.idx[p]) == idx).all(), kind + "-index", lambda: f"{type(p).__name__} {p.name}: got {np.array(spy.idx[p]).tolist()}, expected {idx.tolist()}")
