"""P19: summary recorders equal the documented statistic of the simulated series."""
import datetime as dt
import math

import numpy as np
import pandas as pd

from pywr import parameters as P
from pywr import recorders as R
from pywr.recorders import calibration as C
from .parcase import DAY, Spy, leap
from .reccase import RB, Recs, Values, agg, one, over, pct

META = {
    "n": [1500, 20000], "budget": [80, 700],
    "min_events": {"statistics": 20000, "aggregated": 5000, "constraints": 2000, "year splits": 100, "reruns": 100, "nested": 100, "distributions": 50, "nan": 500, "scores": 200, "frames": 500},
    "rule": "distinct: recorder class, its options, aggregation functions, selection of combinations",
    "assumptions": ["flows, volumes and parameter values as logged by a recorder of the check's own (checked by P05 and P10)", "observed series are daily and cover the run",
                    "distribution estimates are only asked for series with some spread"],
}


class G:
    def __init__(self, ctx, b):
        self.ctx, self.rng, self.b, self.m = ctx, ctx.rng, b, b.m
        self.recs = Recs(ctx, b)

    def key(self, cls, *k):
        self.ctx.key(cls, self.b.how, *k)

    def node(self, names=None):
        return self.rng.choice(names or self.b.simple)

    def add(self, cls, refs, opts, want, exact=False, temporal=False, json=True, frame=None, safe=True, **kw):
        """want(spy) -> value per combination, or with `temporal` the series to aggregate over time first."""
        rng = self.rng
        o = dict(opts)
        ign = False
        if rng.random() < .35:
            o["ignore_nan"] = ign = rng.random() < .8
        f = lambda v: sum(v) / len(v)
        tf = temporal if callable(temporal) else f
        if rng.random() < .6:
            spec, f = agg(rng, exact=exact and not temporal)
            o["agg_func"] = spec
        if temporal and rng.random() < .75:
            spec, tf = agg(rng, exact=exact)
            k = "temporal_agg_func"
            if cls in (R.FlowDurationCurveRecorder, R.FlowDurationCurveDeviationRecorder) and rng.random() < .3:
                k = "fdc_agg_func"
            if cls is R.StorageDurationCurveRecorder and rng.random() < .3:
                k = "sdc_agg_func"
            o[k] = spec
        d = rng.choice([None, None, "min", "maximise", "minimize"])
        if d:
            o["is_objective"] = d

        def vector(spy):
            v = want(spy)
            return over(tf, v, ign) if temporal else v
        self.key(cls.__name__, sorted(opts), str(o.get("temporal_agg_func"))[:20], str(o.get("agg_func"))[:20], ign)
        return self.recs.add(cls, refs, o, cls.__name__, vector, json=json, f=f, ignore=ign, frame=frame, direction=d, safe=safe, **kw)

    # ------------------------------------------------------------- time series recorders as statistics
    def series(self):
        k = self.rng.randrange(5)
        b = self.b
        if k == 0:
            nd = self.node(b.flows)
            o = {"factor": 2.0} if self.rng.random() < .3 else {}
            f = b.flow(nd)
            self.add(R.NumpyArrayNodeRecorder, dict(node=b.n[nd]), o, lambda spy: f(spy) * o.get("factor", 1), temporal=True, exact=True)
        elif k == 1:
            st = self.node(b.stores)
            self.add(R.NumpyArrayStorageRecorder, dict(node=b.n[st]), {}, b.vol(st), temporal=True, exact=True)
        elif k == 2:
            d = np.array([[self.rng.choice([math.nan] * 2 + [0.0, 1.0, 2.0, 5.5, -3.0]) for _ in range(b.S)] for _ in range(b.T)])
            self.ctx.event("nan", int(np.isnan(d).sum()))
            p = Values(self.m, d, name=b.name())
            self.add(R.NumpyArrayParameterRecorder, dict(parameter=p), {}, lambda spy: d, temporal=True, exact=True)
        elif k == 3:
            p, d = b.idx()
            self.add(R.NumpyArrayIndexParameterRecorder, dict(parameter=p), {}, lambda spy: d.astype(float), temporal=True, exact=True)
        else:
            nd = self.node()
            f, mx = b.flow(nd), b.limit(nd)
            self.add(R.NumpyArrayNodeDeficitRecorder, dict(node=b.n[nd]), {}, lambda spy: mx(spy) - f(spy), temporal=True, exact=True)

    def days(self):
        return np.array([k for _, k, _ in self.b.cal.steps], dtype=float)[:, None]

    def total(self):
        b, rng = self.b, self.rng
        k = rng.randrange(6)
        nd = self.node() if k < 2 else self.node(b.flows + ["agn"])
        f = b.flow(nd)
        fac = rng.choice([None, None, 3.0, -.5, 0])
        o = {} if fac is None else {"factor": fac}
        fac = 1.0 if fac is None else fac
        if k == 0:
            mx = b.limit(nd)
            self.add(R.TotalDeficitNodeRecorder, dict(node=b.n[nd]), {}, lambda spy: ((mx(spy) - f(spy)) * self.days()).sum(axis=0))
        elif k == 1:
            mx = b.limit(nd)

            def want(spy):
                gap = abs(mx(spy) - f(spy))
                out = (gap > 1e-6).mean(axis=0)
                out[((gap > 5e-7) & (gap < 2e-6)).any(axis=0)] = np.inf  # too close to tell
                return out
            self.add(R.DeficitFrequencyNodeRecorder, dict(node=b.n[nd]), {}, want)
        elif k == 2:
            self.add(R.TotalFlowNodeRecorder, dict(node=b.n[nd]), o, lambda spy: (f(spy) * self.days()).sum(axis=0) * fac)
        elif k == 3:
            self.add(R.MeanFlowNodeRecorder, dict(node=b.n[nd]), o, lambda spy: f(spy).mean(axis=0) * fac)
        elif k == 4:
            p = b.par(-5, 20)
            w = rng.random() < .5
            if w:
                o["integrate"] = True
            self.add(R.TotalParameterRecorder, dict(parameter=p), o, lambda spy: (np.array(spy.par[p]) * (self.days() if w else 1)).sum(axis=0) * fac)
        else:
            p = b.par(-5, 20)
            self.add(R.MeanParameterRecorder, dict(parameter=p), o, lambda spy: np.array(spy.par[p]).mean(axis=0) * fac)

    def storage(self):
        b, rng = self.b, self.rng
        st = self.node(b.stores)
        v = b.vol(st)
        if rng.random() < .5:
            self.add(R.MinimumVolumeStorageRecorder, dict(node=b.n[st]), {}, lambda spy: v(spy).min(axis=0), exact=True)
        else:
            th = float(rng.randint(0, 12))
            self.add(R.MinimumThresholdVolumeStorageRecorder, dict(node=b.n[st]), {"threshold": th}, lambda spy: (v(spy) <= th).any(axis=0).astype(float), exact=True)

    def duration(self):
        b, rng = self.b, self.rng
        pcs = rng.choice([[50], [5, 50, 95], [0, 100], [95.0, 80, 33.3, 10], list(range(0, 101, 10))])
        table = lambda v: np.array([[pct(c, q) for c in v.T] for q in pcs])
        fr = lambda want: (lambda spy: (want(spy), [float(q) for q in pcs]))
        k = rng.randrange(4)
        if k == 0:
            st = self.node(b.stores)
            pr = rng.random() < .3
            s = b.pc(st) if pr else b.vol(st)
            want = lambda spy: table(s(spy))
            self.add(R.StorageDurationCurveRecorder, dict(node=b.n[st]), dict(percentiles=pcs, **({"proportional": True} if pr else {})), want, temporal=True, frame=fr(want))
            return
        nd = self.node(b.flows)
        f = b.flow(nd)
        if k == 1:
            want = lambda spy: table(f(spy))
            self.add(R.FlowDurationCurveRecorder, dict(node=b.n[nd]), dict(percentiles=pcs), want, temporal=True, frame=fr(want))
        elif k == 2:
            ms = [a.month for _, _, a in b.cal.steps]
            have = sorted(set(ms))
            months = rng.sample(have, rng.randint(1, len(have)))
            if rng.random() < .3:
                months += rng.sample(range(1, 13), 3)
            mask = np.isin(ms, months)
            want = lambda spy: table(f(spy)[mask])
            self.add(R.SeasonalFlowDurationCurveRecorder, dict(node=b.n[nd]), dict(percentiles=pcs, months=months), want, temporal=True)
        else:
            o = dict(percentiles=pcs)
            refs = dict(node=b.n[nd])
            pick = lambda S: np.array([[rng.choice([0, 1, 2, 3, 4, 6, 8]) * 1.0 for _ in range(S)] for _ in pcs])
            ss = self.m.scenarios.scenarios
            sc = rng.choice(ss) if ss and rng.random() < .5 else None
            if sc is not None:
                refs["scenario"] = sc
            ts = {}
            for nm in rng.choice([["lower_target_fdc"], ["upper_target_fdc"], ["lower_target_fdc", "upper_target_fdc"]]):
                wide = rng.random() < .6
                t = pick((sc.size if sc is not None else b.S) if wide else 1)
                o[nm] = t[:, 0].tolist() if t.shape[1] == 1 and rng.random() < .5 else t.tolist()
                ts[nm] = np.array([[row[0 if row.size == 1 else (c[ss.index(sc)] if sc is not None else i)] for i, c in enumerate(b.combos)] for row in t])

            def want(spy):
                fdc = table(f(spy))
                z = np.zeros_like(fdc)
                dev = z
                gone = z.astype(bool)
                if "upper_target_fdc" in ts:
                    t = ts["upper_target_fdc"]
                    gone = gone | (t == 0)
                    dev = np.maximum(dev, (fdc - t) / np.where(t == 0, 1, t))
                if "lower_target_fdc" in ts:
                    t = ts["lower_target_fdc"]
                    gone = gone | (t == 0)
                    dev = np.maximum(dev, (t - fdc) / np.where(t == 0, 1, t))
                self.ctx.event("nan", int(gone.sum()))
                return np.where(gone, math.nan, dev)
            self.add(R.FlowDurationCurveDeviationRecorder, refs, o, want, temporal=True, frame=fr(want), safe=False)

    def count(self):
        b, rng = self.b, self.rng
        years = [a.year for _, _, a in b.cal.steps]
        y0, y1 = b.cal.start.year, b.cal.end.year
        k = rng.randrange(3)
        th = rng.choice([0, 1, 1, 1, 2, 3])
        if k == 0:
            p, d = b.idx()
            self.add(R.TimestepCountIndexParameterRecorder, dict(parameter=p), {"threshold": th}, lambda spy: (d >= th).sum(axis=0).astype(float), exact=True)
        elif k == 1:
            p, d = b.idx()
            self.add(R.AnnualCountIndexParameterRecorder, dict(parameter=p), {"threshold": th},
                     lambda spy: sum((d[np.array(years) == y] >= th).any(axis=0).astype(float) for y in sorted(set(years))), exact=True)
        else:
            ps = [b.idx() for _ in range(rng.randint(1, 3))]
            o = {"threshold": th}
            on = np.ones(b.T, bool)
            if rng.random() < .4:
                o["exclude_months"] = rng.sample(range(1, 13), rng.randint(1, 6))
                on &= ~np.isin([a.month for _, _, a in b.cal.steps], o["exclude_months"])
            md = np.array([a.month * 100 + a.day for _, _, a in b.cal.steps])
            if rng.random() < .4:
                d = dt.date(2015, 1, 1) + DAY * rng.randrange(200)
                o.update(include_from_month=d.month, include_from_day=d.day)
                on &= md >= d.month * 100 + d.day
            if rng.random() < .4:
                d = dt.date(2015, 7, 1) + DAY * rng.randrange(183)
                o.update(include_to_month=d.month, include_to_day=d.day)
                on &= md <= d.month * 100 + d.day

            def want(spy):
                hit = np.any([d >= th for _, d in ps], axis=0) & on[:, None]
                return np.array([hit[np.array(years) == y].sum(axis=0) for y in range(y0, y1 + 1)], dtype=float)
            self.add(R.AnnualCountIndexThresholdRecorder, dict(parameters=[p for p, _ in ps]), o, want, temporal=math.fsum, exact=True, frame=lambda spy: (want(spy), list(range(y0, y1 + 1))))

    def annual(self):
        b, rng = self.b, self.rng
        nds = [self.node(b.flows) for _ in range(rng.randint(1, 3))]
        o = {}
        fac = [1.0] * len(nds)
        if rng.random() < .5:
            o["factors"] = fac = [rng.choice([1.0, 2.0, -.5]) for _ in nds]
        y0, y1 = b.cal.start.year, b.cal.end.year

        def want(spy):
            out = np.zeros((y1 - y0 + 1, b.S))
            q = sum(f * b.flow(n)(spy) for n, f in zip(nds, fac))
            for t, (d, k, _) in enumerate(b.cal.steps):
                for j in range(k):
                    y = (d + DAY * j).year
                    if y != d.year:
                        self.ctx.event("year splits")
                    if y <= y1:
                        out[y - y0] += q[t]
            return out
        self.add(R.AnnualTotalFlowRecorder, dict(nodes=[b.n[n] for n in nds]), o, want, temporal=math.fsum, frame=lambda spy: (want(spy), list(range(y0, y1 + 1))))

    def energy(self):
        b, rng = self.b, self.rng
        nd = self.node(b.flows)
        f = b.flow(nd)
        el = rng.choice([None, b.par(0, 60)])
        o = {k: v for k, v in (("turbine_elevation", b.number(0, 40)), ("efficiency", .85), ("density", 997.0), ("flow_unit_conversion", 1e3), ("energy_unit_conversion", 1e-3)) if rng.random() < .5}

        def want(spy):
            t = o.get("turbine_elevation", 0.0)
            head = np.full((b.T, b.S), t) if el is None else np.array(spy.par[el]) - t
            p = np.maximum(head, 0) * f(spy) * o.get("density", 1000) * 9.81 * o.get("efficiency", 1.0) * o.get("flow_unit_conversion", 1.0) * o.get("energy_unit_conversion", 1e-6)
            return (p * self.days()).sum(axis=0)
        self.add(R.TotalHydroEnergyRecorder, dict(node=b.n[nd], water_elevation_parameter=el), o, want)

    def score(self):
        b, rng = self.b, self.rng
        nd = self.node(b.flows)
        f = b.flow(nd)
        end = b.cal.steps[-1][0] + DAY * (b.cal.steps[-1][1] - 1)
        pad = rng.choice([0, 0, 40])
        ix = pd.date_range(str(b.cal.start - DAY * pad), str(end + DAY * pad), freq="D")
        obs = self.ctx.np.randint(0, 10, size=(len(ix), b.S)).astype(float)
        df = pd.DataFrame(obs, index=ix, columns=[f"c{i}" for i in range(b.S)])
        rows, t = [], pad
        for _, k, _ in b.cal.steps:
            rows.append(obs[t:t + k].mean(axis=0))
            t += k
        o = np.array(rows)
        k = rng.randrange(6)
        cls = [C.RootMeanSquaredErrorNodeRecorder, C.MeanAbsoluteErrorNodeRecorder, C.MeanSquareErrorNodeRecorder, C.PercentBiasNodeRecorder, C.RMSEStandardDeviationRatioNodeRecorder,
               C.NashSutcliffeEfficiencyNodeRecorder][k]

        def want(spy):
            self.ctx.event("scores")
            out = []
            for i, c in enumerate(f(spy).T):
                e = [x - y for x, y in zip(o[:, i], c)]
                n = len(e)
                mse = math.fsum(x * x for x in e) / n
                mu = math.fsum(o[:, i]) / n
                var = math.fsum((x - mu) ** 2 for x in o[:, i]) / n
                if k in (3,) and abs(math.fsum(o[:, i])) < 1e-9 or k in (4, 5) and var < 1e-9:
                    out.append(math.inf)  # undefined
                    continue
                out.append([lambda: math.sqrt(mse), lambda: math.fsum(abs(x) for x in e) / n, lambda: mse, lambda: 100 * math.fsum(e) / math.fsum(o[:, i]), lambda: math.sqrt(mse / var), lambda: 1 - mse / var][k]())
            return np.array(out)
        self.add(cls, dict(node=b.n[nd]), dict(observed=df), want, json=False)

    def nested(self):
        rng = self.rng
        pool = [it for it in self.recs.items if it[3]["safe"]]
        if len(pool) < 2:
            return
        kids = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        spec, f = agg(rng)
        ff = f if rng.random() < .8 else (lambda v: sum(v) / len(v))
        spec2, f2 = agg(rng)
        # without its own function for the recorders, the one for the scenarios is used for both
        how = rng.randrange(4)
        o = [{}, {"agg_func": spec}, {"recorder_agg_func": spec}, {"agg_func": spec2, "recorder_agg_func": spec}][how]
        mean = lambda v: sum(v) / len(v)
        rf, sf = [(mean, mean), (f, f), (f, mean), (f, f2)][how]
        self.key("aggregated", str(spec)[:20], str(spec2)[:20], how, len(kids))
        self.ctx.event("nested")

        def vector(spy):
            v = np.array([k[2](spy) for k in kids])
            out = over(rf, v, False)
            out[~np.isfinite(v).all(axis=0)] = np.inf  # undefined: the maximum of nothing and a number, say
            return out
        self.recs.add(R.AggregatedRecorder, dict(recorders=[k[0] for k in kids]), o, "aggregated", vector, f=sf, ignore=False, frame=None, direction=None, safe=True)


def aggregated(ctx, g, spy, r, kind, vector, more):
    want = vector(spy)
    got = np.array(r.values(), dtype=float)
    ctx.event("statistics", want.size)
    if np.isinf(want).any() or not np.isfinite(want[~np.isnan(want)]).all() or (abs(want[~np.isnan(want)]) > 1e250).any():
        ctx.event("undefined")
        loose = ~np.isfinite(want) & ~np.isnan(want)
        want[loose] = got[loose] if got.shape == want.shape else 0
    ctx.close(got, want, kind + "-values", f"{r}", rtol=1e-7, atol=1e-7)
    if np.isinf(got).any():
        return
    x = r.aggregated_value()
    y = one(more["f"], got, more["ignore"])  # of the recorder's own values, which were just compared
    ctx.event("aggregated")
    if not np.isfinite(y) and not np.isnan(y):
        ctx.event("undefined")
        return
    ctx.close(x, y, kind + "-aggregated", f"{r} with {r.agg_func}", rtol=1e-9, atol=1e-9)
    ctx.check({"min": "minimise", "minimize": "minimise", "maximise": "maximise", None: None}[more["direction"]] == r.is_objective, "direction", f"{r}: {r.is_objective}")
    ctx.check((r in list(g.m.objectives)) == (more["direction"] is not None), "objectives", f"{r} {more['direction']}")
    if np.isfinite(x):
        constraint(ctx, g, r, x)
    if more["frame"]:
        data, rows = more["frame"](spy)
        df = r.to_dataframe()
        ctx.event("frames")
        ctx.close(df.values.astype(float), data, kind + "-frame", f"{r}", rtol=1e-7, atol=1e-7)
        ix = [i.year for i in df.index] if isinstance(df.index, pd.PeriodIndex) else [float(i) for i in df.index]
        ctx.check(ix == rows, kind + "-rows", f"{r}: {ix}, expected {rows}")
        names, labels = g.b.labels()
        ctx.check([c if isinstance(c, tuple) else (c,) for c in df.columns] == labels, kind + "-labels", f"{r}: {df.columns}, expected {labels}")


def constraint(ctx, g, r, x):
    """Bounds at, below and above the value."""
    rng = g.rng
    ctx.event("constraints")
    eps = abs(x) * 1e-9 + 1e-9
    lo, hi = rng.choice([(None, None), (x, None), (None, x), (x, x), (x + eps, None), (None, x - eps), (x - eps, x + eps), (x + eps, x + 1), (x - 1, x - eps), (x - 1, x), (x, x + 1), (x + eps, x + eps)])
    if lo is not None and hi is not None and lo > hi:
        return
    r.constraint_lower_bounds, r.constraint_upper_bounds = None, None
    r.constraint_lower_bounds = lo
    r.constraint_upper_bounds = hi
    c = lo is not None or hi is not None
    ctx.check(r.is_constraint == c and (r in list(g.m.constraints)) == c, "constraint", f"{r} {lo} {hi}")
    ctx.check((r.constraint_lower_bounds, r.constraint_upper_bounds) == (lo, hi), "bounds", f"{r} {lo} {hi}")
    if c:
        bad = (lo is not None and x < lo) or (hi is not None and x > hi)
        ctx.check(r.is_constraint_violated() == bad, "violated", f"{r}: value {x!r}, bounds {lo!r} {hi!r}, reported {r.is_constraint_violated()}")
    r.constraint_lower_bounds, r.constraint_upper_bounds = None, None


# ----------------------------------------------------------------------------- distributions
def phi(z):
    return .5 * (1 + math.erf(z / math.sqrt(2)))


def kde(v, lo, hi, xs):
    """(probability of lo..hi, density at xs) with Scott's bandwidth."""
    n = len(v)
    mu = math.fsum(v) / n
    h = math.sqrt(math.fsum((x - mu) ** 2 for x in v) / (n - 1)) * n ** -.2
    p = math.fsum(phi((hi - x) / h) - phi((lo - x) / h) for x in v) / n
    v = np.array(v)
    return p, np.array([np.exp(-.5 * ((x - v) / h) ** 2).sum() / (n * h * math.sqrt(2 * math.pi)) for x in xs])


def distribution(ctx):
    rng = ctx.rng
    b = RB(rng, nmax=90)
    st = rng.choice(b.stores)
    norm = rng.random() < .5
    o = {}
    rf = None
    if b.cal.delta == 1 and rng.random() < .5:
        o["resample_freq"] = rng.choice(["M", "Y"])
        o["resample_func"] = rf = rng.choice(["min", "max", "mean"])
    refl = rng.random() < .6
    if not refl or rng.random() < .5:
        o["use_reflection"] = refl
    if rng.random() < .5:
        o["num_pdf"] = rng.choice([2, 11, 51])
    recs = Recs(ctx, b)
    refs = dict(node=b.n[st])
    target = None
    if norm:
        cc = rng.choice([0.3, .5, .9])
        refs["parameter"] = P.ConstantParameter(b.m, cc, name="cc")
    else:
        o["target_volume_pc"] = target = rng.choice([0.1, .5, .9, 1.0])
    cls = R.NormalisedGaussianKDEStorageRecorder if norm else R.GaussianKDEStorageRecorder
    r = recs.add(cls, refs, o, "kde", None)
    spy = Spy(b.m, flows=True)
    ctx.key("kde", norm, sorted(o), b.how)
    err = None
    try:
        b.m.run()
    except Exception as e:  # singular data are refused below
        err = e
    v = b.pc(st)(spy)
    if norm:
        v = np.where(v < cc, v / cc - 1, (v - cc) / (1 - cc))
    if rf:
        g = {}
        for (d, _, _), row in zip(b.cal.steps, v):
            g.setdefault((d.year, d.month) if o["resample_freq"] == "M" else d.year, []).append(row)
        v = np.array([getattr(np, rf)(np.array(x), axis=0) for x in g.values()])
    v = [float(x) for x in v.flatten()]
    if len(v) < 2 or max(v) - min(v) < 1e-3:
        ctx.event("no spread")
        return
    if err is not None:
        raise err
    ctx.event("distributions")
    xs = np.linspace(0, 1, o.get("num_pdf", 101))
    a, z = (-1.0, 0.0) if norm else (0.0, target)
    p, pdf = kde(v, a, z, xs)
    if refl:
        for w in ([2 * a - x for x in v], [2.0 - x for x in v]):
            q, e = kde(w, a, z, xs)
            p, pdf = p + q, pdf + e
    ctx.close(r.aggregated_value(), p, "kde-probability", f"{r} {o}", rtol=1e-6, atol=1e-7)
    df = r.to_dataframe()
    ctx.close(df.values.flatten(), pdf, "kde-density", f"{r} {o}", rtol=1e-6, atol=1e-9)
    ctx.close(np.array(df.index, dtype=float), xs, "kde-points", f"{r}")


def case(ctx):
    rng = ctx.rng
    if ctx.i % 12 == 11:
        return distribution(ctx)
    r = rng.random()
    kw = dict(nmax=40) if r < .7 else dict(nmax=900, nscen=rng.randint(0, 1)) if r < .8 else dict(nmax=150, deltas=("M", 7, 30, 10, 5))
    b = RB(rng, **kw)
    g = G(ctx, b)
    for _ in range(rng.randint(3, 9)):
        rng.choice([g.series, g.series, g.total, g.total, g.storage, g.duration, g.duration, g.count, g.count, g.annual, g.energy, g.score, g.nested, g.nested])()
    ctx.sample(dict(steps=b.T, step=b.cal.delta, combinations=b.S, recorders=[type(r).__name__ for r, *_ in g.recs.items]))
    spy = Spy(b.m, flows=True)
    for run in range(2 if rng.random() < .2 else 1):
        ctx.event("reruns", run)
        b.m.run()
        for r, kind, vector, more in g.recs.items:
            aggregated(ctx, g, spy, r, kind, vector, more)
