"""P27: a setting of one component changed after a run takes effect on the next, as if it had been changed before the first."""
import warnings

import numpy as np
import pandas as pd

from pywr import nodes as N
from pywr import parameters as P
from pywr.core import Model, Scenario
from pywr.parameters import licenses as L
from pywr.recorders import NumpyArrayIndexParameterRecorder, NumpyArrayNodeRecorder, NumpyArrayParameterRecorder, NumpyArrayStorageRecorder


class Base:
    """Two inputs, a storage and outputs, with something to decide in each step."""

    def __init__(self, seed, solver, start, nsteps, delta):
        r = np.random.RandomState(seed)
        s = pd.Timestamp(start)
        self.m = m = Model(start=s, end=s + pd.Timedelta(days=delta * nsteps - 1), timestep=int(delta), solver=solver)
        self.index = pd.period_range(s, periods=nsteps, freq=f"{delta}D")
        self.sc = Scenario(m, "sc", size=2)
        self.i = N.Catchment(m, "i", flow=P.ArrayIndexedScenarioParameter(m, self.sc, r.randint(2, 20, (nsteps, 2)).astype(float)))
        self.j = N.Input(m, "j", max_flow=6.0, cost=3.13)
        self.l = N.Link(m, "l")
        self.s = N.Storage(m, "s", max_volume=80.0, initial_volume=40.0, cost=-2.31)
        self.o = N.Output(m, "o", max_flow=P.ArrayIndexedParameter(m, r.randint(1, 15, nsteps).astype(float)), cost=-10.71)
        self.q = N.Output(m, "q", max_flow=9.0, cost=-7.37)
        self.x = N.Output(m, "x", cost=.61)
        self.i.connect(self.l); self.j.connect(self.l); self.l.connect(self.s); self.s.connect(self.o); self.l.connect(self.q); self.l.connect(self.x)

    def arr(self, r, lo=1, hi=15):
        return [float(v) for v in r.randint(lo, hi, len(self.index))]


def drive(b, p):
    b.q.max_flow = p
    return p


def chain(b, n):
    """Puts a node between the link and the second demand."""
    b.l.disconnect(b.q)
    b.l.connect(n)
    n.connect(b.q)
    return n


def limited(n, x):
    n.max_flow = x
    return n


def num(lo, hi):
    return lambda r: float(np.round(r.uniform(lo, hi), 3))


def integer(lo, hi):
    return lambda r: int(r.randint(lo, hi + 1))


def pick(*xs):
    return lambda r: xs[r.randint(len(xs))]


def series(b, r):
    return pd.Series(b.arr(r), index=b.index)


def storage_lookup(cls, **kw):
    return lambda b: drive(b, cls(b.m, b.s, [0.0, 40.0, 80.0], [1.0, 4.0, 9.0], **kw))


# name: (maker, {attribute: new value})
T = {
    "rollingvirtualstorage": (lambda b: N.RollingVirtualStorage(b.m, "v", [b.o, b.q], timesteps=3, max_volume=50.0, initial_volume=50.0),
                              dict(timesteps=integer(2, 7), max_volume=num(20, 60), factors=pick([.5, 1.0], [2.0, .1]), initial_volume=num(10, 50))),
    "annualvirtualstorage": (lambda b: N.AnnualVirtualStorage(b.m, "v", nodes=[b.o], max_volume=60.0, initial_volume=30.0, reset_day=4, reset_month=1),
                             dict(reset_day=integer(1, 25), reset_month=pick(1, 2, 12), max_volume=num(40, 90), initial_volume=num(5, 60),
                                  reset_to_initial_volume=pick(True), factors=pick([.5], [2.0]))),
    "monthlyvirtualstorage": (lambda b: N.MonthlyVirtualStorage(b.m, "v", [b.o], max_volume=60.0, initial_volume=30.0, months=2),
                              dict(months=integer(1, 3), initial_months=pick(0, 1), reset_to_initial_volume=pick(True))),
    "seasonalvirtualstorage": (lambda b: N.SeasonalVirtualStorage(b.m, "v", nodes=[b.o], max_volume=40.0, initial_volume=20.0, reset_day=29, reset_month=12, end_day=3, end_month=1),
                               dict(reset_day=pick(28, 30, 31), end_day=integer(1, 9), max_volume=num(30, 60))),
    "virtualstorage": (lambda b: N.VirtualStorage(b.m, "v", [b.o, b.q], max_volume=60.0, initial_volume=30.0),
                       dict(factors=pick([.5, 1.0], [2.0, .1]), initial_volume=num(5, 60), min_volume=num(0, 10), max_volume=num(30, 50))),
    "storage": (lambda b: b.s, dict(initial_volume=num(0, 70), max_volume=num(45, 120), min_volume=num(1, 30), cost=num(-20, 5))),
    "catchment": (lambda b: b.i, dict(flow=num(1, 20), cost=num(-3, 3))),
    "output": (lambda b: b.o, dict(max_flow=num(1, 20), cost=num(-20, 1), min_flow=num(0, .5))),
    "losslink": (lambda b: chain(b, N.LossLink(b.m, "n", loss_factor=.2, loss_factor_type="gross")),
                 dict(loss_factor=pick(0.0, .5, .1, 1.0), max_flow=num(1, 8), cost=num(-1, 9))),
    "losslink net": (lambda b: chain(b, N.LossLink(b.m, "n", loss_factor=0.0)), dict(loss_factor=pick(.5, .1, 1.0))),
    "breaklink": (lambda b: chain(b, N.BreakLink(b.m, "n")), dict(max_flow=num(1, 8), cost=num(-1, 9))),
    "piecewiselink": (lambda b: chain(b, N.PiecewiseLink(b.m, 2, name="n", max_flows=[3.0, 4.0], costs=[1.11, 5.23])),
                      dict(costs=pick([-1.07, 8.1], [8.19, -1.13]), max_flows=pick([1.0, 2.0], [9.0, .5]))),
    "rivergauge": (lambda b: chain(b, N.RiverGauge(b.m, name="n", mrf=4.0, mrf_cost=-30.0)), dict(mrf=num(0, 8), mrf_cost=num(-9, 9), cost=num(-9, 9))),
    "delaynode": (lambda b: chain(b, N.DelayNode(b.m, "n", timesteps=2)), {"delay_param.timesteps": integer(1, 6), "delay_param.initial_flow": num(0, 5)}),
    "aggregatednode": (lambda b: limited(N.AggregatedNode(b.m, "n", [b.o, b.q]), 9.0), dict(max_flow=num(2, 14), flow_weights=pick([1.0, 2.0], [3.0, .2]), factors=pick([1.0, 2.0], [3.0, 1.0]))),
    "flowdelay": (lambda b: drive(b, P.FlowDelayParameter(b.m, b.o, timesteps=2)), dict(timesteps=integer(1, 6), initial_flow=num(0, 9))),
    "flowdelay days": (lambda b: drive(b, P.FlowDelayParameter(b.m, b.o, days=7)), dict(days=pick(14, 21, 28))),
    "rollingmean": (lambda b: drive(b, P.RollingMeanFlowNodeParameter(b.m, b.o, timesteps=2)), dict(timesteps=integer(1, 6), initial_flow=num(0, 9))),
    "rollingmean days": (lambda b: drive(b, P.RollingMeanFlowNodeParameter(b.m, b.o, days=7)), dict(days=pick(14, 21, 28))),
    "dataframe": (lambda b: drive(b, P.DataFrameParameter(b.m, series(b, np.random.RandomState(1)))), dict(dataframe=series, timestep_offset=integer(-2, 2))),
    "monthly": (lambda b: drive(b, P.MonthlyProfileParameter(b.m, np.arange(12.0))), dict(interp_day=pick("first", "last"))),
    "harmonic": (lambda b: drive(b, P.AnnualHarmonicSeriesParameter(b.m, 5, [2.0], [0.3])), dict(mean=num(3, 9))),
    "discount": (lambda b: drive(b, P.DiscountFactorParameter(b.m, .1, 2015)), dict(rate=num(.01, .3), base_year=integer(2010, 2016))),
    "drawdown": (lambda b: drive(b, P.UniformDrawdownProfileParameter(b.m, 5, 1, 0)), dict(reset_day=integer(1, 28), reset_month=integer(1, 12), residual_days=integer(0, 60))),
    "aggregated": (lambda b: drive(b, P.AggregatedParameter(b.m, [P.ConstantParameter(b.m, 2.0), P.ConstantParameter(b.m, 3.0)], agg_func="sum")),
                   dict(agg_func=pick("min", "max", "product", "mean"))),
    "max": (lambda b: drive(b, P.MaxParameter(b.m, P.ArrayIndexedParameter(b.m, b.arr(np.random.RandomState(2))), threshold=3.0)), dict(threshold=num(0, 14))),
    "min": (lambda b: drive(b, P.MinParameter(b.m, P.ArrayIndexedParameter(b.m, b.arr(np.random.RandomState(3))), threshold=9.0)), dict(threshold=num(0, 14))),
    "controlcurve": (lambda b: drive(b, P.ControlCurveParameter(b.m, b.s, [.6, .3], values=[8.0, 4.0, 1.0])),
                     dict(values=pick([1.0, 2.0, 3.0], [9.0, 0.0, 5.0]), control_curves=pick([.9, .1], [.5, .4]))),
    "interpolated curve": (lambda b: drive(b, P.ControlCurveInterpolatedParameter(b.m, b.s, [.6], values=[8.0, 4.0, 1.0])),
                           dict(values=pick([1.0, 2.0, 3.0], [9.0, 0.0, 5.0]), control_curves=pick([.9], [.2]))),
    "storage threshold": (lambda b: drive(b, P.StorageThresholdParameter(b.m, b.s, 40.0, values=[2.0, 7.0], predicate=">")),
                          dict(threshold=num(5, 75), ratchet=pick(True))),
    "node threshold": (lambda b: drive(b, P.NodeThresholdParameter(b.m, b.o, 6.0, values=[2.0, 7.0], predicate=">")),
                       dict(threshold=num(1, 14), ratchet=pick(True))),
    "interpolated volume": (storage_lookup(P.InterpolatedVolumeParameter), dict(interp_values=pick([2.0, 7.0, 3.0], [9.0, 0.0, 5.0]))),
    "annual licence": (lambda b: drive(b, L.AnnualLicense(b.m, b.q, 60.0)), dict(_amount=num(20, 120))),
    "rectifier": (lambda b: drive(b, P.RectifierParameter(b.m, .4, 9.0)), dict(max_output=num(2, 12), min_output=num(0, 2))),
    "logistic": (lambda b: drive(b, P.LogisticParameter(b.m, .4, 2.0, 9.0)), dict(max_output=num(2, 12), growth_rate=num(.5, 3))),
    "binary step": (lambda b: drive(b, P.BinaryStepParameter(b.m, .4, 9.0)), dict(output=num(2, 12))),
    "scaled": (lambda b: drive(b, P.ScaledProfileParameter(b.m, 2.0, P.MonthlyProfileParameter(b.m, np.arange(12.0)))), dict(scale=num(.1, 3))),
    "polynomial": (lambda b: drive(b, P.Polynomial1DParameter(b.m, [1.0, .1], storage_node=b.s)), dict(coefficients=pick(np.array([2.0, .05]), np.array([0.0, .1])))),
    "constant": (lambda b: drive(b, P.ConstantParameter(b.m, 3.0)), dict(scale=num(.5, 2), offset=num(0, 2))),
    "hydropower target": (lambda b: drive(b, P.HydropowerTargetParameter(b.m, P.ConstantParameter(b.m, 3.0), turbine_elevation=0.0, water_elevation_parameter=P.ConstantParameter(b.m, 60.0))),
                          dict(efficiency=num(.3, .9), turbine_elevation=num(0, 30), flow_unit_conversion=num(.5, 2))),
}
PAIRS = sorted((k, a) for k, (_, c) in T.items() for a, v in c.items() if v is not None)


def build(seed, name, solver, start, n, delta):
    b = Base(seed, solver, start, n, delta)
    c = T[name][0](b)
    recs = [NumpyArrayNodeRecorder(b.m, b.m.nodes[k], name=f"{k} flow") for k in "ijoqx"]
    recs.append(NumpyArrayStorageRecorder(b.m, b.s, name="volume"))
    if isinstance(c, N.VirtualStorage):
        recs.append(NumpyArrayStorageRecorder(b.m, c, name="virtual volume"))
    if isinstance(c, P.IndexParameter):
        recs.append(NumpyArrayIndexParameterRecorder(b.m, c, name="index"))
    if isinstance(c, P.Parameter):
        recs.append(NumpyArrayParameterRecorder(b.m, c, name="value"))
    return b, c, recs


def change(b, c, attr, new, seed):
    r = np.random.RandomState(seed)
    *path, last = attr.split(".")
    for p in path:
        c = getattr(c, p)
    setattr(c, last, new(b, r) if new.__code__.co_argcount == 2 else new(r))


def results(b, recs):
    try:
        b.m.run()
    except Exception as e:
        return type(e).__name__ + ": " + str(e)[:200]
    return {r.name: np.array(r.data) for r in recs}


def equal(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return all(np.allclose(x[k], y[k], rtol=1e-7, atol=1e-7, equal_nan=True) for k in x)


def check(ctx, i):
    name, attr = PAIRS[i % len(PAIRS)]
    rng = ctx.rng
    new = T[name][1][attr]
    args = (rng.randrange(10**6), name, rng.choice(["glpk", "glpk-edge", "lpsolve"]), rng.choice(["2015-12-25", "2014-12-31", "2016-02-25"]), rng.randint(5, 14), 1 if "days" not in name else 7)
    seed = rng.randrange(10**6)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b, c, recs = build(*args)
        old = results(b, recs)
        change(b, c, attr, new, seed)
        got = results(b, recs)
        again = results(b, recs)
        b, c, recs = build(*args)
        change(b, c, attr, new, seed)
        want = results(b, recs)
    if isinstance(want, str):
        ctx.event("settings refused:" + want.split(":")[0])
    ctx.event("changed settings")
    ctx.event(f"setting:{name}.{attr}")
    if not equal(old, want):
        ctx.event("settings with an effect")
        ctx.event(f"effect:{name}.{attr}")
    for when, x in (("", got), ("second ", again)):
        if not equal(x, want):
            k = "the run" if isinstance(x, str) or isinstance(want, str) else next(k for k in x if not np.allclose(x[k], want[k], rtol=1e-7, atol=1e-7, equal_nan=True))
            ctx.violation("setting ignored", f"{attr} of {name} changed after a run ({args}): {k} of the {when}run afterwards is {x if isinstance(x, str) else x[k].tolist()}, "
                          f"that of a model with it changed before its first run is {want if isinstance(want, str) else want[k].tolist()}")
            break
    ctx.counters["asserted"] += 2
