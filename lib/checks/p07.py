"""P07 calendar."""
import calendar
import datetime as dt

import numpy as np
import pandas as pd

from pywr.model import Model
from pywr.nodes import Input, Output
from pywr.recorders import NumpyArrayNodeRecorder, Recorder
from pywr.timestepper import Timestepper

META = {"n": [800, 16000], "budget": [60, 600],
        "min_events": {"steps": 20000, "steps over a year end": 200, "leap years": 500, "runs": 900, "february 29": 50, "restarts": 100, "stepped runs": 100},
        "rule": "a distinct case is a (start, end, step length, way of giving the step length) combination",
        "assumptions": ["civil calendar from Python's datetime and calendar modules",
                        "for calendar-month steps the day attributes are those of the last day (documented: taken from pandas.Period)"]}

STARTS = ["2015-01-01", "2015-12-31", "2016-02-28", "2016-02-29", "2016-12-31", "2000-02-25", "1900-02-25", "2100-02-20", "1999-12-30", "2019-06-01", "2024-01-31", "2023-03-01",
          "2200-02-20", "1800-02-25", "1700-12-30", "2199-12-20"]


class Spy(Recorder):
    def __init__(self, model, **kw):
        super().__init__(model, **kw)
        self.seen, self.befores = [], []

    def reset(self):
        self.seen, self.befores = [], []

    def before(self):
        self.befores.append(self.model.timestepper.current.index)

    def after(self):
        ts = self.model.timestepper.current
        assert ts is self.model.timestep or self.model.timestep.index == ts.index
        self.seen.append(dict(index=ts.index, date=ts.datetime, days=ts.days, doy=ts.dayofyear, doyi=ts.dayofyear_index, day=ts.day, week=ts.week_index,
                              month=ts.month, year=ts.year, leap=bool(ts.is_leap_year), cur=ts.days_in_current_year(), nxt=ts.days_in_next_year()))


def expected(start, end, delta):
    """[(date, days, attribute date)]"""
    out = []
    if delta == "M":
        d = start.replace(day=1)
        while d <= end:
            n = calendar.monthrange(d.year, d.month)[1]
            out.append((d, float(n), d.replace(day=n)))
            d += dt.timedelta(days=n)
        return out
    step = dt.timedelta(days=delta)
    d = start
    while d <= end:
        out.append((d, float(delta), d))
        d += step
    return out


def compare(ctx, seen, want, what, first=0):
    ctx.event("runs")
    ctx.check(len(seen) == len(want) - first, "number-of-steps", f"{what}: ran {len(seen)} steps, expected {len(want) - first}")
    for j, r in enumerate(seen):
        i = j + first
        if i >= len(want):
            return
        d, n, a = want[i]
        ctx.event("steps")
        if calendar.isleap(a.year):
            ctx.event("leap years")
        if (a.month, a.day) == (2, 29):
            ctx.event("february 29")
        doy = a.timetuple().tm_yday
        doyi = (dt.date(2016, a.month, a.day) - dt.date(2016, 1, 1)).days
        e = dict(index=i, date=pd.Timestamp(d), days=n, doy=doy, doyi=doyi, day=a.day, month=a.month, year=a.year, leap=calendar.isleap(a.year),
                 week=min(doyi // 7, 51))
        for k, v in e.items():
            if not ctx.check(r[k] == v, "attribute-" + k, lambda: f"{what}: step {i} starting {d.date()}: {k} is {r[k]}, expected {v}"):
                return
        last = d + dt.timedelta(days=n - 1)
        if last.year == d.year:
            cur, nxt = n, 0.0
        else:
            ctx.event("steps over a year end")
            cur = float((dt.datetime(d.year + 1, 1, 1) - d).days)
            nxt = n - cur
        if not ctx.check(abs(r["cur"] - cur) < 1e-9 and abs(r["nxt"] - nxt) < 1e-6, "days-by-year",
                         lambda: f"{what}: step {i} starting {d.date()} of {n} days: {r['cur']} days in its year and {r['nxt']} in the next, expected {cur} and {nxt}"):
            return


def build(ctx, start, end, delta, how):
    rng = ctx.rng
    if how == "timedelta":
        dv = dt.timedelta(days=delta)
    elif how == "string":
        dv = delta if delta == "M" else f"{delta}D"
    else:
        dv = delta
    s, e = start, end
    form = rng.choice(["str", "ts", "dt"])
    conv = {"str": lambda x: x.strftime("%Y-%m-%d"), "ts": pd.Timestamp, "dt": lambda x: x}[form]
    return conv(s), conv(e), dv


def pick(ctx):
    rng = ctx.rng
    start = dt.datetime.strptime(rng.choice(STARTS), "%Y-%m-%d") if rng.random() < .6 else dt.datetime(*rng.choice([(1990, 1, 1), (1990, 1, 1), (1680, 1, 1), (2190, 1, 1)])) + dt.timedelta(days=rng.randrange(9000))
    delta = rng.choice([1, 1, 1, 2, 5, 7, 10, 14, 28, 30, 31, 90, 365, "M", "M"])
    n = rng.choice([1, 2, 3, 10, 40, 120 if start.year < 2100 or delta in (1, 2, "M") else 20])
    d = 30 if delta == "M" else delta
    end = start + dt.timedelta(days=d * (n - 1) + (rng.randrange(d) if rng.random() < .6 else 0))
    how = "string" if delta == "M" else rng.choice(["int", "int", "string", "timedelta"])
    return start, end, delta, how


def case(ctx):
    rng = ctx.rng
    start, end, delta, how = pick(ctx)
    ctx.key(start.date(), end.date(), delta, how)
    want = expected(start, end, delta)
    s, e, dv = build(ctx, start, end, delta, how)
    what = f"{start.date()} to {end.date()} by {dv!r}"
    ctx.sample(dict(start=str(start.date()), end=str(end.date()), delta=str(dv), steps=len(want)))
    if rng.random() < .5 or how == "timedelta":
        m = Model(start=s, end=e, timestep=dv) if rng.random() < .5 else Model()
        m.timestepper.start, m.timestepper.end, m.timestepper.delta = s, e, dv
        i, o = Input(m, "i", max_flow=5.0), Output(m, "o", max_flow=3.0, cost=-1.0)
        i.connect(o)
    else:
        m = Model.load({"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": str(start.date()), "end": str(end.date()), "timestep": dv},
                        "nodes": [{"name": "i", "type": "input", "max_flow": 5.0}, {"name": "o", "type": "output", "max_flow": 3.0, "cost": -1.0}],
                        "edges": [["i", "o"]]})
        o = m.nodes["o"]
    spy = Spy(m)
    rec = NumpyArrayNodeRecorder(m, o)
    res = m.run()
    compare(ctx, spy.seen, want, what)
    ctx.check(spy.befores == list(range(len(want))), "started-steps", f"{what}: steps started {spy.befores[:5]}.. of {len(want)}")
    ctx.check(len(m.timestepper) == len(want), "announced-steps", f"{what}: the timestepper announces {len(m.timestepper)} steps, {len(want)} expected")
    ctx.check(res.timesteps == len(want), "reported-steps", f"{what}: the result reports {res.timesteps} steps, expected {len(want)}")
    ix = m.timestepper.datetime_index
    ctx.check([p.start_time for p in ix] == [pd.Timestamp(d) for d, _, _ in want], "index", f"{what}: datetime_index {list(ix[:3])}..")
    df = rec.to_dataframe()
    ctx.check(len(df) == len(want) and np.all(df.values == 3.0), "recorded", f"{what}: recorded {df.shape} for {len(want)} steps")
    # later runs: again, step by step, from a later start, or with other dates
    for _ in range(rng.randint(0, 2)):
        r = rng.random()
        if r < .25:
            m.run()
            compare(ctx, spy.seen, want, what + " again")
        elif r < .5:
            m.reset()
            k = rng.randint(1, len(want))
            for _ in range(k):
                m.step()
            compare(ctx, spy.seen, want[:k], what + f" stepped {k} times")
            ctx.event("stepped runs")
            if k == len(want):
                try:
                    m.step()
                    ctx.violation("step-after-end", f"{what}: a step after the last one was simulated")
                except StopIteration:
                    pass
        elif r < .75:
            k = rng.randrange(len(want))
            off = rng.randrange(int(want[k][1]))
            m.reset(start=pd.Timestamp(want[k][0] + dt.timedelta(days=off)))
            n = rng.randint(1, len(want) - k)
            for _ in range(n):
                m.step()
            compare(ctx, spy.seen, want[:k + n], what + f" from step {k}", k)
            ctx.event("restarts")
        else:
            start, end, d2, how = pick(ctx)
            if how == "timedelta" or how == "int" or d2 == "M":
                pass
            want = expected(start, end, d2)
            s, e, dv = build(ctx, start, end, d2, how)
            what = f"then {start.date()} to {end.date()} by {dv!r}"
            m.timestepper.start, m.timestepper.end, m.timestepper.delta = s, e, dv
            m.run()
            compare(ctx, spy.seen, want, what)
            ctx.event("changed dates")
            ctx.check(len(m.timestepper) == len(want), "announced-steps", f"{what}: announces {len(m.timestepper)} steps, {len(want)} expected")
            df = rec.to_dataframe()
            ctx.check(len(df) == len(want) and np.all(df.values == 3.0), "recorded", f"{what}: recorded {df.shape} for {len(want)} steps")
            for a, b in zip(df.index, want):
                if a.start_time != pd.Timestamp(b[0]):
                    ctx.violation("label", f"{what}: a row is labelled {a}, expected {b[0]}")
                    break
    # the timestepper by itself
    t = Timestepper(s, e, dv)
    steps = []
    for x in t:
        steps.append((x.index, x.datetime, x.days))
        ctx.check(t.current is x, "current", f"{what}: current is not the step iterated")
    ctx.check(steps == [(i, pd.Timestamp(d), n) for i, (d, n, _) in enumerate(want)], "timestepper", f"{what}: the timestepper by itself visits {steps[:3]}.. ({len(steps)} steps)")
