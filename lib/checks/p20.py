"""P20: events are exactly the runs of steps in which the trigger was active."""
import datetime as dt
import itertools
import math
import statistics

import numpy as np
import pandas as pd

from pywr import parameters as P
from pywr import recorders as R
from pywr.recorders import load_recorder
from pywr.recorders._thresholds import NodeThresholdRecorder, StorageThresholdRecorder
from .p18 import CMP
from .parcase import DAY, Spy
from .reccase import RB, Values, agg, one

META = {
    "n": [1500, 20000], "budget": [80, 700],
    "min_events": {"events": 20000, "steps observed": 50000, "until the end": 500, "from the first step": 500, "too short": 500, "single step": 2000, "no events": 200, "tracked values": 10000,
                   "durations": 500, "statistics": 300, "triggered by recorder": 100, "triggered by parameter": 300, "triggered by index": 300, "reruns": 200, "from a document": 500},
    "rule": "distinct: kind of trigger, minimum length, statistics and the way of building",
    "assumptions": ["trigger values as logged by a recorder of the check's own (checked by P13 and P14); for triggering recorders the logged flow or volume at the end of the step"],
}
FUNCS = {"mean": lambda v: math.fsum(v) / len(v), "sum": math.fsum, "min": min, "max": max, "median": statistics.median, "count": len}


class G:
    def __init__(self, ctx, b):
        self.ctx, self.rng, self.b, self.m = ctx, ctx.rng, b, b.m
        self.k = 0
        self.todo = []

    def name(self, c):
        self.k += 1
        return f"{c}{self.k}"

    def trigger(self):
        """(component, kind, spy -> active per step and combination)."""
        rng, b = self.rng, self.b
        k = rng.randrange(8)
        if k < 3:
            p, d = b.idx()
            return p, "index", lambda spy: d != 0
        if k == 3:
            stay = rng.choice([0, .6, .9])
            d = np.zeros((b.T, b.S))
            for s in range(b.S):
                v = 0.0
                for t in range(b.T):
                    if rng.random() >= stay:
                        v = rng.choice([0.0, 0.0, 1.0, -2.0, .001, .5, 1e-12, 300.0])
                    d[t, s] = v
            return Values(self.m, d, name=self.name("v")), "parameter", lambda spy: d != 0
        if k == 4:
            p = P.MonthlyProfileParameter(self.m, [rng.choice([0, 0, .25, 3]) for _ in range(12)], name=self.name("v")) if rng.random() < .5 else b.par(-1, 1)
            return p, "parameter", lambda spy: np.array(spy.par[p]) != 0
        th = float(rng.randint(0, 10))
        pred = rng.choice(list(CMP))
        st = rng.random() < .5
        nd = rng.choice(b.storages if st else [x for x in b.flows if x not in b.storages])
        if k in (5, 6):
            if k == 5:
                p = P.StorageThresholdParameter(self.m, b.n[rng.choice(b.stores)], th, predicate=pred, name=self.name("t"))
            else:
                p = P.NodeThresholdParameter(self.m, b.n[rng.choice(b.simple)], th, predicate=pred, name=self.name("t"))
            return p, "index", lambda spy: np.array(spy.idx[p]) != 0
        f = b.vol(nd) if st else b.flow(nd)
        r = (StorageThresholdRecorder if st else NodeThresholdRecorder)(self.m, b.n[nd], th, predicate=pred, name=self.name("t"))
        return r, "recorder", lambda spy: CMP[pred](f(spy), th)

    def build(self, cls, refs, opts, c):
        rng = self.rng
        name = self.name(c)
        if rng.random() < .5 and not any(callable(v) for v in opts.values()):
            self.ctx.event("from a document")
            return load_recorder(self.m, dict({k: v.name for k, v in refs.items()}, type=cls.__name__ if rng.random() < .5 else cls.__name__.lower().replace("recorder", ""), name=name, **opts))
        first, rest = list(refs.items())[0], dict(list(refs.items())[1:])
        return cls(self.m, first[1], **rest, **opts, name=name)

    def add(self):
        rng, b = self.rng, self.b
        trig, kind, active = self.trigger()
        self.ctx.event("triggered by " + kind)
        refs, opts = dict(threshold=trig), {}
        ml = 1
        if rng.random() < .5:
            opts["minimum_event_length"] = ml = rng.choice([1, 2, 3, 5])
        tr = rng.random() < .6
        p = refs["tracked_parameter"] = b.par(-3, 20) if rng.random() < .7 else b.idx()[0]
        if not tr:
            del refs["tracked_parameter"]
        ef = None
        if rng.random() < .5:
            opts["event_agg_func"] = ef = rng.choice(sorted(FUNCS))
        er = self.build(R.EventRecorder, refs, opts, "events")
        self.ctx.key(kind, ml, tr, ef, b.how)
        kids = []
        for _ in range(rng.randint(0, 2)):
            cls = R.EventStatisticRecorder if tr and rng.random() < .5 else R.EventDurationRecorder
            o = {}
            fs = FUNCS["mean"]
            es = rs = "mean"
            ign = False
            if rng.random() < .7:
                if rng.random() < .5:
                    es = rs = o["agg_func"] = rng.choice(["mean", "sum", "min", "max", "median"])
                    fs = FUNCS[rs]
                    fs = (lambda g: lambda v: math.nan if any(math.isnan(x) for x in v) else g(v))(fs)
                else:
                    o["agg_func"], fs = agg(rng, exact=False)
                    o["recorder_agg_func"] = rs = "mean"
                    if cls is R.EventStatisticRecorder:
                        o["event_agg_func"] = es = "max"
            else:
                fs = lambda v: math.nan if any(math.isnan(x) for x in v) else FUNCS["mean"](v)
            if rng.random() < .5:
                o["recorder_agg_func"] = rs = rng.choice(sorted(FUNCS))
            if cls is R.EventStatisticRecorder and rng.random() < .5:
                o["event_agg_func"] = es = rng.choice(sorted(FUNCS))
            if rng.random() < .6:
                o["ignore_nan"] = ign = True
            self.ctx.key(cls.__name__, es, rs, str(o.get("agg_func"))[:20], ign)
            r = self.build(cls, dict(event_recorder=er), o, "stat")
            kids.append((r, cls, es, rs, fs, ign))
        self.todo.append((er, active, ml, p if tr else None, ef, kids))


def check(ctx, b, spy, er, active, ml, tracked, ef, kids):
    act = np.array(active(spy), dtype=bool)
    ctx.event("steps observed", act.size)
    dates = [d for d, _, _ in b.cal.steps]
    dates.append(dates[-1] + DAY * b.cal.steps[-1][1])
    want = {}
    for s in range(b.S):
        t = 0
        want[s] = []
        for on, run in itertools.groupby(act[:, s]):
            n = len(list(run))
            if on:
                ctx.event("until the end", t + n == b.T)
                ctx.event("from the first step", t == 0)
                ctx.event("single step", n == 1)
                if n >= ml:
                    want[s].append((t, t + n))
                else:
                    ctx.event("too short")
            t += n
    got = {s: [] for s in range(b.S)}
    for e in er.events:
        got[e.scenario_index.global_id].append(e)
    ctx.event("events", sum(map(len, want.values())))
    same = True
    for s in range(b.S):
        a = [(e.start.datetime.to_pydatetime().date(), e.end.datetime.to_pydatetime().date()) for e in got[s]]
        w = [(dates[x], dates[y]) for x, y in want[s]]
        same &= ctx.check(a == w, "intervals", lambda: f"combination {s}: events {a}, trigger active {w} (minimum length {ml}; {''.join('.#'[int(x)] for x in act[:, s])[:200]})")
    if not same:
        return
    for s in range(b.S):
        for e, (x, y) in zip(got[s], want[s]):
            ctx.check((e.start.index, e.duration) == (x, (dates[y] - dates[x]).days), "duration", lambda: f"event {dates[x]}..{dates[y]}: start index {e.start.index}, duration {e.duration}")
            if tracked is not None:
                v = np.array([spy.par[tracked][t][s] for t in range(x, y)])
                ctx.event("tracked values", len(v))
                ctx.check(np.array_equal(np.array(e.values, dtype=float), v), "tracked", lambda: f"event {dates[x]}..{dates[y]} combination {s}: values {np.array(e.values).tolist()}, expected {v.tolist()}")
    # the table of events
    df = er.to_dataframe()
    n = sum(map(len, want.values()))
    ctx.event("no events", n == 0)
    ctx.check(len(df) == n, "table", f"{len(df)} rows for {n} events")
    per = {s: [] for s in range(b.S)}
    if n:
        ctx.check(list(df.columns) == ["scenario_id", "start", "end"] + (["value"] if tracked is not None and ef else []), "table-columns", f"{list(df.columns)}")
        for s in range(b.S):
            d = df[df["scenario_id"] == s]
            a = [(pd.Timestamp(r.start).date(), pd.Timestamp(r.end).date()) for r in d.itertuples()]
            ctx.check(a == [(dates[x], dates[y]) for x, y in want[s]], "table-rows", lambda: f"combination {s}: {a}")
            if tracked is not None and ef:
                ctx.close(d["value"].values, [FUNCS[ef]([float(spy.par[tracked][t][s]) for t in range(x, y)]) for x, y in want[s]], "table-values", f"{ef} of each event", rtol=1e-9, atol=1e-9)
    for r, cls, es, rs, fs, ign in kids:
        w = np.full(b.S, np.nan)
        for s in range(b.S):
            if want[s]:
                if cls is R.EventDurationRecorder:
                    ctx.event("durations")
                    w[s] = FUNCS[rs]([(dates[y] - dates[x]).days for x, y in want[s]])
                else:
                    ctx.event("statistics")
                    w[s] = FUNCS[rs]([FUNCS[es]([float(spy.par[tracked][t][s]) for t in range(x, y)]) for x, y in want[s]])
        ctx.close(np.array(r.values()), w, cls.__name__ + "-values", f"{rs} of {es} per event", rtol=1e-9, atol=1e-9)
        ctx.close(r.aggregated_value(), one(fs, w, ign), cls.__name__ + "-aggregated", f"{r.agg_func} of {w.tolist()} ignore_nan={ign}", rtol=1e-9, atol=1e-9)


def case(ctx):
    rng = ctx.rng
    b = RB(rng, nmax=rng.choice([3, 40, 80, 150]))
    g = G(ctx, b)
    for _ in range(rng.randint(1, 4)):
        g.add()
    ctx.sample(dict(steps=b.T, step=b.cal.delta, combinations=b.S, triggers=[type(e.threshold).__name__ for e, *_ in g.todo]))
    spy = Spy(b.m, flows=True)
    for run in range(2 if rng.random() < .25 else 1):
        ctx.event("reruns", run)
        b.m.run()
        for it in g.todo:
            check(ctx, b, spy, *it)
