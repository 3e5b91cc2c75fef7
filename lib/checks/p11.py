"""P11: profile parameters give the value that belongs to the calendar date."""
import calendar
import datetime as dt
import math

import numpy as np
from scipy.interpolate import Rbf

from pywr.model import Model
from pywr.parameters import (AnnualHarmonicSeriesParameter, ArrayIndexedScenarioMonthlyFactorsParameter, DailyProfileParameter, DiscountFactorParameter, MonthlyProfileParameter,
                             RbfProfileParameter, ScenarioDailyProfileParameter, ScenarioMonthlyProfileParameter, ScenarioWeeklyProfileParameter,
                             UniformDrawdownProfileParameter, WeeklyProfileParameter, load_parameter)
from .parcase import Cal, Spy, idx366, leap, members, scenarios

META = {
    "n": [900, 12000], "budget": [60, 700],
    "min_events": {"values compared": 100000, "leap days": 300, "values in leap years": 10000, "wrong profiles rejected": 150, "changed values": 150, "reruns": 100},
    "rule": "distinct: kind of profile with its options, step length, leap year met or not",
    "assumptions": ["multi-day steps use the first day's date, calendar-month steps the last day's (as the timestep's attributes, P07)",
                    "a drawdown profile whose reset day is before 1 March counts days on the 366-day calendar (pinned by the repository's tests)"],
}


def num(rng):
    return rng.choice([0.0, 1, rng.randint(-5, 20), rng.uniform(-3, 30), rng.uniform(0, 1)])


def nums(rng, n):
    k = rng.random()
    if k < .2:
        return [rng.randint(0, 50) for _ in range(n)]
    return [round(rng.uniform(-5, 50), 4) for _ in range(n)]


def interp_doy(values, how):
    """365 values: linear between the given day (first or last) of neighbouring months, in a year of 365 days."""
    ends = [0]
    for m in range(1, 13):
        ends.append(ends[-1] + calendar.monthrange(2015, m)[1])
    if how == "first":
        kx = [ends[m] + 1 for m in range(13)]
        ky = list(values) + [values[0]]
    else:
        kx = ends
        ky = [values[11]] + list(values)
    out = []
    for d in range(1, 366):
        for j in range(12):
            if kx[j] <= d <= kx[j + 1]:
                w = (d - kx[j]) / (kx[j + 1] - kx[j])
                out.append(ky[j] * (1 - w) + ky[j + 1] * w)
                break
    assert len(out) == 365
    return out


def d365(d):
    """0..364 within a year of 365 days, 29 February taken as the 28th."""
    if d.month == 2 and d.day == 29:
        d = d.replace(day=28)
    return (d.replace(year=2015) - dt.date(2015, 1, 1)).days


def drawdown(day, month, residual):
    def f(d, mem):
        early = month <= 2
        if early:
            y = d.year if (d.month, d.day) >= (month, day) else d.year - 1
            total = 366 if leap(y) else 365
            p = (idx366(d) - idx366(dt.date(2000, month, day))) % 366
        else:
            y = d.year if (d.month, d.day) >= (month, day) else d.year - 1
            s, e = dt.date(y, month, day), dt.date(y + 1, month, day)
            total = (e - s).days
            p = (d - s).days
        r = residual / total
        return 1 - (1 - r) * p / total
    return f


def one(ctx, m, scens, jd, cal):
    """A random profile: (parameter, function(date, members) -> value, setter of new values or None, description)."""
    rng = ctx.rng
    kinds = ["daily", "weekly", "monthly", "first", "last", "drawdown", "rbf", "harmonic", "discount"]
    if scens:
        kinds += ["sdaily", "sweekly", "smonthly", "factors"]
    k = rng.choice(kinds)
    name = f"p{len(jd)}"
    jd.append(k)
    json = rng.random() < .5

    def mk(cls, typ, scen=None, **kw):
        if json:
            d = dict(type=typ, name=name, **kw)
            if scen is not None:
                d["scenario"] = scen.name
            return load_parameter(m, d)
        if scen is not None:
            if "values" in kw and cls is ScenarioMonthlyProfileParameter:
                kw["values"] = np.array(kw["values"])
            return cls(m, scen, name=name, **kw)
        if "values" in kw and rng.random() < .5:
            kw["values"] = np.array(kw["values"])
        return cls(m, name=name, **kw)

    if k == "daily":
        v = nums(rng, 366)
        return mk(DailyProfileParameter, "dailyprofile", values=list(v)), (lambda d, mem: v[idx366(d)]), None, k
    if k == "weekly":
        v = nums(rng, rng.choice([52, 52, 53]))
        return mk(WeeklyProfileParameter, "weeklyprofile", values=list(v)), (lambda d, mem: v[min(idx366(d) // 7, 51)]), None, k
    if k == "monthly":
        v = nums(rng, 12)

        def change(p):
            v[:] = nums(rng, 12)
            p.set_double_variables(np.array(v, dtype=float))
        return mk(MonthlyProfileParameter, "monthlyprofile", values=list(v)), (lambda d, mem: v[d.month - 1]), change, k
    if k in ("first", "last"):
        v = nums(rng, 12)
        t = interp_doy(v, k)

        def change(p):
            v[:] = nums(rng, 12)
            t[:] = interp_doy(v, k)
            p.set_double_variables(np.array(v, dtype=float))
        return mk(MonthlyProfileParameter, "monthlyprofile", values=list(v), interp_day=k), (lambda d, mem: t[d365(d)]), change, k
    if k == "drawdown":
        month = rng.randint(1, 12)
        day = rng.randint(1, calendar.monthrange(2015, month)[1])
        res = rng.choice([0, 0, 10, rng.randint(0, 100)])
        if rng.random() < .2:
            day, month = rng.choice([(1, 1), (1, 3), (28, 2), (31, 12), (2, 3)])
        return mk(UniformDrawdownProfileParameter, "uniformdrawdownprofile", reset_day=day, reset_month=month, residual_days=res), drawdown(day, month, res), None, f"{k}{month <= 2}"
    if k == "rbf":
        n = rng.randint(3, 8)
        days = [1] + sorted(rng.sample(range(2, 366), n - 1))
        v = nums(rng, n)
        kw = {}
        if rng.random() < .5:
            kw["rbf_kwargs"] = dict(function=rng.choice(["linear", "multiquadric", "cubic", "gaussian"]))
        if rng.random() < .4:
            kw["min_value"] = rng.uniform(-2, 10)
        if rng.random() < .4:
            kw["max_value"] = rng.uniform(10, 30)

        def table():
            x = [days[-1] - 365] + days + [366, 366 + days[1] - 1]
            y = [v[-1]] + v + [v[0], v[1]]
            t = Rbf(x, y, **kw.get("rbf_kwargs", {}))(np.arange(1, 366))
            return np.maximum(np.minimum(t, kw.get("max_value", np.inf)), kw.get("min_value", -np.inf))
        t = table()

        def change(p):
            v[:] = nums(rng, n)
            t[:] = table()
            p.set_double_variables(np.array(v, dtype=float))
        return mk(RbfProfileParameter, "rbfprofile", days_of_year=list(days), values=list(v), **kw), (lambda d, mem: t[d365(d)]), change, k
    if k == "harmonic":
        n = rng.randint(1, 4)
        st = dict(m=num(rng), a=nums(rng, n), p=[rng.uniform(0, 6.28) for _ in range(n)])

        def f(d, mem):
            t = (d - dt.date(d.year, 1, 1)).days
            return st["m"] + sum(a * math.cos((i + 1) * t * 2 * math.pi / 365 + p) for i, (a, p) in enumerate(zip(st["a"], st["p"])))

        def change(p):
            st.update(m=num(rng), a=nums(rng, n), p=[rng.uniform(0, 6.28) for _ in range(n)])
            p.set_double_variables(np.array([st["m"]] + st["a"] + st["p"], dtype=float))
        return mk(AnnualHarmonicSeriesParameter, "annualharmonicseries", mean=st["m"], amplitudes=list(st["a"]), phases=list(st["p"])), f, change, f"{k}{n}"
    if k == "discount":
        r, b = round(rng.uniform(0, .2), 4), cal.start.year + rng.randint(-3, 3)
        return mk(DiscountFactorParameter, "discountfactor", rate=r, base_year=b), (lambda d, mem: (1 + r) ** (b - d.year)), None, k
    si = rng.randrange(len(scens))
    s = scens[si]
    if k == "sdaily":
        v = [nums(rng, 366) for _ in range(s.size)]
        return mk(ScenarioDailyProfileParameter, "scenariodailyprofile", s, values=v), (lambda d, mem: v[mem[si]][idx366(d)]), None, k
    if k == "sweekly":
        v = [nums(rng, 52) for _ in range(s.size)]
        return mk(ScenarioWeeklyProfileParameter, "scenarioweeklyprofile", s, values=v), (lambda d, mem: v[mem[si]][min(idx366(d) // 7, 51)]), None, k
    if k == "smonthly":
        v = [nums(rng, 12) for _ in range(s.size)]
        return mk(ScenarioMonthlyProfileParameter, "scenariomonthlyprofile", s, values=v), (lambda d, mem: v[mem[si]][d.month - 1]), None, k
    v, fac = nums(rng, len(cal)), [nums(rng, 12) for _ in range(s.size)]
    pos = {d[2]: i for i, d in enumerate(cal.steps)}
    return mk(ArrayIndexedScenarioMonthlyFactorsParameter, "arrayindexedscenariomonthlyfactors", s, values=v, factors=fac), (lambda d, mem: v[pos[d]] * fac[mem[si]][d.month - 1]), None, k


def wrong(ctx):
    """Profiles of the wrong length or with impossible options are refused before any value is used."""
    rng = ctx.rng
    m = Model(solver="null")
    s = scenarios(rng, m, 1)[0]
    n = s.size
    bad = rng.choice([0, 1, 11, 13, 24, 51, 54, 100, 364, 365, 367, 400, 730])
    cands = [dict(type="dailyprofile", values=nums(rng, bad if bad != 366 else 365)),
             dict(type="weeklyprofile", values=nums(rng, bad)), dict(type="monthlyprofile", values=nums(rng, bad)),
             dict(type="monthlyprofile", values=nums(rng, 12), interp_day=rng.choice(["mid", "First", "middle"])),
             dict(type="dailyprofile", values=[nums(rng, 2) for _ in range(366)]),
             dict(type="scenariodailyprofile", scenario=s.name, values=[nums(rng, 366)] * (n + rng.choice([-1, 1, 2]))),
             dict(type="scenariodailyprofile", scenario=s.name, values=[nums(rng, 365)] * n),
             dict(type="scenarioweeklyprofile", scenario=s.name, values=[nums(rng, 52)] * (n + 1)),
             dict(type="scenarioweeklyprofile", scenario=s.name, values=[nums(rng, 51)] * n),
             dict(type="scenariomonthlyprofile", scenario=s.name, values=[nums(rng, 12)] * (n + 1)),
             dict(type="scenariomonthlyprofile", scenario=s.name, values=[nums(rng, 11)] * n),
             dict(type="rbfprofile", days_of_year=[2, 50, 100], values=nums(rng, 3)),
             dict(type="rbfprofile", days_of_year=[1, 100, 50], values=nums(rng, 3)),
             dict(type="rbfprofile", days_of_year=[1, 100], values=nums(rng, 2)),
             dict(type="rbfprofile", days_of_year=[1, 100, 366], values=nums(rng, 3)),
             dict(type="rbfprofile", days_of_year=[1, 100, 200], values=nums(rng, 4)),
             dict(type="annualharmonicseries", mean=1, amplitudes=nums(rng, 2), phases=nums(rng, 3)),
             dict(type="arrayindexedscenariomonthlyfactors", scenario=s.name, values=nums(rng, 5), factors=[nums(rng, 12)] * (n + 1)),
             dict(type="arrayindexedscenariomonthlyfactors", scenario=s.name, values=nums(rng, 5), factors=[nums(rng, 11)] * n)]
    import copy
    for d in rng.sample(cands, 8):
        m.timestepper.start, m.timestepper.end = "2015-01-01", "2015-01-03"
        what = {k: (v if not isinstance(v, list) else f"{len(v)} values") for k, v in d.items()}
        try:
            p = load_parameter(m, dict(copy.deepcopy(d), name=f"w{ctx.counters['tried']}"))
            m.setup()
            m.run()
        except Exception:
            ctx.event("wrong profiles rejected")
        else:
            ctx.violation("wrong-profile:" + d["type"], f"{what} was accepted")
        ctx.event("tried")
        m = Model(solver="null")
        from pywr.core import Scenario
        Scenario(m, s.name, size=n)


def case(ctx):
    rng = ctx.rng
    if ctx.i % 9 == 8:
        wrong(ctx)
        return
    cal = Cal(rng)
    m = Model(solver="null")
    cal.apply(m)
    scens = scenarios(rng, m)
    jd = []
    ps = [one(ctx, m, scens, jd, cal) for _ in range(rng.randint(3, 8))]
    spy = Spy(m)
    compare(ctx, m, spy, cal, ps, "")
    if any(p[2] for p in ps) and rng.random() < .6:
        for p in ps:
            if p[2]:
                p[2](p[0])
                ctx.event("changed values")
        compare(ctx, m, spy, cal, ps, " after its values were changed")
        ctx.event("reruns")


def compare(ctx, m, spy, cal, ps, what):
    m.run()
    mem = members(m)
    ctx.event("leap days", sum(d[2].month == 2 and d[2].day == 29 for d in cal.steps))
    ly = sum(leap(d[2].year) for d in cal.steps)
    if not ctx.check(len(spy.ts) == len(cal), "number-of-steps", f"{len(spy.ts)} steps, expected {len(cal)}"):
        return
    for p, f, _, k in ps:
        ctx.key(k, cal.delta, bool(ly))
        got = np.array(spy.par[p])
        want = np.array([[f(d[2], c) for c in mem] for d in cal.steps])
        ctx.event("values compared", got.size)
        ctx.event("values in leap years", ly * len(mem))
        if got.shape != want.shape:
            ctx.violation("shape", f"{k}: {got.shape} values, expected {want.shape}")
            continue
        bad = ~np.isclose(got, want, rtol=1e-7, atol=1e-7)
        if bad.any():
            t, s = np.argwhere(bad)[0]
            ctx.violation(k, f"{type(p).__name__} ({k}){what}: {got[t, s]} on {cal.steps[t][0]} (step {cal.delta}), scenario {mem[s]}; the profile's value is {want[t, s]}")
