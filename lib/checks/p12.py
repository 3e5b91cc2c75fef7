"""P12: external data is aligned with the simulation calendar; unusable data is refused."""
import datetime as dt
import gzip
import hashlib
import json
import os
import random

import numpy as np
import pandas as pd
import tables

from pywr.core import Scenario
from pywr.hashes import HashMismatchError
from pywr.model import Model
from pywr.parameters import (ArrayIndexedParameter, ArrayIndexedScenarioParameter, ConstantScenarioParameter, DataFrameParameter, TablesArrayParameter, load_parameter)
from .parcase import DAY, Cal, Spy

META = {
    "n": [2000, 30000], "budget": [70, 700],
    "min_events": {"values compared": 20000, "down-sampled": 40, "up-sampled": 40, "refused:gap": 20, "refused:cover": 20, "refused:checksum": 20, "refused:shape": 20, "table references": 30,
                   "accepted checksums": 20, "constants read": 20},
    "rule": "distinct: way the data is given, frequencies of data and model, alignment of the start, scenario use, timestep offset",
    "assumptions": ["a down-sampled step takes the mean of the values whose period begins in it, a partly covered first or last step the mean of those available (pinned by the repository's tests)",
                    "data and model frequencies are multiples of each other or calendar months over days; weekly data anchored on a weekday only through a PeriodIndex"],
}


class Series:
    """Data over consecutive periods, its values per day."""

    def __init__(self, rng, cal, ncol):
        first, last = cal.steps[0][0], cal.steps[-1][0] + DAY * (cal.steps[-1][1] - 1)
        if cal.delta == "M":
            self.freq = rng.choice(["D", "M"])
        else:
            k = cal.delta
            self.freq = rng.choice({1: ["D", "D", "7D", "M", "h", "5D", "W"], 7: ["D", "7D", "14D", "M", "h", "W"], 5: ["D", "5D", "10D", "h"], 10: ["D", "5D", "10D", "M"], 30: ["D", "10D", "30D", "M"]}[k])
        self.lead = lead = rng.choice([0, 0, 1, rng.randint(0, 40)])
        self.tail = rng.choice([0, 1, rng.randint(0, 40)])
        n = (last - first).days + 1
        self.per = []  # (first day, number of days or fraction of a day)
        f = self.freq
        if f == "D":
            start = first - DAY * lead
            k = n + lead + self.tail
            self.index = pd.period_range(str(start), periods=k, freq="D")
            self.days = [(start + DAY * i, i) for i in range(k)]
        elif f == "h":
            self.lead = lead = lead % 4
            self.tail %= 4
            start = first - DAY * lead
            k = n + lead + self.tail
            self.index = pd.period_range(str(start), periods=24 * k, freq="h")
            self.days = [(start + DAY * (i // 24), i) for i in range(24 * k)]
        elif f == "M":
            p0 = pd.Period(str(first), "M") - (lead % 3)
            p1 = pd.Period(str(last), "M") + self.tail % 3
            self.index = pd.period_range(p0, p1, freq="M")
            self.days = []
            for i, p in enumerate(self.index):
                d = p.start_time.date()
                while d <= p.end_time.date():
                    self.days.append((d, i))
                    d += DAY
        elif f == "W":
            wd = rng.randrange(7)
            name = "W-" + ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"][wd]
            p0, p1 = pd.Period(str(first), name) - lead % 3, pd.Period(str(last), name) + self.tail % 3
            self.index = pd.period_range(p0, p1, freq=name)
            self.days = [(p.start_time.date() + DAY * j, i) for i, p in enumerate(self.index) for j in range(7)]
        else:
            m = int(f[:-1])
            step = m if cal.delta == "M" or m < cal.delta else m
            # begins on a step boundary
            if m > cal.delta:
                back = cal.delta * (lead % 7)
                back = min(back, m - cal.delta) if rng.random() < .7 else back % m
            else:
                back = m * (lead % 5)
                if back % cal.delta:
                    back -= back % cal.delta
            if m >= cal.delta and m % cal.delta == 0 and m != cal.delta:
                pass
            elif m == cal.delta:
                back = m * (lead % 3)
            start = first - DAY * back
            k = -(-((last - start).days + 1) // m) + self.tail % 3
            self.index = pd.period_range(str(start), periods=k, freq=f)
            self.days = [(start + DAY * (i * m + j), i) for i in range(k) for j in range(m)]
        self.n = len(self.index)
        self.values = np.round(np.array([[rng.uniform(0, 100) for _ in range(ncol)] for _ in range(self.n)]), 5)

    def expected(self, cal):
        """Rows of the steps."""
        by = {}
        for d, i in self.days:
            by.setdefault(d, []).append(i)
        beg = {}
        last = None
        for d, i in self.days:
            if i != last:
                beg.setdefault(d, []).append(i)
            last = i
        if self.freq == "h":
            beg = by
        out = []
        for d, k, _ in cal.steps:
            days = [d + DAY * j for j in range(k)]
            if self.freq in ("M", "W"):
                idx = [i for x in days for i in by[x]]
                if cal.delta == "M":
                    idx = by[d]
            elif self.freq == "h" or self.coarser(cal):
                idx = [i for x in days for i in beg.get(x, [])]
            else:
                idx = by[d]
            out.append(self.values[idx].mean(axis=0))
        return np.array(out)

    def coarser(self, cal):
        m = {"D": 1}.get(self.freq) or int(self.freq[:-1])
        return cal.delta == "M" or cal.delta >= m

    def frame(self, cols):
        return pd.DataFrame(self.values, index=self.index, columns=cols)


def stamps(df):
    return df.to_timestamp() if isinstance(df.index, pd.PeriodIndex) else df


def write(ctx, ser, cols, kind, cal):
    """A description of the data for a JSON parameter (or None), or a DataFrame."""
    rng = ctx.rng
    df = ser.frame(cols)
    n = ctx.counters["files"]
    ctx.event("files")
    if kind == "api-period":
        return df
    df = stamps(df)
    if kind == "api-stamp":
        df = df.copy()
        df.index.freq = {"M": "MS"}.get(ser.freq, ser.freq)
        return df
    df.index.name = "when"
    extra = {}
    if kind.startswith("csv"):
        fn = f"data{n}.csv" + (".gz" if kind == "csv.gz" else "")
        df.to_csv(fn, index=True)
        return dict(url=fn, index_col=rng.choice(["when", 0]), parse_dates=True)
    if kind == "xlsx":
        fn = f"data{n}.xlsx"
        df.to_excel(fn)
        return dict(url=fn, index_col=0, parse_dates=True)
    if kind == "h5":
        fn = f"data{n}.h5"
        df.to_hdf(fn, key="flow", mode="w")
        return dict(url=fn, key="flow")
    assert kind == "embedded"
    return dict(data={c: {str(k): float(v) for k, v in df[c].items()} for c in cols}, parse_dates=True)


def usable(ser, kind):
    """Formats without a stored frequency infer it."""
    if kind == "api-period":
        return True
    if ser.freq == "W":
        return False
    if kind == "api-stamp":
        return ser.freq in ("D", "h", "M") or ser.freq in ("5D", "7D", "10D", "14D", "30D")
    return ser.freq in ("D", "h", "M", "5D", "10D") and ser.n >= 4


KINDS = ["api-period", "api-stamp", "csv", "csv", "csv.gz", "h5", "embedded", "xlsx"]


def series(ctx, fault=None):
    rng = ctx.rng
    cal = Cal(rng, nmax=120)
    m = Model(solver="null")
    cal.apply(m)
    m.path = os.getcwd()
    scen = None
    pre = Scenario(m, "other", size=rng.randint(1, 2)) if rng.random() < .3 else None
    if rng.random() < .6:
        scen = Scenario(m, "sc", size=rng.randint(1 if fault is None else 2, 4))
        if rng.random() < .4:
            k = scen.size
            a = rng.randrange(k)
            scen.slice = slice(a, rng.choice([None, rng.randint(a + 1, k)]), rng.choice([1, 1, 2]))
    user = None
    if scen and not scen.slice and rng.random() < .4:
        # in any order, with repetitions, perhaps not all of them
        user = [rng.randrange(scen.size) for _ in range(rng.randint(1, 6))]
        m.scenarios.user_combinations = [([rng.randrange(pre.size)] if pre else []) + [j] for j in user]
        ctx.event("user combinations")
    ncol = scen.size if scen else 1
    while True:
        ser = Series(rng, cal, ncol)
        kind = rng.choice(KINDS if ser.n < 400 else KINDS[:-1])
        if usable(ser, kind):
            break
    if ser.freq == "h" and kind in ("xlsx", "embedded"):
        kind = "csv"
    down = ser.freq == "h" or (ser.freq not in ("M", "W") and (cal.delta == "M" or int((ser.freq[:-1] or "1")) < cal.delta))
    up = ser.freq in ("M", "W") or (not down and ser.freq != "D" and int(ser.freq[:-1] or "1") > cal.delta)
    cols = [f"c{i}" for i in range(ncol)]
    off = rng.choice([0, 0, 0, 1, -1, rng.randint(-5, 5)])
    want = ser.expected(cal)
    ctx.key(kind, ser.freq, cal.delta, ser.lead > 0, bool(scen), off)
    spec = write(ctx, ser, cols, kind, cal)
    kw = dict(timestep_offset=off) if off else {}
    if isinstance(spec, dict):
        if rng.random() < .4 and "url" in spec:
            algo = rng.choice(["md5", "sha256", "sha1", "sha512"])
            h = hashlib.new(algo, open(spec["url"], "rb").read()).hexdigest()
            spec["checksum"] = {algo: h if rng.random() < .5 else h.upper()}
            ctx.event("accepted checksums")
        d = dict(type="dataframe", name="p", **kw)
        if scen:
            d["scenario"] = "sc"
        table = rng.random() < .35
        if table:
            from pywr.dataframe_tools import load_dataframe
            m.tables["tab"] = load_dataframe(m, spec)
            d["table"] = "tab"
            ctx.event("table references")
        else:
            d.update(spec)
        if ncol == 1 and rng.random() < .5:
            d["column"] = cols[0]
        p = load_parameter(m, d)
    else:
        p = DataFrameParameter(m, spec[cols[0]] if ncol == 1 and rng.random() < .5 else spec, scenario=scen, name="p", **kw)
    ctx.event("down-sampled" if down else "up-sampled" if up else "as is")
    spy = Spy(m)
    m.run()
    n = len(cal)
    rows = [min(max(t + off, 0), n - 1) for t in range(n)]
    got = np.array(spy.par[p])
    cs = [0]
    if scen:
        a = range(scen.size)[scen.slice] if scen.slice else range(scen.size)
        cs = user or list(a)
    if pre and not user:
        cs = cs * pre.size
    w = want[rows][:, cs]
    ctx.event("values compared", w.size)
    ctx.close(got, w, "series", f"{kind} data of frequency {ser.freq} in a model of step {cal.delta} days from {cal.start}, data from {ser.index[0]}, offset {off}, columns {cs}")


def refuse(ctx, key, what, f):
    try:
        f()
    except Exception as e:
        ctx.event("refused:" + key)
        return e
    ctx.violation("accepted:" + key, what + " was accepted")


def bad(ctx):
    """Gaps, missing cover, wrong checksums and wrong shapes raise an error instead of producing results."""
    rng = ctx.rng
    cal = Cal(rng, nmax=40, deltas=(1, 1, 7, 5, "M"))
    what = rng.choice(["gap", "cover", "checksum", "shape"])
    m = Model(solver="null")
    cal.apply(m)
    m.path = os.getcwd()
    size = rng.randint(2, 4)
    scen = Scenario(m, "sc", size=size)
    first, last = cal.steps[0][0], cal.steps[-1][0] + DAY * (cal.steps[-1][1] - 1)
    lead, tail = rng.randint(0, 5), rng.randint(0, 5)
    idx = pd.period_range(str(first - DAY * lead), str(last + DAY * tail), freq="D")
    ncol = rng.choice([1, size])
    v = np.array([[rng.uniform(0, 50) for _ in range(ncol)] for _ in idx])
    cols = [f"c{i}" for i in range(ncol)]
    df = pd.DataFrame(v, index=idx, columns=cols)
    sc = scen if ncol > 1 else None
    kind = rng.choice(["period", "csv", "h5"])
    text = ""
    fn = f"bad{ctx.i}"

    def build(df, sc=sc, **kw):
        if kind == "period":
            return DataFrameParameter(m, df, scenario=sc, name="p")
        d2 = df.to_timestamp()
        d2.index.name = "when"
        d = dict(type="dataframe", name="p", **kw)
        if kind == "csv":
            d2.to_csv(fn + ".csv")
            d.update(url=fn + ".csv", index_col="when", parse_dates=True)
        else:
            d2.to_hdf(fn + ".h5", key="k", mode="w")
            d.update(url=fn + ".h5", key="k")
        if sc is not None:
            d["scenario"] = "sc"
        if "hash" in d:
            d["checksum"] = d.pop("hash")(d["url"])
        return load_parameter(m, d)

    spy = Spy(m)

    def go(df, sc=sc, **kw):
        build(df, sc, **kw)
        m.run()

    if what == "gap":
        # a whole step without a value, in one column
        t = rng.randrange(len(cal))
        d, k, _ = cal.steps[t]
        how = rng.choice(["nan", "drop"])
        days = [str(d + DAY * j) for j in range(k)]
        if how == "nan":
            df.loc[days, rng.choice(cols)] = np.nan
        elif len(df) > k + 8 and d > first and d + DAY * k <= last:
            df = df.drop(pd.PeriodIndex(days, freq="D"))
        else:
            df.loc[days, :] = np.nan
        text = f"data with a gap ({how}) from {d} of {k} days"
        e = refuse(ctx, what, text, lambda: go(df))
    elif what == "cover":
        side = rng.choice(["start", "end"])
        t = cal.steps[0] if side == "start" else cal.steps[-1]
        if side == "start":
            df = df[str(t[0] + DAY * t[1]):]
        else:
            df = df[:str(t[0] - DAY)]
        if len(df) < 3:
            text = "empty"
            df = df[:0]
        text = f"data that lacks the {side} of the run ({t[0]}, step {cal.delta})"
        e = refuse(ctx, what, text, lambda: go(df))
    elif what == "checksum":
        algo = rng.choice(["md5", "sha256", "sha1"])

        def wrong(url):
            h = hashlib.new(algo, open(url, "rb").read()).hexdigest()
            j = rng.randrange(len(h))
            h = h[:j] + ("0" if h[j] != "0" else "1") + h[j + 1:]
            good = {a: hashlib.new(a, open(url, "rb").read()).hexdigest() for a in rng.sample(["md5", "sha256", "sha1", "sha512"], rng.randint(0, 2)) if a != algo}
            c = list(good.items()) + [(algo, h)]
            rng.shuffle(c)
            return dict(c)
        target = rng.choice(["dataframe", "tables", "table", "twice"])
        if target == "tables":
            f = tables.open_file(fn + ".h5", "w")
            f.create_carray("/", "x", obj=v)
            f.close()
            d = dict(type="tablesarray", name="p", url=fn + ".h5", node="x", where="/", checksum=wrong(fn + ".h5"))
            if sc is not None:
                d["scenario"] = "sc"

            def f2():
                load_parameter(m, d)
                m.run()
        else:
            if kind == "period":
                kind = "csv"
            d2 = df.to_timestamp()
            d2.index.name = "when"
            if kind == "csv":
                d2.to_csv(fn + ".csv")
                spec = dict(url=fn + ".csv", index_col="when", parse_dates=True)
            else:
                d2.to_hdf(fn + ".h5", key="k", mode="w")
                spec = dict(url=fn + ".h5", key="k")
            right = dict(spec, checksum={algo: hashlib.new(algo, open(spec["url"], "rb").read()).hexdigest()})
            spec["checksum"] = wrong(spec["url"])
            if target == "table":
                def f2():
                    Model.load(dict(metadata={}, timestepper=cal.doc(), tables={"t": spec}, nodes=[]), solver="null", path=os.getcwd())
            else:
                sp = dict(scenario="sc") if sc is not None else {}

                def f2():
                    if target == "twice":  # the same file was read before with the right checksum
                        load_parameter(m, dict(right, type="dataframe", name="q", **sp))
                    load_parameter(m, dict(spec, type="dataframe", name="p", **sp))
                    m.run()
        text = f"a file with a wrong {algo} checksum ({target})"
        e = refuse(ctx, what, text, f2)
        if e is not None and not isinstance(e, HashMismatchError):
            ctx.violation("checksum-error", f"{text} raised {type(e).__name__}: {e}")
    else:
        case_ = rng.choice(["columns", "noscenario", "tables-short", "tables-narrow", "tables-nan", "array", "const", "rowshort"])
        text = case_
        if case_ == "columns":
            k = size + rng.choice([1, 2, -1] if size > 2 else [1, 2])
            df = pd.DataFrame(np.ones((len(idx), k)), index=idx, columns=[f"c{i}" for i in range(k)])
            e = refuse(ctx, what, f"{k} columns for a scenario of size {size}", lambda: go(df, scen))
        elif case_ == "noscenario":
            df = pd.DataFrame(np.ones((len(idx), 2)), index=idx, columns=["a", "b"])
            e = refuse(ctx, what, "two columns without a scenario", lambda: go(df, None))
        elif case_.startswith("tables"):
            T = len(cal)
            shape = (T, size)
            a = np.ones(shape)
            if case_ == "tables-short":
                a = a[:-1] if T > 1 else a[:0]
            elif case_ == "tables-narrow":
                a = a[:, :-1]
            else:
                a[rng.randrange(T), rng.randrange(size)] = rng.choice([np.nan, np.inf])
            if a.size == 0:
                a = np.ones((T, 1))
            f = tables.open_file(fn + ".h5", "w")
            f.create_carray("/", "x", obj=a)
            f.close()

            def f2():
                load_parameter(m, dict(type="tablesarray", name="p", url=fn + ".h5", node="x", scenario="sc"))
                m.run()
            e = refuse(ctx, what, f"{case_}: an array of shape {a.shape} for {T} steps and a scenario of size {size}", f2)
        elif case_ == "array":
            k = size + rng.choice([1, -1])

            def f2():
                ArrayIndexedScenarioParameter(m, scen, np.ones((len(cal), k)))
                m.run()
            e = refuse(ctx, what, f"an array of {k} columns for a scenario of size {size}", f2)
        elif case_ == "const":
            k = size + rng.choice([1, -1])

            def f2():
                load_parameter(m, dict(type="constantscenario", scenario="sc", values=[1.0] * k))
                m.run()
            e = refuse(ctx, what, f"{k} values for a scenario of size {size}", f2)
        else:
            def f2():
                if rng.random() < .5:
                    ArrayIndexedParameter(m, np.ones(len(cal) - 1))
                else:
                    ArrayIndexedScenarioParameter(m, scen, np.ones((len(cal) - 1, size)))
                m.run()
            e = refuse(ctx, what, f"an array of {len(cal) - 1} values for {len(cal)} steps", f2)
    ctx.key("bad", what, text.split(" from")[0][:40], kind)


def arrays(ctx):
    """TablesArrayParameter and the array parameters pick the row of the step and the column of the scenario."""
    rng = ctx.rng
    cal = Cal(rng, nmax=60)
    m = Model(solver="null")
    cal.apply(m)
    T = len(cal)
    a = Scenario(m, "a", size=rng.randint(1, 4))
    b = Scenario(m, "b", size=rng.randint(1, 3))
    mode = rng.choice(["all", "slice", "user"])
    import itertools
    comb = list(itertools.product(range(a.size), range(b.size)))
    if mode == "slice":
        a.slice = rng.choice([slice(rng.randrange(a.size), None), slice(None, rng.randint(1, a.size)), slice(0, None, 2), slice(-1, None)])
        comb = [c for c in comb if c[0] in range(a.size)[a.slice]]
    elif mode == "user":
        comb = [rng.choice(comb) for _ in range(rng.randint(1, 6))]
        m.scenarios.user_combinations = comb
    ps = []
    fn = f"arr{ctx.i}.h5"
    f = tables.open_file(fn, "w")
    specs = []
    for j in range(rng.randint(1, 4)):
        k = rng.choice(["f8", "f4", "i4", "i2", "i1"])
        extra = rng.choice([0, 0, 3])
        si = rng.choice([None, 0, 1])
        s = None if si is None else (a, b)[si]
        w = 1 if s is None else s.size + rng.choice([0, 0, 2])
        x = np.array([[rng.randint(0, 100) if k[0] == "i" else rng.uniform(0, 100) for _ in range(w)] for _ in range(T + extra)]).astype(k)
        if s is None and rng.random() < .4:
            x = x[:, 0]
        where = rng.choice(["/", "/grp"])
        (f.create_carray if rng.random() < .5 else f.create_array)(where, f"n{j}", obj=x, createparents=True)
        specs.append((j, k, x if x.ndim == 2 else x[:, None], si, s, where, rng.choice([0, 0, 1, -2, rng.randint(-4, 4)])))
    f.close()
    for j, k, x, si, s, where, off in specs:
        json_ = rng.random() < .5
        if json_:
            d = dict(type="tablesarray", name=f"t{j}", url=os.path.abspath(fn), node=f"n{j}", where=where)
            if s is not None:
                d["scenario"] = s.name
            if off:
                d["timestep_offset"] = off
            if rng.random() < .4:
                d["checksum"] = {"md5": hashlib.md5(open(fn, "rb").read()).hexdigest()}
            p = load_parameter(m, d)
        else:
            p = TablesArrayParameter(m, fn, f"n{j}", where=where, scenario=s, timestep_offset=off, name=f"t{j}")
        rows = [min(max(t + off, 0), x.shape[0] - 1) for t in range(T)]
        ps.append((p, x.astype(float)[rows][:, [0 if si is None else c[si] for c in comb]], f"TablesArrayParameter ({k}, {x.shape}, offset {off}, scenario {s and s.name})", True))
        ctx.key("tables", k, x.shape[0] > T, si, mode, off)
    v = np.array([rng.uniform(0, 9) for _ in range(T + rng.choice([0, 2]))])
    ps.append((ArrayIndexedParameter(m, v), np.repeat(v[:T, None], len(comb), 1), "ArrayIndexedParameter", False))
    v2 = np.array([[rng.uniform(0, 9) for _ in range(b.size)] for _ in range(T)])
    ps.append((ArrayIndexedScenarioParameter(m, b, v2), v2[:, [c[1] for c in comb]], "ArrayIndexedScenarioParameter", False))
    v3 = [rng.uniform(0, 9) for _ in range(a.size)]
    ps.append((ConstantScenarioParameter(m, a, v3), np.repeat(np.array(v3)[[c[0] for c in comb]][None], T, 0), "ConstantScenarioParameter", False))
    spy = Spy(m)
    m.run()
    for p, w, what, ind in ps:
        ctx.event("values compared", w.size)
        ctx.close(np.array(spy.par[p]), w, "array", f"{what}, scenarios {mode}")
        if ind:
            ctx.close(np.array(spy.idx[p]), w.astype(int), "array-index", f"index of {what}")


def constants(ctx):
    """Values looked up by row and column labels."""
    rng = ctx.rng
    m = Model(solver="null")
    m.path = os.getcwd()
    m.timestepper.start, m.timestepper.end = "2015-01-01", "2015-12-31"
    m.timestepper.delta = 30
    names = rng.sample(["Oxford", "Cambridge", "London", "Leeds", "York", "Ely"], rng.randint(2, 6))
    months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    df = pd.DataFrame({"City": names, **{c: [round(rng.uniform(0, 100), 3) for _ in names] for c in months}}).set_index("City")
    kind = rng.choice(["csv", "xlsx", "h5"])
    fn = f"con{ctx.i}.{kind}"
    multi = rng.random() < .3 and kind == "csv"
    if multi:
        df.index = pd.MultiIndex.from_tuples([(n, i % 2) for i, n in enumerate(names)], names=["City", "No"])
    if kind == "csv":
        df.to_csv(fn)
        spec = dict(url=fn, index_col=["City", "No"] if multi else "City")
    elif kind == "xlsx":
        df.to_excel(fn)
        spec = dict(url=fn, index_col="City")
    else:
        df.to_hdf(fn, key="x", mode="w")
        spec = dict(url=fn, key="x")
    table = rng.random() < .5
    from pywr.dataframe_tools import load_dataframe
    if table:
        m.tables["t"] = load_dataframe(m, dict(spec))
        ctx.event("table references")
    ps = []
    for j in range(rng.randint(1, 4)):
        i = rng.randrange(len(names))
        row = [names[i], i % 2] if multi else names[i]
        src = dict(table="t") if table else dict(spec)
        if rng.random() < .5:
            c = rng.choice(months)
            p = load_parameter(m, dict(type="constant", name=f"k{j}", column=c, index=row, **src))
            ps.append((p, lambda d, i=i, c=c: df[c].iloc[i]))
        else:
            p = load_parameter(m, dict(type="monthlyprofile", name=f"k{j}", index=row, **src))
            ps.append((p, lambda d, i=i: df.iloc[i, d.month - 1]))
        ctx.event("constants read")
    src = dict(table="t") if table else dict(spec)
    for d in (dict(column="Nope", index=names[0]), dict(column="Jan", index="Nowhere")):
        refuse(ctx, "lookup", f"the lookup {d}", lambda: load_parameter(m, dict(type="constant", name=f"z{d}", **d, **src)))
    ctx.key("constants", kind, table, multi)
    spy = Spy(m)
    m.run()
    for p, f in ps:
        w = np.array([[f(t[1].to_pydatetime())] for t in [(x[0], pd.Timestamp(x[1])) for x in spy.ts]])
        ctx.event("values compared", w.size)
        ctx.close(np.array(spy.par[p]), w, "lookup", f"{type(p).__name__} read by labels from {kind}")


def case(ctx):
    r = ctx.i % 10
    if r < 5:
        series(ctx)
    elif r < 7:
        bad(ctx)
    elif r < 9:
        arrays(ctx)
    else:
        constants(ctx)
