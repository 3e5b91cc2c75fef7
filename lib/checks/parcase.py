"""Shared by the parameter checks: random calendars, scenarios and a recorder that logs every parameter's value in every step."""
import calendar
import datetime as dt

import numpy as np

from pywr.core import Scenario
from pywr.model import Model
from pywr.parameters import IndexParameter, Parameter
from pywr.recorders import Recorder

DAY = dt.timedelta(days=1)
ORIGINS = ["2015-01-01", "2015-12-20", "2016-02-20", "2016-02-29", "2016-12-24", "2000-02-20", "1900-02-20", "2100-02-20", "1999-12-20", "2019-06-01", "2024-01-31", "2023-03-01",
           "2012-12-31", "2020-01-01"]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def idx366(d):
    """0..365, the same index for the same calendar day in every year."""
    return (d.replace(year=2000) - dt.date(2000, 1, 1)).days


class Cal:
    """A random calendar: steps = [(date, days, date whose attributes apply)]."""

    def __init__(self, rng, nmax=800, deltas=(1, 1, 1, 1, 7, 5, 10, 30, "M")):
        self.delta = rng.choice(deltas)
        n = rng.randint(1, nmax) if rng.random() < .5 else rng.randint(1, 40)
        o = dt.date.fromisoformat(rng.choice(ORIGINS)) + DAY * rng.choice([0, rng.randint(0, 30), rng.randint(0, 400)])
        self.start = o
        self.steps = []
        if self.delta == "M":
            d = o.replace(day=1)
            for _ in range(min(n, 40)):
                k = calendar.monthrange(d.year, d.month)[1]
                self.steps.append((d, k, d.replace(day=k)))
                d += DAY * k
            self.start = self.steps[0][0]
            self.end = self.steps[-1][2]
        else:
            d = o
            for _ in range(n if self.delta == 1 else max(1, n // 3)):
                self.steps.append((d, self.delta, d))
                d += DAY * self.delta
            self.end = self.steps[-1][0]

    def __len__(self):
        return len(self.steps)

    def doc(self):
        return dict(start=str(self.start), end=str(self.end), timestep=self.delta)

    def apply(self, model):
        model.timestepper.start, model.timestepper.end, model.timestepper.delta = str(self.start), str(self.end), self.delta


class Spy(Recorder):
    """Logs parameter values, indices, flows and volumes of every step."""

    def __init__(self, model, flows=False, **kw):
        super().__init__(model, name="pv-spy", **kw)
        self.flows = flows

    def reset(self):
        self.par, self.idx, self.ts, self.flow, self.prev, self.vol0, self.pc0, self.vol1 = {}, {}, [], {}, {}, {}, {}, {}
        self.ps = [p for p in self.model.component_graph.nodes() if isinstance(p, Parameter)]
        for p in self.ps:
            self.par[p] = []
            if isinstance(p, IndexParameter):
                self.idx[p] = []
        self.ns = list(self.model.graph.nodes()) if self.flows else []
        for n in self.ns:
            self.flow[n], self.prev[n] = [], []
            if hasattr(n, "volume"):
                self.vol0[n], self.pc0[n], self.vol1[n] = [], [], []

    def before(self):
        for n in self.ns:
            self.prev[n].append(np.array(n.prev_flow))
            if n in self.vol0:
                self.vol0[n].append(np.array(n.volume))
                self.pc0[n].append(np.array(n.current_pc))

    def after(self):
        ts = self.model.timestepper.current
        self.ts.append((ts.index, ts.datetime, ts.days))
        sis = self.model.scenarios.combinations
        for p in self.ps:
            self.par[p].append(np.array(p.get_all_values()))
            if p in self.idx:
                self.idx[p].append([p.get_index(si) for si in sis])
        for n in self.ns:
            self.flow[n].append(np.array(n.flow))
            if n in self.vol1:
                self.vol1[n].append(np.array(n.volume))


def scenarios(rng, model, n=None):
    """0-2 scenarios; returns ([Scenario], [member tuple of each combination])."""
    out = []
    for i in range(rng.randint(0, 2) if n is None else n):
        out.append(Scenario(model, f"scen{i}", size=rng.randint(1, 4)))
    return out


def members(model):
    """Tuples of member numbers in combination order (own enumeration of the cartesian product)."""
    import itertools
    sizes = [s.size for s in model.scenarios.scenarios]
    return list(itertools.product(*[range(k) for k in sizes])) or [()]


class Bench:
    """Small supply systems run with GLPK: in{j} -> st{j} -> lk{j} -> out{j} (plus in{j} -> lk{j} at times), mostly whole numbers so
    that storages sit exactly on curves and thresholds; an aggregated storage `agst` and a virtual storage `vst` watch them."""

    def __init__(self, rng, nmax=40, deltas=(1, 1, 1, 1, 2, 7, "M"), nscen=None):
        from pywr.nodes import AggregatedNode, AggregatedStorage, Input, Link, Output, Storage, VirtualStorage
        from pywr.parameters import ArrayIndexedScenarioParameter, ConstantParameter
        self.rng = rng
        self.cal = Cal(rng, nmax=nmax, deltas=deltas)
        self.m = m = Model(solver="glpk")
        self.cal.apply(m)
        scenarios(rng, m, nscen)
        self.mem = members(m)
        self.T, self.S = len(self.cal), len(self.mem)
        self.J = rng.randint(1, 3)
        self.whole = rng.random() < .7
        self.n = {}
        for j in range(self.J):
            mx = rng.choice([10, 16, 20, 100])
            kw = {}
            if rng.random() < .3:
                kw["min_volume"] = rng.choice([2, mx / 10])
            if rng.random() < .2:
                kw["max_volume"] = ConstantParameter(m, mx)
                kw["initial_volume"] = rng.randint(0, mx)
                if rng.random() < .5:
                    del kw["initial_volume"]
                    kw["initial_volume_pc"] = rng.choice([0, .5, 1.0])
            else:
                kw.update(max_volume=mx, initial_volume=rng.choice([mx, 0, rng.randint(0, mx)]))
            i = Input(m, f"in{j}", max_flow=self.series(ArrayIndexedScenarioParameter, 0, 9))
            st = Storage(m, f"st{j}", cost=-1, **kw)
            lk = Link(m, f"lk{j}", max_flow=rng.choice([float("inf"), 6, 8]))
            out = Output(m, f"out{j}", max_flow=self.series(ArrayIndexedScenarioParameter, 0, 8), cost=-10)
            i.connect(st)
            st.connect(lk)
            lk.connect(out)
            if rng.random() < .3:
                i.connect(lk)
            for x in (i, st, lk, out):
                self.n[x.name] = x
        sts = [self.n[f"st{j}"] for j in range(self.J)]
        self.n["agst"] = AggregatedStorage(m, "agst", storage_nodes=sts)
        self.n["agn"] = AggregatedNode(m, "agn", [self.n["out0"], self.n["lk0"]])
        self.n["vst"] = VirtualStorage(m, "vst", nodes=[self.n["out0"]], factors=[rng.choice([1.0, .5])], max_volume=200, initial_volume=rng.choice([200, 50]))
        self.storages = [f"st{j}" for j in range(self.J)]
        self.stores = self.storages + ["agst", "vst"]

    def number(self, lo, hi):
        return float(self.rng.randint(lo, hi)) if self.whole else round(self.rng.uniform(lo, hi), 3)

    def series(self, cls, lo, hi, days=None):
        """A series per step, different in every member of the first scenario, if there is one."""
        from pywr.parameters import ArrayIndexedParameter
        m = self.m
        if not m.scenarios.scenarios:
            return ArrayIndexedParameter(m, [self.number(lo, hi) for _ in range(self.T)])
        s = self.rng.choice(m.scenarios.scenarios)
        return cls(m, s, np.array([[self.number(lo, hi) for _ in range(s.size)] for _ in range(self.T)], dtype=float))

    def run(self, spy):
        self.m.run()
        assert len(spy.ts) == self.T
