"""P23, second half: a timestep without a feasible allocation, or with an undefined limit, ends the run with an error, keeping the steps before it."""
import math
import os
import random
import tempfile
import warnings

import numpy as np

from pywr import nodes as N
from pywr.model import Model
from pywr.parameters import Parameter
from pywr.recorders import CSVRecorder, NumpyArrayNodeRecorder
from pv import trace
from . import runcmp
from .p22 import strip


class Broken(Exception):
    """The fault of a user-defined parameter."""


class Spoil(Parameter):
    """A constant, except for one step of one combination where it is something bad."""

    def __init__(self, model, good, bad, step, comb, **kw):
        super().__init__(model, **kw)
        self.good, self.bad, self.step, self.comb, self.on = good, bad, step, comb, True

    def value(self, ts, si):
        if self.on and ts.index == self.step and si.global_id == self.comb:
            if self.bad is Broken:
                raise Broken("the parameter failed")
            return self.bad
        return self.good


KINDS = {}


def kind(f):
    KINDS[f.__name__.replace("_", " ")] = f
    return f


def pair(m, **kw):
    a = N.Input(m, "zz in", max_flow=5.0)
    b = N.Output(m, "zz out", **kw)
    return a, b


@kind
def demand_above_the_supply(m, rng, sp):
    a, b = pair(m, max_flow=20.0, min_flow=sp(2.0, 5.5))
    a.connect(b)


@kind
def demand_above_the_supply_of_a_link(m, rng, sp):
    a, b = pair(m)
    c = N.Link(m, "zz link", min_flow=sp(1.0, 6.0), max_flow=9.0)
    a.connect(c)
    c.connect(b)


@kind
def supply_above_the_demand(m, rng, sp):
    a = N.Input(m, "zz in", min_flow=sp(1.0, 8.0), max_flow=20.0)
    b = N.Output(m, "zz out", max_flow=7.0)
    a.connect(b)


@kind
def minimum_above_maximum(m, rng, sp):
    which = rng.choice(["in", "out", "link"])
    kw = {"min_flow": sp(2.0, 4.0), "max_flow": 3.0} if rng.random() < .5 else {"min_flow": 2.0, "max_flow": sp(3.0, 1.0)}
    a = N.Input(m, "zz in", **(kw if which == "in" else {}))
    c = N.Link(m, "zz link", **(kw if which == "link" else {}))
    b = N.Output(m, "zz out", **(kw if which == "out" else {"max_flow": 50.0}))
    a.connect(c)
    c.connect(b)


@kind
def negative_maximum(m, rng, sp):
    which = rng.choice(["in", "out", "link"])
    kw = {"max_flow": sp(3.0, -1.0)}
    a = N.Input(m, "zz in", **(kw if which == "in" else {}))
    c = N.Link(m, "zz link", **(kw if which == "link" else {}))
    b = N.Output(m, "zz out", **(kw if which == "out" else {"max_flow": 50.0}))
    a.connect(c)
    c.connect(b)


@kind
def undefined_limit(m, rng, sp):
    which = rng.choice(["in", "out", "link"])
    kw = {rng.choice(["max_flow", "min_flow"]): sp(2.0, math.nan)}
    a = N.Input(m, "zz in", **(kw if which == "in" else {}))
    c = N.Link(m, "zz link", **(kw if which == "link" else {}))
    b = N.Output(m, "zz out", **(kw if which == "out" else {"max_flow": 50.0}))
    a.connect(c)
    c.connect(b)


@kind
def undefined_cost(m, rng, sp):
    which = rng.choice(["in", "out", "link"])
    kw = {"cost": sp(-2.0, math.nan)}
    a = N.Input(m, "zz in", **(kw if which == "in" else {}))
    c = N.Link(m, "zz link", **(kw if which == "link" else {}))
    b = N.Output(m, "zz out", max_flow=5.0, **(kw if which == "out" else {}))
    a.connect(c)
    c.connect(b)


@kind
def group_minimum(m, rng, sp):
    a, b = pair(m)
    b.max_flow = 4.0
    c, d = N.Input(m, "zz in2", max_flow=6.0), N.Output(m, "zz out2", max_flow=3.0)
    a.connect(b)
    c.connect(d)
    g = N.AggregatedNode(m, "zz group", [b, d] if rng.random() < .5 else [a, c])
    g.min_flow = sp(2.0, 7.5)


@kind
def group_maximum_below_the_demands(m, rng, sp):
    a, b = pair(m, min_flow=2.0)
    c, d = N.Input(m, "zz in2"), N.Output(m, "zz out2", min_flow=3.0)
    a.connect(b)
    c.connect(d)
    g = N.AggregatedNode(m, "zz group", [b, d])
    g.max_flow = sp(9.0, 4.5)


@kind
def failing_parameter(m, rng, sp):
    a, b = pair(m)
    which = rng.choice(["max_flow", "cost", "min_flow"])
    setattr(rng.choice([a, b]), which, sp(1.0, Broken))
    a.connect(b)


@kind
def empty_storage(m, rng, sp):
    """The storage's release of 3 a day cannot be met at the step where it has run out."""
    st = N.Storage(m, "zz store", max_volume=1e5, initial_volume=3.0 * sp.days + sp.next)
    b = N.Output(m, "zz out", min_flow=3.0, max_flow=3.0)
    st.connect(b)
    a = N.Input(m, "zz in", max_flow=0.0)
    a.connect(st)
    sp.every = True


@kind
def full_storage(m, rng, sp):
    st = N.Storage(m, "zz store", max_volume=2.5 * sp.days + 20.0 + sp.next, initial_volume=20.0)
    a = N.Input(m, "zz in", min_flow=2.5, max_flow=2.5)
    a.connect(st)
    b = N.Output(m, "zz out", max_flow=0.0)
    st.connect(b)
    sp.every = True


@kind
def exhausted_licence(m, rng, sp):
    a, b = N.Input(m, "zz in"), N.Output(m, "zz out", min_flow=3.0, max_flow=8.0)
    b.cost = 1.0
    a.connect(b)
    N.VirtualStorage(m, "zz licence", [rng.choice([a, b])], factors=[2.0], max_volume=6.0 * sp.days + 5.0 * sp.next, initial_volume=6.0 * sp.days + 5.0 * sp.next)
    sp.every = True


class Spoiler:
    def __init__(self, m, step, comb, days, next):
        self.m, self.step, self.comb, self.days, self.next, self.every, self.pars = m, step, comb, days, next, False, []

    def __call__(self, good, bad):
        p = Spoil(self.m, good, bad, self.step, self.comb)
        self.pars.append(p)
        return p


def case(ctx):
    rng = ctx.rng
    retry = rng.random() < .2
    g, r, solver, args = runcmp.richcase(ctx, infeasible=False, minflow=0, params=(1, 4), recs=(0, 2))
    warnings.simplefilter("ignore")
    if retry and solver != "lpsolve":
        args = dict(args, retry_solve=True)

    def make(tmp):
        d2, finish = strip(g.doc)
        m = Model.load(d2, path=tmp, solver=solver, solver_args=args)
        return finish(m)

    with tempfile.TemporaryDirectory(prefix="pv23-") as tmp:
        m, mon = make(tmp)
        try:
            m.run()
        except runcmp.ERRORS:
            ctx.event("models without a feasible allocation")
            return
        base, steps, ncomb = mon.log, len(mon.log), len(m.scenarios.combinations)
        name = rng.choice(sorted(KINDS))
        k, s = rng.randrange(steps), rng.randrange(ncomb)
        if name == "undefined cost" and args.get("set_fixed_costs_once"):
            ctx.event("costs fixed once")
        seed = rng.random()
        m, mon = make(tmp)
        sp = Spoiler(m, k, s, float(sum(x["days"] for x in base[:k])), base[k]["days"])
        KINDS[name](m, random.Random(seed), sp)
        unsafe = args.get("use_unsafe_api") and name.startswith("undefined")
        if unsafe:
            ctx.event("undefined values with the unchecked interface (by design not reported)")
            return
        path = os.path.join(tmp, "out.csv")
        CSVRecorder(m, path)
        arr = NumpyArrayNodeRecorder(m, m.nodes["zz out"])
        manual = rng.random() < .4
        ctx.event("failing steps")
        ctx.event("failing:" + name)
        ctx.key(name, solver, sorted(args), k == 0, s == 0, manual, sp.every, ncomb > 1)
        ctx.sample({"fault": name, "step": k, "combination": s, "solver": solver, "args": args, "manual": manual})
        err = None
        try:
            if manual:
                m.setup()
                m.reset()
                for _ in range(steps):
                    m.step()
            else:
                m.run()
        except Exception as e:
            err = e
        where = f"{name} at step {k} of {steps}, combination {s} of {ncomb}, solver {solver} {args}"
        if err is None:
            ctx.violation("solved:" + name, f"{where}: no error; flow {mon.log[k]['flow'].get('zz out')}")
            return
        if len(mon.log) != k:
            ctx.violation("step:" + name, f"{where}: reported after {len(mon.log)} steps: {err!r}")
            return
        if name == "failing parameter":
            ctx.check(isinstance(err, Broken), "error-replaced", f"{where}: the parameter's exception was replaced by {err!r}")
        if manual:
            m.finish()
        ctx.event("failure reported")
        # nothing that looks like a result of the failed step
        rows = sum(1 for _ in open(path)) - 1 if os.path.exists(path) else 0
        ctx.check(rows == (k if not manual or k else max(rows, 0)), "rows", f"{where}: the file of a CSVRecorder has {rows} rows")
        data = np.array(arr.data)
        ctx.check(not data[k:].any(), "data-after-failure", f"{where}: an array recorder holds values for the step that failed: {data[k:][:2]}")
        if sp.every:
            return
        # what failed was the step only: repaired, the same model runs to the end
        for p in sp.pars:
            p.on = False
        try:
            m.run()
        except Exception as e:
            ctx.violation("not-recovered:" + name, f"{where}: with the cause removed, the model still fails: {e!r}")
            return
        ctx.event("models that run again once repaired")
        m2, mon2 = make(tmp)
        sp2 = Spoiler(m2, k, s, sp.days, sp.next)
        KINDS[name](m2, random.Random(seed), sp2)
        for p in sp2.pars:
            p.on = False
        NumpyArrayNodeRecorder(m2, m2.nodes["zz out"])
        B = runcmp.run(m2, mon2)
        A = runcmp.Done(m, mon)
        ctx.check(len(A.log) == steps == len(B.log), "rerun-steps", f"{where}: the run after the repair logged {len(A.log)} steps")
        runcmp.logs(ctx, A, B, "rerun-after-failure", where + ": run again after the failure and on a new model")
