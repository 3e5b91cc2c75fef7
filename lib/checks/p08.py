"""P08: a model run again after any history gives what a freshly built model gives."""
import copy

from pv import trace
from pv.worker import Stop
from . import runcmp

META = {
    "n": [1000, 12000], "budget": [60, 700], "min_events": {"histories": 100, "op:run": 50, "op:steps": 50, "op:fault": 50, "fresh runs": 100, "part runs": 50},
    "rule": "distinct: solver settings, kinds of parameters and recorders, and the sequence of operations before the compared run",
    "assumptions": ["when two runs differ first in the allocation of a step and both allocations have the same cost, the runs are compared up to that step only"],
}


def case(ctx):
    rng = ctx.rng
    g, r, solver, args = runcmp.richcase(ctx, infeasible=False, minflow=rng.choice([0, 0, .3]))
    doc = g.doc
    fresh = trace.monitored(doc, solver, params=True, costs=True, **args)
    A = runcmp.run(*fresh)
    ctx.event("fresh runs")
    ctx.event("failing models" if A.error else "complete models")
    model, mon = trace.monitored(doc, solver, params=True, costs=True, **args)
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["run", "run", "steps", "steps", "fault", "fault", "setup", "reset", "other", "till", "recall", "stepsreset"])
        ops.append(op)
        apply(ctx, model, mon, op, g, doc, solver, args, A)
    ctx.event("histories")
    ctx.key(solver, sorted(args), sorted(str(p["type"]).lower() for p in doc["parameters"].values()), ops)
    ctx.sample({"solver": solver, "args": args, "operations": ops, "steps": g.nsteps, "failing": bool(A.error)})
    if g.nsteps > 1 and A.error is None and rng.random() < .25:  # not a whole run, but its first steps
        k = rng.randint(1, g.nsteps - 1)
        ctx.event("part runs")
        A1 = runcmp.run(*trace.monitored(doc, solver, params=True, costs=True, **args), steps=k)
        B = runcmp.run(model, mon, steps=k)
        what = f"{k} steps of a fresh model and of one after {ops}"
        if runcmp.logs(ctx, A1, B, "rerun", what) == "same":
            runcmp.recorders(ctx, A1, B, "rerun-recorder", what)
    B = runcmp.run(model, mon)
    what = f"fresh run and run after {ops}"
    res = runcmp.logs(ctx, A, B, "rerun", what)
    if res == "same":
        ctx.event("equal runs")
        if A.error is None:
            runcmp.recorders(ctx, A, B, "rerun-recorder", what)
    # once more, straight away
    if res == "same" and rng.random() < .4:
        C = runcmp.run(model, mon)
        if runcmp.logs(ctx, A, C, "rerun", what + " and again") == "same" and A.error is None:
            runcmp.recorders(ctx, A, C, "rerun-recorder", what + " and again")


def apply(ctx, model, mon, op, g, doc, solver, args, A):
    rng = ctx.rng
    ctx.event("op:" + op)
    n = g.nsteps

    def quiet(f):
        try:
            f()
        except runcmp.ERRORS + (trace.Injected, StopIteration) as e:
            ctx.event("interrupted:" + type(e).__name__)

    if op == "run":
        quiet(model.run)
    elif op == "steps":
        for _ in range(rng.randint(1, n)):
            quiet(model.step)
    elif op == "stepsreset":
        quiet(model.setup if model.dirty else model.reset)
        for _ in range(rng.randint(1, n)):
            quiet(model.step)
    elif op == "fault":
        mon.fail_at = (rng.choice(["before", "after"]), rng.randrange(n))
        quiet(model.run)
        mon.fail_at = None
    elif op == "setup":
        quiet(model.setup)
    elif op == "reset":
        if model.dirty:
            quiet(model.setup)
        quiet(model.reset)
    elif op == "other":  # another model in the same process, stepped in between
        m2, _ = trace.monitored(doc, solver, **args)
        for _ in range(rng.randint(1, n)):
            quiet(m2.step)
            if rng.random() < .5:
                quiet(model.step)
    elif op == "till":  # a shorter run, then the original period again
        end = model.timestepper.end
        k = rng.randint(1, n)
        if g.delta != "M":
            import pandas as pd
            model.timestepper.end = pd.Timestamp(g.start) + pd.Timedelta(days=g.delta * (k - 1))
            quiet(model.run)
            model.timestepper.end = end
    elif op == "recall":
        quiet(model.run)
        runcmp.recvals(model)
