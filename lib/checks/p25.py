"""P25: sanitizers and leak accounting watch the compiled core under the workloads of all other checks, odd histories and failing solves.

The compiled modules are built with AddressSanitizer and UndefinedBehaviorSanitizer; any report ends the worker process, which the runner
turns into a violation.  Freshly allocated memory is filled with a pattern by the allocator, and separately numpy.empty is filled with two
patterns in turn.  Live heap bytes come from the sanitizer's allocator, so growth per step, run, setup and model is exact.
"""
import copy
import ctypes
import gc
import importlib
import os
import re
import sys
import tempfile
import warnings

import numpy as np

from pywr.model import Model, ModelStructureError
from pv import gen, rich, trace
from pv.worker import Ctx, Stop
from . import netcase, runcmp

META = {
    "flavour": "asan",
    "n": [640, 12000], "budget": [95, 800], "case_timeout": 300,
    "min_events": {"workload cases": 150, "histories": 60, "fill comparisons": 40, "leak measurements": 60, "measured growth windows": 120, "sanitized calls": 3000},
    "rule": "distinct: the kind of workload, the check it comes from or the solver and its options, and the sequence of operations",
    "assumptions": ["third-party libraries (GLPK, lpsolve, numpy) are not instrumented: their heap accesses are not checked, only their allocations are counted",
                    "reads of memory that is allocated but not initialised are found through the values they lead to"],
}
WORK = ["P01", "P04", "P06", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P26", "P27"]
lib = ctypes.CDLL(None)
try:
    live = lib.__sanitizer_get_current_allocated_bytes
    live.restype = ctypes.c_size_t
except AttributeError:  # the module is only looked at
    live = None
OOB = "Out of bounds on buffer access"


class Swallowed:
    """Collects exceptions that the compiled core could not raise."""

    def __enter__(self):
        self.seen = []
        self.old = sys.unraisablehook
        sys.unraisablehook = lambda a: self.seen.append((type(a.exc_value).__name__, str(a.exc_value), str(a.object)))
        return self

    def __exit__(self, *a):
        sys.unraisablehook = self.old


def case(ctx):
    warnings.simplefilter("ignore")
    assert live is not None and live() > 0, "not running under the sanitizer"
    kind = ["work", "history", "work", "leak", "work", "fill", "work", "history"][(ctx.i // 8) % 8]
    with Swallowed() as sw:
        {"work": workload, "history": history, "fill": fill, "leak": leak}[kind](ctx)
        gc.collect()
    for t, msg, where in sw.seen:
        ctx.event("swallowed exceptions")
        if OOB in msg:
            ctx.violation("swallowed", f"an access outside a buffer in {where} was not reported: {t}: {msg}")


def workload(ctx):
    """A case of another check; what that check makes of it is not used here."""
    pid = WORK[ctx.i % len(WORK)] if ctx.rng.random() < .5 else ctx.rng.choice(WORK)
    mod = importlib.import_module("checks." + pid.lower())
    sub = Ctx(pid, ctx.tier, ctx.seed, ctx.i)
    try:
        mod.case(sub)
    except Stop:
        pass
    except Exception as e:
        ctx.event("workload ended by " + type(e).__name__)
    ctx.event("workload cases")
    ctx.event("workload:" + pid)
    ctx.event("sanitized calls", sum(v for k, v in sub.counters.items()))
    ctx.key("work", pid, sorted(sub.distinct)[:1])


def model(ctx, **kw):
    g, r, solver, args = runcmp.richcase(ctx, **kw)
    return g, r, solver, args


def history(ctx):
    """Runs, steps, setups, faults, edits, failing solves and abandoned models, several models at a time."""
    rng = ctx.rng
    g, r, solver, args = model(ctx, infeasible=rng.random() < .4, minflow=rng.choice([0, .1, .4]), nsteps=rng.choice([(1, 1), (2, 5), (3, 12)]))
    models = [trace.monitored(g.doc, solver, **args)]
    ops = []

    def quiet(f, *a):
        try:
            return f(*a)
        except runcmp.ERRORS + (trace.Injected, StopIteration, ValueError, KeyError, TypeError, AttributeError, IndexError, ModelStructureError) as e:
            ctx.event("interrupted:" + type(e).__name__)

    for _ in range(rng.randint(3, 10)):
        m, mon = rng.choice(models)
        op = rng.choice(["run", "step", "setup", "reset", "fault", "new", "drop", "finish", "nan", "zero", "inf", "edit", "disconnect", "scenario", "stepfault", "shorter", "results", "internal"])
        if op in ("nan", "zero", "inf") and getattr(m.solver, "use_unsafe_api", False):
            continue  # documented to end the process
        if op == "internal" and rng.random() < .5:
            op = "run"
        ops.append(op)
        ctx.event("op:" + op)
        if os.environ.get("PV_OPS"):
            print(op, m.solver.name, getattr(m.solver, "use_unsafe_api", None), file=sys.stderr)
        if op == "run":
            quiet(m.run)
        elif op in ("step", "stepfault"):
            if op == "stepfault":
                mon.fail_at = (rng.choice(["before", "after"]), rng.randrange(3))
            for _ in range(rng.randint(1, 6)):
                quiet(m.step)
            mon.fail_at = None
        elif op == "setup":
            quiet(m.setup)
        elif op == "reset":
            quiet(m.reset if not m.dirty else m.setup)
        elif op == "finish":
            quiet(m.finish)
        elif op == "fault":
            mon.fail_at = (rng.choice(["before", "after"]), rng.randrange(max(1, g.nsteps)))
            quiet(m.run)
            mon.fail_at = None
        elif op == "new":
            s2, a2 = netcase.SOLVE[rng.randrange(6)]
            if solver == "lpsolve":
                s2, a2 = solver, args
            x = quiet(lambda: trace.monitored(g.doc, s2, **a2))
            if x:
                models.append(x)
        elif op == "drop":
            if len(models) > 1:
                models.remove((m, mon))
                del m, mon
                gc.collect()
        elif op in ("nan", "zero", "inf"):
            v = {"nan": float("nan"), "zero": 0.0, "inf": float("inf")}[op]
            n = rng.choice([n for n in m.nodes])
            a = rng.choice(["max_flow", "min_flow", "cost", "max_volume", "min_volume"])
            if hasattr(n, a):
                quiet(setattr, n, a, v)
            quiet(m.run)
        elif op == "edit":
            n = rng.choice([n for n in m.nodes])
            a = rng.choice(["max_flow", "cost"])
            if hasattr(n, a):
                quiet(setattr, n, a, rng.uniform(0, 20))
            quiet(m.run)
        elif op == "disconnect":
            e = list(m.graph.edges())
            if e:
                a, b = rng.choice(e)
                quiet(a.disconnect, b) if hasattr(a, "disconnect") else None
                quiet(m.step)
        elif op == "scenario":
            from pywr.core import Scenario
            quiet(Scenario, m, "late %d" % len(ops), rng.randint(1, 3))
            quiet(m.step)
        elif op == "internal":
            internal(ctx)
            quiet(rng.choice([m.run, m.step, m.setup, m.reset]))
        elif op == "shorter":
            quiet(setattr, m.timestepper, "end", m.timestepper.start)
            quiet(m.run)
        elif op == "results":
            quiet(runcmp.recvals, m)
    ctx.event("histories")
    ctx.event("sanitized calls", sum(len(mon.log) for m, mon in models))
    ctx.key("history", solver, sorted(args), ops)
    ctx.sample({"operations": ops, "solver": solver, "args": args, "steps": g.nsteps})


def internal(ctx):
    """A model that ends in an internal error of GLPK, which destroys the environment that all GLPK models share."""
    from pywr.core import AggregatedNode, Input, Link, Output
    m = Model(solver="glpk")
    a, b, c = Input(m, "a", max_flow=9), Link(m, "b"), Output(m, "c", max_flow=5, cost=-1)
    a.connect(b)
    b.connect(c)
    g = AggregatedNode(m, "g", [a, b])
    g.factors = [1.0, 1.0]
    try:
        m.step()
    except runcmp.ERRORS as e:
        ctx.event("internal:" + type(e).__name__)


REAL_EMPTY = np.empty


class Fill:
    """numpy.empty gives arrays filled with a pattern."""

    def __init__(self, f, i):
        self.f, self.i, self.n = f, i, 0

    def __enter__(self):
        def empty(*a, **k):
            x = REAL_EMPTY(*a, **k)
            self.n += 1
            if x.dtype.kind == "f":
                x[...] = self.f
            elif x.dtype.kind in "iu":
                x[...] = self.i
            return x
        np.empty = empty
        return self

    def __exit__(self, *a):
        np.empty = REAL_EMPTY


def fill(ctx):
    """The same model gives the same results whatever was in the memory it gets."""
    rng = ctx.rng
    g, r, solver, args = model(ctx, infeasible=False, minflow=rng.choice([0, .2]), recs=(3, 10))
    runcmp.generic(ctx, g.doc)
    out, n = [], []
    for f, i in ((0.0, 0), (rng.choice([np.nan, 3.25, 1e30]), rng.choice([1, 77]))):
        with Fill(f, i) as w:
            m, mon = trace.monitored(g.doc, solver, params=True, costs=True, **args)
            out.append(runcmp.run(m, mon))
            if rng.random() < .5 and i == 0:
                pass
            n.append(w.n)
    ctx.event("fill comparisons")
    ctx.event("filled arrays", sum(n))
    ctx.event("sanitized calls", len(out[0].log))
    ctx.key("fill", solver, sorted(args), sorted(str(p["type"]).lower() for p in g.doc["parameters"].values())[:3])
    what = f"the same model ({solver} {args}) with other values in the memory it allocates"
    if runcmp.logs(ctx, out[0], out[1], "uninitialised", what) == "same" and out[0].error is None:
        runcmp.recorders(ctx, out[0], out[1], "uninitialised", what)


def bytes_now():
    gc.collect()
    gc.collect()
    return live()


def leak(ctx):
    """Live heap bytes do not grow with steps, runs, setups or models."""
    rng = ctx.rng
    what = rng.choice(["steps", "runs", "setups", "models", "failing", "stepped runs"])
    long = what == "steps"
    g, r, solver, args = model(ctx, infeasible=what == "failing", minflow=.5 if what == "failing" else 0, nsteps=(170, 170) if long else (2, 8), params=(1, 6), recs=(0, 5) if not long else (0, 2),
                               **({"deltas": {1: 1}} if long else {}))
    doc = g.doc
    if long:
        # these keep what happened
        doc["recorders"] = {k: v for k, v in doc.get("recorders", {}).items() if "event" not in v["type"].lower()}

    def load():
        return trace.load(doc, solver, **args)

    m = load()

    def quiet(f):
        try:
            f()
        except runcmp.ERRORS as e:
            ctx.event("failing solves")
            return True

    if what == "steps":
        if quiet(m.setup) or any([quiet(m.step) for _ in range(40)]):
            return

        def unit():
            for _ in range(40):
                quiet(m.step)
    elif what in ("runs", "failing"):
        def unit():
            quiet(m.run)
    elif what == "setups":
        def unit():
            quiet(m.setup)
    elif what == "stepped runs":
        def unit():
            if m.dirty:
                quiet(m.setup)
            quiet(m.reset)
            for _ in range(g.nsteps):
                quiet(m.step)
    else:
        def unit():
            x = load()
            quiet(x.run)
    if long:
        K, scale = 1, 40
    else:
        K = scale = 12 if what == "models" else 25
    for _ in range(20 if not long else 0):
        unit()
    # caches of pandas and numpy still fill at up to about 200 bytes per run after the warm-up, so growth is confirmed in longer windows
    LIMIT = 100 if long else 160
    for attempt in range(3):
        b = [bytes_now()]
        for _ in range(3):
            for _ in range(K):
                unit()
            b.append(bytes_now())
        d = [y - x for x, y in zip(b, b[1:])]
        if min(d) / scale <= LIMIT or long:
            break
        K, scale = 2 * K, 2 * scale
        ctx.event("growth measured again")
    else:
        K, scale = K // 2, scale // 2
    ctx.event("leak measurements")
    ctx.event("leak:" + what)
    ctx.event("measured growth windows", 3)
    ctx.event("sanitized calls", 3 * scale * (1 if long else g.nsteps))
    ctx.key("leak", what, solver, sorted(args), len(doc["nodes"]))
    ctx.sample({"measured": what, "growth in bytes per %d" % scale: d, "solver": solver})
    per = min(d) / scale
    ctx.event("growth per unit: " + ("below 1" if per < 1 else "below 10" if per < 10 else "below 100" if per < 100 else f"{what} 100 and more: {10 * int(per / 10)}"))
    detail = {"parameters": sorted({str(p['type']) for p in doc['parameters'].values()}), "recorders": sorted({str(p['type']) for p in doc.get("recorders", {}).values()}),
              "nodes": sorted({n["type"] for n in doc["nodes"]})}
    if per > LIMIT:
        ctx.violation("leak:" + what, f"live memory grows with each of the {what}: {d} bytes in three windows of {scale} ({solver} {args})", detail)
    unreachable(ctx, what, solver, args)


def usable():
    """The leak check stops the process where it is not allowed to look at its own threads, so a child tries it."""
    pid = os.fork()
    if not pid:
        try:
            lib.__sanitizer_set_report_path(os.devnull.encode())
            lib.__lsan_do_recoverable_leak_check()
            os._exit(0)
        finally:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


LSAN = []
REPORTED = set()


def unreachable(ctx, what, solver, args):
    """No block that the compiled core or a solver library allocated is lost."""
    if not LSAN:
        LSAN.append(usable())
    if not LSAN[0]:
        ctx.event("leak check not available")
        return
    with tempfile.TemporaryDirectory(prefix="pv25-") as tmp:
        lib.__sanitizer_set_report_path(os.path.join(tmp, "r").encode())
        lib.__lsan_do_recoverable_leak_check()
        lib.__sanitizer_set_report_path(b"stderr")
        text = "".join(open(os.path.join(tmp, f), errors="replace").read() for f in os.listdir(tmp))
    ctx.event("searches for unreachable blocks")
    for block in re.split(r"\n(?=(?:Direct|Indirect) leak)", text):
        if not block.startswith(("Direct", "Indirect")):
            continue
        ctx.event("unreachable blocks")
        frames = [l for l in block.splitlines()[1:] if re.match(r"\s+#\d", l) and "libsanitizer" not in l and "libasan" not in l]
        if frames and re.search(r"__pyx|libglpk|liblpsolve", frames[0]):
            fn = re.search(r" in (\S+)", frames[0])
            sig = fn.group(1) if fn else frames[0].strip()
            if sig not in REPORTED:
                REPORTED.add(sig)
                ctx.violation("unreachable", f"memory allocated in {sig} is lost ({what}, {solver} {args}): {block.splitlines()[0]}", block[:2500])
