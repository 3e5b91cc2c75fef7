"""P10: every component is evaluated once per step after everything it depends on; declaration order does not matter."""
import copy
import random

import numpy as np

from pywr.model import Model, ModelStructureError
from pywr.nodes import Input, Output
from pywr.parameters import (AggregatedParameter, ConstantParameter, DivisionParameter, MaxParameter, MinParameter, NegativeParameter, OffsetParameter,
                             Parameter, load_parameter)
from pywr.parameters import IndexParameter
from pywr.recorders import NumpyArrayParameterRecorder, Recorder
from pv import trace
from . import runcmp

META = {
    "n": [2400, 24000], "budget": [70, 700],
    "min_events": {"probe evaluations": 5000, "stale checks": 5000, "order checks": 5000, "permutations": 100, "cycles": 50, "consumers": 1000},
    "rule": "distinct: mode, number of components and edges of the dependency graph, kinds of parameters",
    "assumptions": ["stale checks recompute a parameter's value from its dependencies after all of them were evaluated, just before the allocation; parameters without a pure value() are skipped"],
}


class Log:
    def __init__(self):
        self.step = {}
        self.fail = []
        self.n = 0


class Probe(Parameter):
    """A parameter with the given children: its value is step-coded and it watches its children's values."""

    def __init__(self, model, log, seed, **kw):
        super().__init__(model, **kw)
        self.log, self.seed = log, seed
        self.kids = []
        self.calls = {}

    def depend(self, *kids):
        for k in kids:
            self.kids.append(k)
            self.children.add(k)

    def expected(self, t, s):
        return 1000.0 * t + 10 * s + self.seed + sum(expected(k, t, s) for k in self.kids) / 2

    def before(self):
        self.log.step.setdefault(("before", self), []).append(self.model.timestepper.current.index)

    def after(self):
        self.log.step.setdefault(("after", self), []).append(self.model.timestepper.current.index)

    def value(self, ts, si):
        key = ts.index, si.global_id
        self.calls[key] = self.calls.get(key, 0) + 1
        self.log.n += 1
        v = 1000.0 * ts.index + 10 * si.global_id + self.seed
        for k in self.kids:
            x = k.get_value(si)
            want = expected(k, ts.index, si.global_id)
            if abs(x - want) > 1e-6 * max(1, abs(want)):
                self.log.fail.append(f"{self.name} read {x} from {k.name} in step {ts.index}, scenario {si.global_id}; its value is {want}")
            v += x / 2
        return v


def expected(p, t, s):
    f = getattr(p, "expected", None)
    if f:
        return f(t, s)
    return FORM[p](t, s)


FORM = {}


class RecProbe(Recorder):
    """A recorder whose dependencies must have been updated before it."""

    def __init__(self, model, log, **kw):
        super().__init__(model, **kw)
        self.log = log
        self.kids = []
        self.done = -1

    def depend(self, *kids):
        for k in kids:
            self.kids.append(k)
            self.children.add(k)

    def reset(self):
        self.done = -1

    def before(self):
        self.log.step.setdefault(("before", self), []).append(self.model.timestepper.current.index)

    def after(self):
        t = self.model.timestepper.current.index
        self.log.step.setdefault(("after", self), []).append(t)
        for k in self.kids:
            if isinstance(k, RecProbe):
                self.log.n += 1
                if k.done != t:
                    self.log.fail.append(f"{self.name} updated in step {t} before {k.name}, on which it depends")
            elif isinstance(k, Parameter) and k in FORM or isinstance(k, Probe):
                for si in self.model.scenarios.combinations:
                    self.log.n += 1
                    x, want = k.get_value(si), expected(k, t, si.global_id)
                    if abs(x - want) > 1e-6 * max(1, abs(want)):
                        self.log.fail.append(f"{self.name} read {x} from {k.name} after step {t}; its value is {want}")
        self.done = t


def nm(rng, used):
    while True:
        n = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABC_09") for _ in range(rng.randint(2, 6)))
        if n not in used:
            used.add(n)
            return n


def probes(ctx):
    """A random dependency graph of probes, built-in parameters and recorders, with dependencies added in random order."""
    rng = ctx.rng
    FORM.clear()
    log = Log()
    m = Model(solver="glpk")
    m.timestepper.start, m.timestepper.end = "2015-01-01", "2015-01-%02d" % rng.randint(3, 8)
    from pywr.core import Scenario
    for i in range(rng.randint(0, 2)):
        Scenario(m, f"s{i}", size=rng.randint(2, 3))
    used = {"i", "o", "s0", "s1"}
    n = rng.randint(3, 14 if not ctx.thorough else 30)
    comps, late = [], []

    def some(k):
        return rng.sample(comps, min(len(comps), k))

    for _ in range(n):
        r = rng.random()
        if not comps or r < .5:
            p = Probe(m, log, rng.randrange(100), name=nm(rng, used))
            late.append((p, some(rng.randint(0, 3))))
        else:
            a, b = rng.choice(comps), rng.choice(comps)
            k = rng.choice(["sum", "max", "neg", "off", "min", "div", "maxp", "minp"])
            name = nm(rng, used)
            if k in ("sum", "max", "min"):
                ps = some(rng.randint(1, 4))
                p = AggregatedParameter(m, ps, agg_func=k, name=name)
                f = {"sum": sum, "max": max, "min": min}[k]
                FORM[p] = lambda t, s, ps=ps, f=f: f([expected(q, t, s) for q in ps])
            elif k == "neg":
                p = NegativeParameter(m, a, name=name)
                FORM[p] = lambda t, s, a=a: -expected(a, t, s)
            elif k == "off":
                p = OffsetParameter(m, a, offset=3.5, name=name)
                FORM[p] = lambda t, s, a=a: expected(a, t, s) + 3.5
            elif k == "maxp":
                p = MaxParameter(m, a, threshold=2500.0, name=name)
                FORM[p] = lambda t, s, a=a: max(expected(a, t, s), 2500.0)
            elif k == "minp":
                p = MinParameter(m, a, threshold=2500.0, name=name)
                FORM[p] = lambda t, s, a=a: min(expected(a, t, s), 2500.0)
            else:
                d = ConstantParameter(m, rng.uniform(1, 9), name=nm(rng, used))
                p = DivisionParameter(m, a, d, name=name)
                FORM[p] = lambda t, s, a=a, d=d: expected(a, t, s) / d.get_constant_value()
        comps.append(p)
    recs = []
    for _ in range(rng.randint(1, 5)):
        q = RecProbe(m, log, name=nm(rng, used))
        late.append((q, some(rng.randint(0, 3)) + rng.sample(recs, min(len(recs), rng.randint(0, 2)))))
        recs.append(q)
    rng.shuffle(late)
    for p, ks in late:
        p.depend(*ks)
    # dependencies may also be declared from the other side
    edges = {(k, p) for p in comps + recs for k in getattr(p, "kids", [])}
    i, o = Input(m, "i", max_flow=1e9), Output(m, "o", max_flow=rng.choice(comps), cost=-10)
    i.connect(o)
    which = o.max_flow
    watched = rng.choice(comps)
    final = NumpyArrayParameterRecorder(m, watched, name="pv-final")
    return m, log, comps, recs, edges, o, which, final, watched


def verify(ctx, m, log, comps, recs, edges, o, which, final, watched):
    T, S = len(m.timestepper), len(m.scenarios.combinations)
    ctx.event("probe evaluations", log.n)
    for f in log.fail[:3]:
        ctx.violation("stale-read", f)
    for p in comps:
        if isinstance(p, Probe):
            ctx.event("order checks", T)
            for t in range(T):
                for s in range(S):
                    c = p.calls.get((t, s), 0)
                    if c != 1:
                        ctx.violation("evaluations", f"{p.name} was evaluated {c} times in step {t}, scenario {s}")
                        return
    for p in comps + recs:
        if isinstance(p, (Probe, RecProbe)):
            for what in ("before", "after"):
                got = log.step.get((what, p), [])
                ctx.check(got == list(range(T)), "updates", lambda: f"{what}() of {p.name} was called at steps {got}, expected each of {T} once")
    want = [[expected(watched, t, s) for s in range(S)] for t in range(T)]
    ctx.close(np.array(final.data), want, "consumer", f"recorded values of {watched.name}")
    ctx.event("consumers", T * S)


class Flow(Recorder):
    """The solver used the value the parameter has in this step."""

    def __init__(self, model, node, par, out):
        super().__init__(model, name="pv-flow")
        self.node, self.par, self.out = node, par, out

    def after(self):
        t = self.model.timestepper.current.index
        for si in self.model.scenarios.combinations:
            w = expected(self.par, t, si.global_id)
            w2 = self.node.get_max_flow(si)
            x = self.node.flow[si.global_id]
            if abs(w2 - w) > 1e-6 * max(1, abs(w)):
                self.out.append(f"the node's max_flow is {w2} at step {t}, the parameter's value {w}")
            if 0 <= w < 1e8 and abs(x - w) > 1e-6 * max(1, abs(w)):
                self.out.append(f"the solver allowed {x} at step {t}, the parameter's value is {w}")


def case(ctx):
    r = ctx.i % 4
    if r == 0:
        x = probes(ctx)
        m, log = x[0], x[1]
        out = []
        Flow(m, x[5], x[6], out)
        rec = x[7]
        ctx.key("probes", len(x[2]), len(x[3]), len(x[4]))
        try:
            m.run()
        except runcmp.ERRORS as e:  # a negative limit
            if not negative(x, m):
                raise
            ctx.event("negative limits")
            for f in log.fail[:3]:
                ctx.violation("stale-read", f)
            return
        verify(ctx, *x)
        for f in out[:2]:
            ctx.violation("consumer", f)
        # dependencies may change between runs
        if ctx.rng.random() < .4:
            change(ctx, x)
    elif r == 1:
        stale(ctx)
    elif r == 2:
        permute(ctx)
    else:
        cycle(ctx)


def negative(x, m):
    S = len(m.scenarios.combinations)
    return any(expected(x[6], t, s) < 0 for t in range(len(m.timestepper)) for s in range(S))


def change(ctx, x):
    rng = ctx.rng
    m, log, comps, recs = x[0], x[1], x[2], x[3]
    ctx.event("changed dependencies")
    ps = [p for p in comps if isinstance(p, Probe)]
    for p in ps:
        p.calls.clear()
    log.step.clear()
    log.n, log.fail[:] = 0, []
    new = Probe(m, log, 7, name="pv-new")
    rng.choice(ps).depend(new)
    m.setup()
    try:
        m.run()
    except runcmp.ERRORS:
        return
    verify(ctx, m, log, comps + [new], recs, None, x[5], x[6], x[7], x[8])


def hooked(model, ctx, T):
    """Recomputes every parameter after all were evaluated, just before each allocation."""
    orig = model.solve
    bad = []

    def solve():
        ts = model.timestepper.current
        for p in list(model.component_graph.nodes()):
            if not isinstance(p, Parameter):
                continue
            for si in model.scenarios.combinations:
                try:
                    a, b = p.value(ts, si), p.get_value(si)
                except NotImplementedError:
                    break
                ctx.counters["stale checks"] += 1
                if not np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) and len(bad) < 3:
                    bad.append((type(p).__name__, f"{type(p).__name__} {p.name} has value {b} in step {ts.index}, scenario {si.global_id}; from its dependencies it is {a}"))
                if isinstance(p, IndexParameter) and type(p).__name__ != "AggregatedIndexParameter":
                    try:
                        a, b = p.index(ts, si), p.get_index(si)
                    except NotImplementedError:
                        break
                    if a != b and len(bad) < 3:
                        bad.append((type(p).__name__, f"index of {type(p).__name__} {p.name} is {b} in step {ts.index}; from its dependencies it is {a}"))
        return orig()

    model.solve = solve
    return bad


def stale(ctx):
    g, r, solver, args = runcmp.richcase(ctx, params=(4, 14), recs=(0, 2), minflow=0, virtual=(0, 1), agg=(0, 0))
    scramble(ctx, g.doc)
    m, mon = trace.monitored(g.doc, solver, **args)
    bad = hooked(m, ctx, g.nsteps)
    ctx.event("stale runs")
    ctx.key("stale", sorted(str(p["type"]).lower() for p in g.doc["parameters"].values()))
    try:
        m.run()
    except runcmp.ERRORS:
        pass
    for k, b in bad:
        ctx.violation("stale:" + k, b)


def scramble(ctx, doc):
    """New names and a new order for all parameters and recorders; returns old name -> new name."""
    rng = ctx.rng
    used = {n["name"] for n in doc["nodes"]} | {s["name"] for s in doc.get("scenarios", [])}
    ren = {n: nm(rng, used) for sec in ("parameters", "recorders") for n in doc.get(sec, {})}
    keys = {"parameter", "index_parameter", "recorder", "event_recorder", "profile", "numerator", "denominator", "threshold", "target", "max_flow", "min_flow", "cost",
            "flow", "max_volume", "min_volume", "mrf", "mrf_cost", "loss_factor", "water_elevation_parameter", "control_curve", "level", "storage_parameter"}
    lists = {"parameters", "params", "control_curves", "thresholds", "recorders", "max_flows", "costs", "factors"}

    def sub(p):
        if isinstance(p, dict):
            for k, v in p.items():
                if isinstance(v, str) and k in keys and v in ren:
                    p[k] = ren[v]
                elif isinstance(v, list) and k in lists:
                    p[k] = [ren.get(x, x) if isinstance(x, str) else sub(x) for x in v]
                elif isinstance(v, (dict, list)):
                    sub(v)
        elif isinstance(p, list):
            for v in p:
                sub(v)
        return p

    for sec in ("parameters", "recorders"):
        if sec in doc:
            sub(list(doc[sec].values()))
            items = [(ren[k], v) for k, v in doc[sec].items()]
            rng.shuffle(items)
            doc[sec] = dict(items)
    sub(doc["nodes"])
    return ren


def permute(ctx):
    g, r, solver, args = runcmp.richcase(ctx, params=(3, 12), recs=(2, 7), minflow=0)
    runcmp.generic(ctx, g.doc)
    doc2 = copy.deepcopy(g.doc)
    ren = scramble(ctx, doc2)
    ctx.event("permutations")
    ctx.key("permute", len(ren), sorted(str(p["type"]).lower() for p in g.doc["parameters"].values()))
    A = runcmp.run(*trace.monitored(g.doc, solver, params=True, costs=True, **args))
    B = runcmp.run(*trace.monitored(doc2, solver, params=True, costs=True, **args))
    f = lambda n: ren.get(n, n)
    what = "the same components declared with other names in another order"
    res = runcmp.logs(ctx, A, B, "order-differs", what, ren=f)
    ctx.event("permute:" + res)
    if res == "same" and A.error is None:
        runcmp.recorders(ctx, A, B, "order-differs-recorder", what, ren=f)


def cycle(ctx):
    """Circular dependencies are reported, by name references in a document and through the API; acyclic ones are not."""
    rng = ctx.rng
    ctx.event("cycles")
    n = rng.randint(1, 6)
    used = {"i", "o"}
    names = [nm(rng, used) for _ in range(n + rng.randint(0, 3))]
    loop = names[:n]
    cyc = rng.random() < .75
    if rng.random() < .5:
        pars = {}
        for k, a in enumerate(loop):
            b = loop[(k + 1) % n]
            if k == n - 1 and not cyc:
                pars[a] = {"type": "constant", "value": 2.0}
                continue
            pars[a] = rng.choice([{"type": "aggregated", "agg_func": "sum", "parameters": [b, {"type": "constant", "value": 1.0}]}, {"type": "max", "parameter": b},
                                  {"type": "negative", "parameter": b}])
        for a in names[n:]:
            pars[a] = {"type": "aggregated", "agg_func": "sum", "parameters": [rng.choice(names[:names.index(a)])]}
        items = list(pars.items())
        rng.shuffle(items)
        doc = {"metadata": {"title": "x"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-03", "timestep": 1}, "parameters": dict(items),
               "nodes": [{"name": "i", "type": "input", "max_flow": 5.0}, {"name": "o", "type": "output", "max_flow": 3.0, "cost": rng.choice(loop) if rng.random() < .5 else -1.0}],
               "edges": [["i", "o"]]}
        ctx.key("cycle", "document", n, cyc)
        expect(ctx, cyc, lambda: trace.load(doc, "glpk").run(), f"document with a loop of {n} parameters" if cyc else f"document with a chain of {n} parameters")
    else:
        m = Model(solver="glpk")
        m.timestepper.start, m.timestepper.end = "2015-01-01", "2015-01-03"
        i, o = Input(m, "i", max_flow=5), Output(m, "o", max_flow=3, cost=-1)
        i.connect(o)
        log = Log()
        ps = [Probe(m, log, 1, name=a) if rng.random() < .7 else RecProbe(m, log, name=a) for a in names]
        ctx.key("cycle", "api", n, cyc)
        es = [(k, (k + 1) % n) for k in range(n if cyc else n - 1)]
        rng.shuffle(es)
        late = rng.random() < .4
        if late:
            m.run()
        for a, b in es:
            if rng.random() < .5:
                ps[a].children.add(ps[b])
            else:
                ps[b].parents.add(ps[a])
        if late:
            m.setup_ = None
            expect(ctx, cyc, m.setup, f"loop of {n} components made after a run" if cyc else "chain made after a run")
        else:
            expect(ctx, cyc, m.run, f"loop of {n} components" if cyc else f"chain of {n} components")


def expect(ctx, cyc, f, what):
    try:
        f()
    except RecursionError as e:
        ctx.violation("cycle-crash", f"{what}: {e}")
    except Exception as e:
        if not cyc:
            ctx.violation("cycle", f"{what}: raises {type(e).__name__}: {e}")
        else:
            ctx.event("cycle:" + type(e).__name__)
    else:
        if cyc:
            ctx.violation("cycle", f"{what} is accepted without an error")
