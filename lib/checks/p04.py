"""P04: every solver and every option setting gives the same allocations."""
import copy
import os

import numpy as np

from pywr.model import Model, ModelStructureError
from pv import trace
from . import netcase, runcmp

META = {
    "n": [1400, 16000], "budget": [80, 750],
    "min_events": {"pairs compared": 500, "route flows": 2000, "glpk-edge": 100, "lpsolve": 60, "refusals": 20, "environment": 10},
    "rule": "distinct: pair of solver settings and the node types and sizes of the network",
    "assumptions": ["costs are made generic so that most allocations are unique; where flows differ at equal total cost the pair is compared up to that step",
                    "a parameter that switches because of a rounding difference below 1e-6 between solvers ends the comparison of the pair"],
}
ENV = {"set_fixed_flows_once": "PYWR_SOLVER_GLPK_FIXED_FLOWS_ONCE", "set_fixed_costs_once": "PYWR_SOLVER_GLPK_FIXED_COSTS_ONCE",
       "set_fixed_factors_once": "PYWR_SOLVER_GLPK_FIXED_FACTORS_ONCE", "use_unsafe_api": "PYWR_SOLVER_GLPK_UNSAFE_API"}


def case(ctx):
    rng = ctx.rng
    lp = rng.random() < .5
    kw = dict(inline=.05, minflow=rng.choice([0, 0, .3]))
    if lp:
        kw.update(lpsafe=True, param_factors=0, inline=0)
    if rng.random() < .5:
        g, r, solver, args = runcmp.richcase(ctx, params=(0, 4), recs=(0, 0), skip=("hydropowertarget",), **kw)
    else:
        g, solver, args = netcase.make(ctx, **kw)
    doc = g.doc
    runcmp.generic(ctx, doc)
    if rng.random() < .6:
        constants(ctx, doc)
    inline = any(n["name"].endswith("dis") for n in doc["nodes"])
    settings = [("glpk", {}), ("glpk", {"use_unsafe_api": True}),
                ("glpk", {k: True for k in rng.sample(sorted(ENV), rng.randint(1, 4))})]
    if not inline:
        settings += [("glpk-edge", {}), ("glpk-edge", {k: True for k in rng.sample(sorted(ENV), rng.randint(1, 4))})]
    if lp:
        settings += [("lpsolve", {})]
    rng.shuffle(settings)
    settings = settings[:4]
    runs = []
    for s, a in settings:
        a = dict(a)
        if s != "glpk-edge" and rng.random() < .4:
            a["save_routes_flows"] = True
        if s != "lpsolve" and rng.random() < .2:
            a["retry_solve"] = True
        m, mon = build(ctx, doc, s, a)
        watch = Routes(m, ctx) if s != "glpk-edge" else None
        d = runcmp.run(m, mon)
        ctx.event(s)
        if rng.random() < .2:
            d = runcmp.run(m, mon)
            ctx.event("second run")
        runs.append((s, a, d))
    s0, a0, A = runs[0]
    for s, a, B in runs[1:]:
        ctx.event("pairs compared")
        ctx.key(s0, sorted(a0), s, sorted(a), len(doc["nodes"]), sorted({n["type"].lower() for n in doc["nodes"]}))
        what = f"{s0} {a0} and {s} {a}"
        res = runcmp.logs(ctx, A, B, "solvers-differ", what, rtol=1e-5, atol=2e-5, soft=("par", "idx", "active"), exact=runcmp.stateless(doc))
        ctx.event("pair:" + res)
    ctx.sample({"settings": [(s, a) for s, a, _ in runs], "nodes": len(doc["nodes"]), "steps": len(A.log), "error": A.error})
    if rng.random() < .3:
        refusals(ctx, lp)


def constants(ctx, doc):
    """Some of the numbers become constant parameters."""
    rng = ctx.rng
    for n in doc["nodes"]:
        if n["type"].lower() in ("input", "output", "link", "river", "catchment", "losslink", "breaklink", "rivergauge", "storage"):
            for k in ("max_flow", "min_flow", "cost", "mrf", "mrf_cost", "flow"):
                if isinstance(n.get(k), (int, float)) and rng.random() < .5:
                    n[k] = {"type": "constant", "value": n[k]}
                    ctx.counters["constant parameters"] += 1
                elif isinstance(n.get(k), dict) and n[k].get("type") == "constant" and rng.random() < .5:
                    n[k] = n[k]["value"]
            if n["type"].lower() in ("input", "output", "link") and "min_flow" in n and not isinstance(n.get("max_flow"), (int, float)) and rng.random() < .5:
                n["max_flow"] = 45.0


def build(ctx, doc, s, a):
    """The options reach the solver by argument, by the model document or by the environment."""
    rng = ctx.rng
    how = rng.choice(["args", "args", "document", "environment"])
    if s == "lpsolve" and how == "environment":
        how = "args"
    if how == "args":
        m, mon = trace.monitored(doc, s, params=True, costs=True, **a)
    elif how == "document":
        ctx.event("document")
        doc = copy.deepcopy(doc)
        doc["solver"] = dict(name=s, **a)
        m, mon = trace.monitored(doc, None, params=True, costs=True)
    else:
        ctx.event("environment")
        env = {ENV[k]: "1" for k in a if k in ENV}
        env["PYWR_SOLVER"] = s
        os.environ.update(env)
        try:
            m, mon = trace.monitored(doc, None, params=True, costs=True, **{k: v for k, v in a.items() if k not in ENV})
        finally:
            for k in env:
                os.environ.pop(k)
    ctx.check(m.solver.name == s, "solver-selection", f"asked for {s} through {how}, got {m.solver.name}")
    if not (how == "environment" and "save_routes_flows" in a):
        for k in a:
            ctx.check(getattr(m.solver, k) == a[k], "solver-option", f"{s}: option {k}={a[k]} given through {how} is {getattr(m.solver, k)}")
    return m, mon


class Routes(trace.Recorder):
    """Route flows, when saved, add up to the flows of the nodes on the routes."""

    def __init__(self, model, ctx):
        super().__init__(model, name="pv-routes")
        self.ctx = ctx

    def after(self):
        s = self.model.solver
        if not s.save_routes_flows:
            return
        arr = np.array(s.routes_flows_array)
        ctx = self.ctx
        tot = {}
        for j, route in enumerate(s.routes):
            for k, node in enumerate(route):
                if k and isinstance(node, trace.BaseInput):
                    continue  # water passing an input is not its own flow
                if node in tot:
                    tot[node] = tot[node] + arr[:, j]
                else:
                    tot[node] = arr[:, j]
        for node, f in tot.items():
            if isinstance(node, (trace.BaseInput, trace.BaseOutput, trace.BaseLink)) and node is not None:
                ctx.event("route flows")
                x = np.array(node.flow)
                if not np.isclose(f, x, rtol=1e-6, atol=1e-5).all():
                    ctx.violation("route-flows", f"routes through {node} add up to {f.tolist()}, node flow {x.tolist()}")
                    return


def refusals(ctx, lp):
    from pywr.nodes import AggregatedNode, Input, Link, Output
    from pywr.parameters import ConstantParameter
    rng = ctx.rng
    ctx.event("refusals")
    kind = rng.choice(["inline", "factors"])
    m = Model(solver="glpk-edge" if kind == "inline" else "lpsolve")
    a, b, c = Input(m, "a", max_flow=5), Output(m, "c", max_flow=10, cost=-1), None
    if kind == "inline":
        i = Input(m, "b", max_flow=3)
        a.connect(i)
        i.connect(b)
        try:
            m.run()
        except ModelStructureError:
            return
        except Exception as e:
            ctx.violation("refusal", f"glpk-edge reports an inline input with {type(e).__name__}: {e}")
            return
        ctx.check(abs(b.flow[0] - 8) < 1e-6, "refusal", f"glpk-edge accepts an inline input and gives {b.flow[0]} instead of 8")
    else:
        d = Output(m, "d", max_flow=10, cost=-1)
        a.connect(b)
        a.connect(d)
        AggregatedNode(m, "g", [b, d]).factors = [1.0, ConstantParameter(m, 2.0)]
        try:
            m.run()
        except (ValueError, NotImplementedError, TypeError):
            return
        ctx.check(abs(d.flow[0] - 2 * b.flow[0]) < 1e-6, "refusal", f"lpsolve ignores parameter factors: {b.flow[0]}, {d.flow[0]}")
