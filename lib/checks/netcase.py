"""Shared by P01-P03, P05, P06: run a random model under the monitor and pair its log with the reference network."""
from pv import gen, ref, trace

SOLVE = [("glpk", {}), ("glpk-edge", {}), ("glpk", {"use_unsafe_api": True}), ("glpk", {"set_fixed_flows_once": True, "set_fixed_costs_once": True,
         "set_fixed_factors_once": True}), ("glpk-edge", {"set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True}),
         ("glpk-edge", {"use_unsafe_api": True}), ("lpsolve", {})]


def make(ctx, **kw):
    r = ctx.rng.random()
    if ctx.thorough and r < .3:
        kw.setdefault("n_mid", (3, 14))
        kw.setdefault("n_sources", (2, 6))
        kw.setdefault("n_outputs", (2, 6))
        kw.setdefault("nsteps", (6, 30))
    solver, args = SOLVE[ctx.rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])]
    if solver == "lpsolve":
        kw["lpsafe"] = True
        kw["param_factors"] = 0
    if solver != "glpk-edge":
        kw.setdefault("inline", .1)
    kw.setdefault("deltas", {1: 6, 7: 2, 5: 1, 30: 1, "M": 1})
    g = gen.model_doc(ctx.rng, **kw)
    return g, solver, args


class Run:
    """A finished (or failed) monitored run with the reference alongside."""

    def __init__(self, ctx, doc, solver, args):
        self.doc, self.solver, self.args = doc, solver, args
        self.ref = ref.Ref(doc)
        self.net = ref.Net(self.ref)
        self.model, self.mon = trace.monitored(doc, solver, **args)
        self.error = None
        try:
            self.model.run()
        except RuntimeError as e:
            self.error = str(e)
        self.log = list(self.mon.log)
        self.ncomb = len(self.ref.combos)
        ctx.event("runs")
        ctx.event("solver:" + solver)
        for n in doc["nodes"]:
            ctx.event("type:" + n["type"].lower())
        ctx.key(solver, tuple(sorted(args)), len(doc["nodes"]), len(doc["edges"]), ",".join(sorted({n["type"].lower() for n in doc["nodes"]})))
        self.virt = {n["name"]: [ref.VirtualRef(self.ref, n, s) for s in range(self.ncomb)] for n in self.net.vs}
        self.hist = []

    def states(self):
        """Yields (t, entry, state) for each logged step, with delayed flows and the activity of virtual storages added."""
        for t, r in enumerate(self.log):
            st = {"vol": r["vol"], "pc": r["pc"], "delay": {}, "active": {}}
            self.more(t, st, r)
            yield t, r, st
            self.hist.append(r)
        # the step that failed, if any
        if self.error and len(self.log) < len(self.ref.steps) and hasattr(self.mon, "cur"):
            r = self.mon.cur
            st = {"vol": r["vol"], "pc": r["pc"], "delay": {}, "active": {}}
            self.more(len(self.log), st, r)
            yield len(self.log), None, st

    def more(self, t, st, r):
        for name in self.net.delays:
            n = self.ref.nodes[name]
            k = n.get("timesteps", 0) or int(n["days"] // self.doc["timestepper"]["timestep"])
            if t >= k:
                st["delay"][name] = self.log[t - k]["sub"][name, "out"]
            else:
                st["delay"][name] = [n.get("initial_flow", 0.0)] * self.ncomb
        for name, vs in self.virt.items():
            for v in vs:
                v.before(t, st)
            st["active"][name] = vs[0].active

    def feasible(self, t, s, st, slack=0.0):
        rows = [(a, b, lo - slack, hi + slack) for a, b, lo, hi in self.net.bounds(t, s, st)]
        status, _, _ = self.net.solve([0.0] * self.net.ne, rows)
        return status == 0

    def net_flows(self, r, s):
        """Reported flows of step r for combination s: net flow for storages."""
        out = {}
        for name in list(self.net.report) + list(self.net.stores):
            out[name] = float(r["flow"][name][s])
        return out
