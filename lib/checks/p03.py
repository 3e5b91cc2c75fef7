"""P03 least-cost allocation."""
import numpy as np

from checks.netcase import Run, make

META = {"n": [800, 9000], "budget": [60, 600], "min_events": {"steps": 3000, "nontrivial optimum": 1500},
        "rule": "a distinct run is a (solver, options, number of nodes, number of edges, set of node types) combination",
        "assumptions": ["the optimum of each step is computed by HiGHS from the model document and the observed volumes",
                        "cost tolerance 1e-4 relative"]}


def case(ctx):
    g, solver, args = make(ctx, vneg=ctx.rng.choice([0, 0, .3]))
    run = Run(ctx, g.doc, solver, args)
    ctx.sample(dict(solver=solver, args=args, nodes=[n["type"] for n in g.doc["nodes"]], steps=len(run.log), scenarios=run.ncomb))
    net = run.net
    for t, r, st in run.states():
        if r is None:
            ctx.event("failed runs")
            if all(run.feasible(t, s, st) for s in range(run.ncomb)):
                ctx.violation("feasible-step-failed", f"step {t} failed but every combination has a feasible allocation: {run.error}", g.doc)
            break
        for s in range(run.ncomb):
            flows = run.net_flows(r, s)
            scale = max([1.0] + [abs(v) for v in flows.values()])
            tol = 1e-5 * scale
            rows = list(net.bounds(t, s, st))
            c = net.costs(t, s, st)
            st1, best, x = net.solve(c, rows)
            ctx.event("steps")
            if st1 == 2:
                # borderline cases: give the reference the tolerance that the solver has
                rows = [(a, b, lo - tol, hi + tol) for a, b, lo, hi in rows]
                st1, best, x = net.solve(c, rows)
                if st1 == 2:
                    ctx.violation("infeasible-step-solved", f"step {t} combination {s} has no feasible allocation but was solved: {flows}", g.doc)
                    return
            if st1 != 0:
                ctx.event("reference status %s" % st1)
                continue
            relaxed = [(a, b, lo - tol, hi + tol) for a, b, lo, hi in rows]
            st2, got, _ = net.solve(c, relaxed, net.fix(flows, tol))
            if st2 == 2:
                ctx.event("limits exceeded (see P02)")
                continue
            if st2 != 0:
                ctx.event("reference status %s" % st2)
                continue
            ctx.event("asserted")
            if abs(best) > 1e-6:
                ctx.event("nontrivial optimum")
            if got > best + 1e-4 * (1 + abs(best)) + 3 * tol * float(np.abs(c).sum()):
                ctx.violation("not-least-cost", f"step {t} combination {s}: the allocation costs {got}, the least-cost one {best}; flows {flows}", g.doc)
                return
