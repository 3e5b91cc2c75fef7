"""P01 water conservation."""
from checks.netcase import Run, make

META = {"n": [1200, 12000], "budget": [45, 600], "min_events": {"steps": 500, "type:storage": 50, "type:losslink": 5, "type:delaynode": 5},
        "rule": "a distinct run is a (solver, options, number of nodes, number of edges, set of node types) combination",
        "assumptions": ["tolerance 1e-5 of the flow scale", "HiGHS decides whether non-negative connection amounts reproduce the reported flows"]}


def case(ctx):
    g, solver, args = make(ctx)
    run = Run(ctx, g.doc, solver, args)
    if run.error:
        ctx.event("failed runs")
    ctx.sample(dict(solver=solver, args=args, nodes=[n["type"] for n in g.doc["nodes"]], steps=len(run.log), scenarios=run.ncomb))
    for t, r in enumerate(run.log):
        for s in range(run.ncomb):
            ctx.event("steps")
            flows = run.net_flows(r, s)
            scale = max([1.0] + [abs(v) for v in flows.values()])
            tol = 1e-5 * scale
            for k, v in flows.items():
                if k in run.net.report and not v >= -tol:
                    ctx.violation("negative-flow", f"step {t} combination {s}: node {k} reports flow {v}", g.doc)
            for (k, part), v in r["sub"].items():
                if not v[s] >= -tol:
                    ctx.violation("negative-flow", f"step {t} combination {s}: {k}/{part} reports flow {v[s]}", g.doc)
            sub = {kp: float(v[s]) for kp, v in r["sub"].items() if kp in run.net.parts}
            for name, (o, i) in run.net.stores.items():
                # flows of the individual connections of a storage
                tot = sum(float(r["sub"][name, f"in{j}"][s]) for j in range(len(o))) - sum(float(r["sub"][name, f"out{j}"][s]) for j in range(len(i)))
                if abs(tot - flows[name]) > tol:
                    ctx.violation("storage-net", f"step {t} combination {s}: {name} reports net flow {flows[name]}, its connections carry {tot}", g.doc)
                for j, e in enumerate(o):
                    run.net.parts[name, f"in{j}"] = e
                    sub[name, f"in{j}"] = float(r["sub"][name, f"in{j}"][s])
                for j, e in enumerate(i):
                    run.net.parts[name, f"out{j}"] = e
                    sub[name, f"out{j}"] = float(r["sub"][name, f"out{j}"][s])
                v0, v1 = r["vol"][name][s], r["vol1"][name][s]
                ctx.event("storage steps")
                if abs(v1 - v0 - flows[name] * r["days"]) > 1e-5 * max(1.0, abs(v0), abs(v1)) * max(1.0, r["days"]):
                    ctx.violation("storage-balance", f"step {t} combination {s}: {name} went from {v0} to {v1} with net flow {flows[name]} over {r['days']} days", g.doc)
            for name, (o, i) in run.net.delays.items():
                run.net.parts[name, "out"] = o
                sub[name, "out"] = float(r["sub"][name, "out"][s])
            # existence of connection amounts (network ratios and losses are P02/P17; unit conversion belongs here)
            fixed = run.net.fix({**flows, **sub}, tol)
            status, _, _ = run.net.solve([0.0] * run.net.ne, (), fixed)
            ctx.event("asserted")
            if status == 2:
                ctx.violation("conservation", f"step {t} combination {s}: no routing of water reproduces the reported flows {flows}", g.doc)
                return
