"""P02 limits."""
from checks.netcase import Run, make

META = {"n": [900, 9000], "budget": [60, 600], "min_events": {"limit:node": 3000, "limit:storage": 1000, "limit:aggregate": 200, "limit:ratio": 100, "limit:virtual": 300,
                                                              "binding": 500},
        "rule": "a distinct run is a (solver, options, number of nodes, number of edges, set of node types) combination",
        "assumptions": ["limits are re-evaluated from the model document with the observed volumes", "tolerance 1e-5 of the flow scale"]}


def compound_members(ctx):
    """Known finding: the limit of a group does not restrict members that are compound nodes."""
    from pywr.core import Model, Input, Output
    from pywr.nodes import AggregatedNode, VirtualStorage, PiecewiseLink, LossLink, DelayNode, BreakLink
    makers = {"PiecewiseLink": lambda m: PiecewiseLink(m, name="c", nsteps=2, costs=[1.0, 2.0], max_flows=[5.0, None]),
              "LossLink": lambda m: LossLink(m, "c", loss_factor=0.1),
              "DelayNode": lambda m: DelayNode(m, "c", timesteps=1, initial_flow=10.0),
              "BreakLink": lambda m: BreakLink(m, "c", max_flow=20.0)}
    for k, make_node in makers.items():
        for group in ("AggregatedNode", "VirtualStorage"):
            for solver in ("glpk", "glpk-edge", "lpsolve"):
                m = Model(start="2015-01-01", end="2015-01-03", solver=solver)
                i, o = Input(m, "i", max_flow=10.0), Output(m, "o", max_flow=10.0, cost=-10.0)
                c = make_node(m)
                i.connect(c)
                c.connect(o)
                try:
                    if group == "VirtualStorage":
                        VirtualStorage(m, "g", nodes=[c], max_volume=8.0, initial_volume=8.0)
                        lim = 8.0
                    else:
                        AggregatedNode(m, "g", [c]).max_flow = 4.0
                        lim = 4.0
                    tot = worst = 0.0
                    while m.timestepper.current is None or m.timestepper.current.index < 2:
                        m.step()
                        tot += c.flow[0]
                        worst = max(worst, c.flow[0])
                except Exception:
                    continue  # refused: nothing unlimited is reported
                ctx.event("compound members")
                if (tot if group == "VirtualStorage" else worst) > lim + 1e-6:
                    ctx.violation(f"compound member {k} of {group}", f"{solver}: the flow of a {k} in a {group} is limited to {lim}, it was {worst} per day and {tot} in all", None)
                    break


def case(ctx):
    if ctx.i == 0:
        return compound_members(ctx)
    g, solver, args = make(ctx, minflow=.2, agg=(0, 3), virtual=(0, 3), agg_factors=.5, vneg=ctx.rng.choice([0, 0, .3]))
    run = Run(ctx, g.doc, solver, args)
    ctx.sample(dict(solver=solver, args=args, nodes=[n["type"] for n in g.doc["nodes"]], steps=len(run.log), scenarios=run.ncomb))
    for t, r, st in run.states():
        if r is None:
            ctx.event("failed runs")
            break
        for s in range(run.ncomb):
            step(ctx, run, t, r, st, s)
            if ctx.violations:
                return


def step(ctx, run, t, r, st, s):
    ref, net, doc = run.ref, run.net, run.doc
    flows = run.net_flows(r, s)
    scale = max([1.0] + [abs(v) for v in flows.values()])
    tol = 1e-5 * scale
    rows = []

    def lim(kind, name, x, lo, hi, tol=tol):
        ctx.event("limit:" + kind)
        if lo < hi and (abs(x - lo) <= tol and lo > 0 or abs(x - hi) <= tol):
            ctx.event("binding")
        if not (lo - tol <= x <= hi + tol):
            ctx.violation("limit-" + kind, f"step {t} combination {s}: {kind} {name}: {x} not within [{lo}, {hi}]", doc)

    for (kind, name), row, lo, hi in net.bounds(t, s, st):
        rows.append(((kind, name), row, lo - tol, hi + tol))
        if kind == "node" and name in flows:
            lim("node", name, flows[name], lo, hi)
        elif kind == "storage":
            lim("storage", name, flows[name], lo, hi)
        elif kind == "virtual":
            n = ref.nodes[name]
            f = n.get("factors") or [1.0] * len(n["nodes"])
            lim("virtual", name, -sum(a * flows[m] for a, m in zip(f, n["nodes"])), lo, hi, tol * (1 + sum(abs(a) for a in f)))
        elif kind == "aggregate":
            n = ref.nodes[name]
            w = n.get("flow_weights") or [1.0] * len(n["nodes"])
            x = sum(a * flows[m] for a, m in zip(w, n["nodes"]))
            lim("aggregate", name, x, lo, hi, tol * (1 + sum(w)))
            if abs(float(r["flow"][name][s]) - x) > tol * (1 + sum(w)):
                ctx.violation("aggregate-report", f"step {t} combination {s}: {name} reports {r['flow'][name][s]}, members sum to {x}", doc)
            if n.get("factors"):
                fs = [ref.val(x, t, s, st) for x in n["factors"]]
                for m, x in list(zip(n["nodes"], fs))[1:]:
                    k = 1 / fs[0] + 1 / x
                    lim("ratio", name, flows[n["nodes"][0]] / fs[0] - flows[m] / x, 0.0, 0.0, tol * k)
    for n in doc["nodes"]:
        k = n["type"].lower()
        sub = r["sub"]
        if k in ("storage", "reservoir"):
            mx, mn = ref.val(n["max_volume"], t, s, st), ref.get(n, "min_volume", t, s, st, 0.0)
            v0, v1 = r["vol"][n["name"]][s], r["vol1"][n["name"]][s]
            d = ref.steps[t][1]
            lim("volume", n["name"], v1, min(mn, v0), max(mx, v0), tol * d + 1e-6)
        elif k == "losslink":
            f = ref.val(n.get("loss_factor", 0.0), t, s, st)
            x, gr, ls = flows[n["name"]], float(sub[n["name"], "gross"][s]), float(sub[n["name"], "loss"][s])
            lim("loss", n["name"], gr - x - ls, 0.0, 0.0)
            lim("loss", n["name"], ls - (f * x if n.get("loss_factor_type", "net") == "net" else f * gr), 0.0, 0.0, tol * 3)
        elif k in ("piecewiselink", "rivergauge", "multisplitlink", "riversplit", "riversplitwithgauge"):
            x = sum(float(v[s]) for (a, p), v in sub.items() if a == n["name"])
            lim("slices", n["name"], x - flows[n["name"]], 0.0, 0.0)
    sub = {kp: float(v[s]) for kp, v in r["sub"].items() if kp in net.parts}
    status, _, _ = net.solve([0.0] * net.ne, rows, net.fix({**flows, **sub}, tol))
    ctx.event("steps")
    ctx.event("asserted")
    if status == 2:
        ctx.violation("limits", f"step {t} combination {s}: the reported flows satisfy no allocation within the limits: {flows}", doc)
