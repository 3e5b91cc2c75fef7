"""P05 storage state."""
import numpy as np

from checks.netcase import Run, make, SOLVE
from pv import ref as R

META = {"n": [900, 9000], "budget": [60, 600],
        "min_events": {"initial": 800, "balance": 5000, "fullness": 5000, "aggregated": 1000, "second run": 200, "type:storage": 200, "type:aggregatedstorage": 100,
                       "constant parameter maximum": 20, "initial by fraction": 200, "initial by volume": 100},
        "rule": "a distinct run is a (solver, options, number of nodes, number of edges, set of node types) combination",
        "assumptions": ["volumes within 1e-6 of a limit may be set to that limit", "current maximum re-evaluated from the model document"]}


def case(ctx):
    rng = ctx.rng
    g, solver, args = make(ctx, mid={"link": 3, "storage": 8, "reservoir": 3, "river": 1, "losslink": 1, "delaynode": 1}, aggstorage=.8, virtual=(0, 3))
    doc = g.doc
    for n in doc["nodes"]:
        if n["type"] in R.STORAGE and isinstance(n["max_volume"], float) and rng.random() < .2:
            n["max_volume"] = {"type": "constant", "value": n["max_volume"] / 2, "scale": 2.0}
            ctx.event("constant parameter maximum")
    # the aggregate may also have several, or virtual, members
    run = Run(ctx, doc, solver, args)
    if run.error:
        ctx.event("failed runs")
    ctx.sample(dict(solver=solver, nodes=[(n["type"], n.get("initial_volume"), n.get("initial_volume_pc")) for n in doc["nodes"] if "storage" in n["type"]]))
    check(ctx, run, run.log)
    if rng.random() < .4 and not ctx.violations:
        # a second run, or a part of one, starts from the declared state again
        run.mon.log.clear()
        try:
            if rng.random() < .5:
                run.model.run()
            else:
                run.model.reset()
                for _ in range(min(3, len(run.log))):
                    run.model.step()
        except RuntimeError:
            pass
        ctx.event("second run")
        check(ctx, run, list(run.mon.log))


def start(ref, n):
    if n["type"] == "rollingvirtualstorage" and n.get("initial_volume") is None and n.get("initial_volume_pc") is None:
        return 0.0
    return ref.initial(n)[0]


def check(ctx, run, log):
    ref, doc = run.ref, run.doc
    if not log:
        return
    stores = [n for n in doc["nodes"] if n["type"] in R.STORAGE]
    virt = [n for n in doc["nodes"] if n["type"] in R.VIRTUAL]
    aggs = [n for n in doc["nodes"] if n["type"] == "aggregatedstorage"]
    r0 = log[0]
    for n in stores:
        v, p = ref.initial(n)
        ctx.event("initial")
        ctx.event("initial by fraction" if n.get("initial_volume") is None else "initial by volume")
        ctx.close(r0["vol"][n["name"]], np.full(run.ncomb, v), "initial-volume", f"{n['name']} at the start", 1e-9, 1e-9, doc)
        ctx.close(r0["pc"][n["name"]], np.full(run.ncomb, p), "initial-fullness", f"{n['name']} at the start", 1e-9, 1e-9, doc)
    for n in aggs:
        ctx.close(r0["vol"][n["name"]], np.full(run.ncomb, sum(start(ref, ref.nodes[m]) for m in n["storage_nodes"])), "aggregated-initial", f"{n['name']} at the start", 1e-9, 1e-9, doc)
    for t, r in enumerate(log):
        if r["index"] != t:
            ctx.violation("step-index", f"step {t} has index {r['index']}", doc)
            return
        days = ref.steps[t][1]
        st = {"vol": r["vol"], "pc": r["pc"], "delay": {}, "active": {}}
        for n in stores:
            name = n["name"]
            for s in range(run.ncomb):
                mx = ref.val(n["max_volume"], t, s, st)
                mn = ref.get(n, "min_volume", t, s, st, 0.0)
                v0, v1, q = float(r["vol"][name][s]), float(r["vol1"][name][s]), float(r["flow"][name][s])
                e = v0 + q * days
                ctx.event("balance")
                tol = 1e-9 * max(1.0, abs(e))
                ok = abs(v1 - e) <= tol or abs(e - mx) < 1.1e-6 and v1 == mx or abs(e - mn) < 1.1e-6 and v1 == mn
                if not ok:
                    ctx.violation("balance", f"step {t} combination {s}: {name} had {v0}, net flow {q} for {days} days, now {v1} instead of {e} (limits {mn}..{mx})", doc)
                pc = float(r["pc1"][name][s])
                want = v1 / mx if mx else float("nan")
                ctx.event("fullness")
                if not (abs(pc - want) <= 1e-9 * max(1, abs(want)) or pc != pc and want != want):
                    ctx.violation("fullness", f"step {t} combination {s}: {name} holds {v1} of {mx} and reports a fullness of {pc}", doc)
        if t:
            for n in stores:
                if not np.array_equal(r["vol"][n["name"]], log[t - 1]["vol1"][n["name"]]):
                    ctx.violation("continuity", f"{n['name']} ended step {t - 1} with {log[t - 1]['vol1'][n['name']]} and began step {t} with {r['vol'][n['name']]}", doc)
        for n in aggs:
            ms = n["storage_nodes"]
            ctx.event("aggregated", run.ncomb)
            ctx.close(r["vol1"][n["name"]], sum(r["vol1"][m] for m in ms), "aggregated-volume", f"step {t}: volume of {n['name']} and of its members", 1e-9, 1e-9, doc)
            ctx.close(r["flow"][n["name"]], sum(r["flow"][m] for m in ms), "aggregated-flow", f"step {t}: flow of {n['name']} and of its members", 1e-9, 1e-9, doc)
            mx = [sum(ref.val(ref.nodes[m]["max_volume"], t, s, st) for m in ms) for s in range(run.ncomb)]
            ctx.close(r["pc1"][n["name"]], [v / x if x else float("nan") for v, x in zip(r["vol1"][n["name"]], mx)], "aggregated-fullness",
                      f"step {t}: fullness of {n['name']}", 1e-9, 1e-9, doc)
        if ctx.violations:
            return
