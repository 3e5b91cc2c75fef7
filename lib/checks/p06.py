"""P06 virtual storages."""
import numpy as np

from checks.netcase import Run, make
from pv import ref as R

META = {"n": [700, 7000], "budget": [60, 600],
        "min_events": {"virtual steps": 20000, "kind:annualvirtualstorage": 100, "kind:seasonalvirtualstorage": 100, "kind:monthlyvirtualstorage": 100,
                       "kind:rollingvirtualstorage": 100, "resets": 500, "inactive steps": 2000, "window returns": 500, "second run": 100},
        "rule": "a distinct run is a (solver, options, number of nodes, number of edges, set of node types) combination",
        "assumptions": ["reset dates are compared with the date of the step (for calendar-month steps: the last day of the month, as pandas reports)"]}


def case(ctx):
    rng = ctx.rng
    long = rng.random()
    g, solver, args = make(ctx, n_sources=(1, 2), n_mid=(1, 3), n_outputs=(1, 2), agg=(0, 0), virtual=(2, 4), nsteps=(8, 40 if long < .8 else 90), minflow=0,
                           virtual_kinds={"virtualstorage": 1, "annualvirtualstorage": 3, "seasonalvirtualstorage": 3, "monthlyvirtualstorage": 2,
                                          "rollingvirtualstorage": 2},
                           par=.25, deltas={1: 3, 7: 3, 5: 1, 30: 4, 45: 1, "M": 2}, scenarios={0: 3, 1: 2}, vparmax=.3, vneg=rng.choice([0, 0, .5]))
    run = Run(ctx, g.doc, solver, args)
    if run.error:
        ctx.event("failed runs")
    ctx.sample(dict(solver=solver, virtual=[n for n in g.doc["nodes"] if n["type"] in R.VIRTUAL][:2], steps=len(run.log)))
    check(ctx, run, run.log)
    if rng.random() < .35 and not ctx.violations:
        run.mon.log.clear()
        try:
            run.model.run()
        except RuntimeError:
            pass
        ctx.event("second run")
        check(ctx, run, list(run.mon.log))


def check(ctx, run, log):
    doc = run.doc
    for n in doc["nodes"]:
        if n["type"] not in R.VIRTUAL:
            continue
        name = n["name"]
        ctx.event("kind:" + n["type"])
        acc = [R.VirtualRef(run.ref, n, s) for s in range(run.ncomb)]
        for t, r in enumerate(log):
            st = {"vol": r["vol"], "pc": r["pc"], "delay": {}, "active": {}}
            for s, a in enumerate(acc):
                done = a.before(t, st)
                v = float(r["vol"][name][s])
                scale = 1e-6 * max(1.0, abs(a.vol))
                ctx.event("virtual steps")
                ctx.event("asserted")
                if done:
                    ctx.event("resets")
                if bool(r["active"][name]) != a.active:
                    ctx.violation("activity", f"step {t} ({run.ref.dates[t].date()}): {n['type']} {name} active={r['active'][name]}, expected {a.active}", doc)
                    return
                if not a.active:
                    ctx.event("inactive steps")
                if abs(v - a.vol) > scale:
                    ctx.violation("refill" if done else "start-volume", f"step {t} ({run.ref.dates[t].date()}) combination {s}: {n['type']} {name} starts with {v}, expected {a.vol}"
                                  f"{' after its scheduled refill' if done else ''}", doc)
                    return
                pc = float(r["pc"][name][s])
                if not (pc == pc) == (a.pc == a.pc) or abs(pc - a.pc) > 1e-6:
                    ctx.violation("start-fullness", f"step {t} combination {s}: {n['type']} {name} starts with a fullness of {pc}, expected {a.pc}", doc)
                    return
                flows = {m: float(r["flow"][m][s]) for m in n["nodes"]}
                back = a.used[0] if a.kind == "rollingvirtualstorage" else 0.0
                a.after(t, flows, st)
                v1 = float(r["vol1"][name][s])
                if back < -1e-6:
                    ctx.event("puts back leaving the window")
                if back > 1e-6:
                    ctx.event("window returns")
                if abs(v1 - a.vol) > 1e-6 * max(1.0, abs(a.vol)) + 1e-6:
                    ctx.violation("account", f"step {t} ({run.ref.dates[t].date()}) combination {s}: {n['type']} {name} held {v}, members used {flows} over {run.ref.steps[t][1]} days, "
                                  f"{back} left its window; it now holds {v1}, expected {a.vol}", doc)
                    return
                if abs(float(r["pc1"][name][s]) - a.pc) > 1e-6:
                    ctx.violation("fullness", f"step {t} combination {s}: {name} fullness {r['pc1'][name][s]}, expected {a.pc}", doc)
                    return
                if a.active:
                    q = -sum(w * flows[m] for w, m in zip(n.get("factors") or [1.0] * len(flows), n["nodes"]))
                    if abs(float(r["flow"][name][s]) - q) > 1e-6 * max(1, abs(q)):
                        ctx.violation("flow", f"step {t} combination {s}: {name} reports {r['flow'][name][s]}, members give {q}", doc)
                        return
                # follow the reported volume so that rounding does not accumulate
                a.vol = v1
