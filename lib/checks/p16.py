"""P16: decision variables round-trip and optimisers see the true model results."""
import copy
import json
import math

import numpy as np
import platypus

from pywr.model import Model
from pywr.optimisation import clear_global_model_cache
from pywr.optimisation.platypus import PlatypusWrapper, PywrRandomGenerator
from pywr.optimisation.pygmo import PygmoWrapper
from pywr.recorders import Recorder

META = {
    "n": [2000, 20000], "budget": [75, 700],
    "min_events": {"round trips": 3000, "candidates evaluated": 800, "compared with a fresh model": 1500, "bounds checked": 2000, "objectives": 1500, "constraints": 1500, "integer variables": 200,
                   "feasible": 200, "infeasible": 200, "evaluated again": 200, "seeded populations": 150},
    "rule": "distinct: kinds of variable x solver settings x wrapper",
    "assumptions": ["a candidate lies within the declared bounds", "results are compared to 1e-8 relative"],
}
SOLVERS = [dict(name="glpk"), dict(name="glpk"), dict(name="glpk-edge"), dict(name="lpsolve"), dict(name="glpk", set_fixed_flows_once=True, set_fixed_costs_once=True, set_fixed_factors_once=True),
           dict(name="glpk-edge", set_fixed_flows_once=True, set_fixed_costs_once=True), dict(name="glpk", use_unsafe_api=True)]


class Log(Recorder):
    """Flows and volumes of every step."""

    def reset(self):
        self.rows = []

    def after(self):
        m = self.model
        self.rows.append(np.concatenate([np.concatenate([n.flow for n in m.nodes]), np.concatenate([n.volume for n in m.nodes if hasattr(n, "volume")])]))


class G:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rng = self.rng
        self.solver = rng.choice(SOLVERS)
        nscen = rng.choice([0, 0, 1])
        n = rng.randint(2, 25)
        delta = rng.choice([1, 1, 7, 30])
        import datetime as dt
        start = dt.date(2015, 1, 1) + dt.timedelta(days=rng.randint(0, 500))
        self.doc = dict(metadata=dict(title="t", minimum_version="0.1"), timestepper=dict(start=str(start), end=str(start + dt.timedelta(days=delta * (n - 1))), timestep=delta), solver=self.solver, nodes=[], edges=[],
                        parameters={}, recorders={})
        if nscen:
            self.doc["scenarios"] = [dict(name="s", size=rng.randint(2, 3))]
        self.J = rng.randint(1, 3)
        self.vars = {}  # name -> dict(lo, hi, ilo, ihi, apply)
        D = self.doc
        for j in range(self.J):
            inflow = self.number(2, 9)
            if nscen:
                D["parameters"][f"fl{j}"] = dict(type="constantscenario", scenario="s", values=[self.number(0, 9) for _ in range(D["scenarios"][0]["size"])])
                inflow = f"fl{j}"
            # random costs, so that the allocation is unique
            D["nodes"] += [dict(name=f"in{j}", type="input", max_flow=inflow, cost=rng.uniform(0, .3)), dict(name=f"st{j}", type="storage", max_volume=100, initial_volume=self.number(0, 100), cost=-rng.uniform(1, 1.5)),
                           dict(name=f"lk{j}", type="link", cost=rng.uniform(0, .3)), dict(name=f"out{j}", type="output", max_flow=self.number(1, 9), cost=-rng.uniform(9, 11))]
            D["edges"] += [[f"in{j}", f"st{j}"], [f"st{j}", f"lk{j}"], [f"lk{j}", f"out{j}"]]
            if j and rng.random() < .6:
                D["edges"].append([f"lk{j - 1}", f"out{j}"])
        for i in range(rng.randint(1, 4)):
            self.variable(f"x{i}")
        if rng.random() < .4:  # something that is no variable
            D["parameters"]["fixed"] = dict(type="constant", value=3.0, lower_bounds=0, upper_bounds=5)
        for i in range(rng.randint(1, 3)):
            self.recorder(f"obj{i}", dict(is_objective=rng.choice(["minimise", "minimize", "min", "maximise", "maximize", "max"])))
        for i in range(rng.choice([0, 1, 2, 3])):
            self.recorder(f"con{i}", rng.choice([dict(constraint_lower_bounds=1), dict(constraint_upper_bounds=1), dict(constraint_lower_bounds=1, constraint_upper_bounds=1), dict(constraint_lower_bounds=1, constraint_upper_bounds=2)]))
        if rng.random() < .5:
            self.recorder("plain", {})

    def number(self, lo, hi):
        return round(self.rng.uniform(lo, hi), 2)

    def node(self, name):
        return next(n for n in self.doc["nodes"] if n["name"] == name)

    def bounds(self, n, lo, hi):
        """Bounds to declare and their full form."""
        rng = self.rng
        if rng.random() < .5 or n == 1:
            a, b = sorted([self.number(lo, hi), self.number(lo, hi)])
            return a, b, [a] * n, [b] * n
        ab = [sorted([self.number(lo, hi), self.number(lo, hi)]) for _ in range(n)]
        return [a for a, _ in ab], [b for _, b in ab], [a for a, _ in ab], [b for _, b in ab]

    def variable(self, name):
        rng, D = self.rng, self.doc
        j = rng.randrange(self.J)
        kind = rng.choice(["constant", "constant", "monthly", "monthly", "rbf", "rbf", "harmonic", "offset", "step", "rectifier", "logistic", "curve", "curve"])
        v = dict(kind=kind, ilo=[], ihi=[])
        pos = True  # may be a flow limit
        if kind == "constant":
            a, b, lo, hi = self.bounds(1, 0, 12)
            d = dict(type="constant", value=self.number(a, b))
            if rng.random() < .8:
                d.update(lower_bounds=a, upper_bounds=b)
            else:
                lo, hi = [0.0], [math.inf]
            if rng.random() < .3:
                d.update(scale=2.0, offset=.5)
            v["apply"] = lambda s, x, k: s.update(value=float(x[0]))
        elif kind == "monthly":
            a, b, lo, hi = self.bounds(12, 0, 12)
            d = dict(type="monthlyprofile", values=[self.number(0, 9) for _ in range(12)])
            if rng.random() < .8:
                d.update(lower_bounds=a, upper_bounds=b)
            else:
                lo, hi = [0.0] * 12, [math.inf] * 12
            if rng.random() < .4:
                d["interp_day"] = rng.choice(["first", "last"])
            v["apply"] = lambda s, x, k: s.update(values=[float(y) for y in x])
        elif kind == "rbf":
            n = rng.randint(3, 6)
            days = [1] + sorted(rng.sample(range(20, 366, 23), n - 1))
            a, b, lo, hi = self.bounds(n, 0, 12)
            d = dict(type="rbfprofile", days_of_year=days, values=[self.number(0, 9) for _ in range(n)], lower_bounds=a, upper_bounds=b, min_value=0.0)
            k = rng.randrange(3)
            if k == 1:
                r = rng.randint(1, 9)
                d["variable_days_of_year_range"] = r
                v["ilo"], v["ihi"] = [x - r for x in days[1:]], [min(x + r, 365) for x in days[1:]]
            elif k == 2:
                v["ilo"], v["ihi"] = [x - rng.randint(0, 11) for x in days[1:]], [min(x + rng.randint(0, 11), 365) for x in days[1:]]
                d.update(variable_days_lower_bounds=v["ilo"], variable_days_upper_bounds=v["ihi"])

            def apply(s, x, k):
                s["values"] = [float(y) for y in x]
                if len(k):
                    s["days_of_year"] = [1] + [int(y) for y in k]
                    for q in ("variable_days_of_year_range", "variable_days_lower_bounds", "variable_days_upper_bounds"):
                        s.pop(q, None)
            v["apply"] = apply
        elif kind == "harmonic":
            n = rng.randint(1, 2)
            d = dict(type="annualharmonicseries", mean=6.0, amplitudes=[1.0] * n, phases=[.5] * n, mean_lower_bounds=5.0, mean_upper_bounds=self.number(6, 12), amplitude_lower_bounds=self.number(-1, .5), amplitude_upper_bounds=self.number(1, 2))
            ph = self.number(1, 3)
            if rng.random() < .5:
                d.update(phase_lower_bounds=.25, phase_upper_bounds=ph)
                pl, pu = .25, ph
            else:
                pl, pu = 0.0, np.pi * 2
            lo = [5.0] + [d["amplitude_lower_bounds"]] * n + [pl] * n
            hi = [d["mean_upper_bounds"]] + [d["amplitude_upper_bounds"]] * n + [pu] * n
            v["apply"] = lambda s, x, k, n=n: s.update(mean=float(x[0]), amplitudes=[float(y) for y in x[1:1 + n]], phases=[float(y) for y in x[1 + n:]])
        elif kind == "offset":
            a, b, lo, hi = self.bounds(1, 0, 5)
            d = dict(type="offset", parameter=dict(type="monthlyprofile", values=[self.number(0, 5) for _ in range(12)]), offset=self.number(a, b), lower_bounds=a, upper_bounds=b)
            v["apply"] = lambda s, x, k: s.update(offset=float(x[0]))
        elif kind in ("step", "rectifier", "logistic"):
            d = dict(type={"step": "binarystep", "rectifier": "rectifier", "logistic": "logistic"}[kind])
            a, b = -1.0, 1.0
            if kind == "logistic":
                a, b = -6.0, 6.0
            if rng.random() < .6:
                a, b = self.number(-5, 0), self.number(1, 5)
                d.update(lower_bounds=a, upper_bounds=b)
            lo, hi = [a], [b]
            if rng.random() < .6:
                d["value"] = self.number(a, b)
            d["output" if kind == "step" else "max_output"] = self.number(3, 9)
            if kind == "rectifier":
                d["min_output"] = self.number(0, 3)
            if kind == "logistic" and rng.random() < .5:
                d["growth_rate"] = self.number(.3, 2)
            v["apply"] = lambda s, x, k: s.update(value=float(x[0]))
        else:
            n = rng.randint(1, 3)
            cc = sorted((self.number(0, 1) for _ in range(n)), reverse=True)
            vals = [self.number(0, 9) for _ in range(n + 1)]
            idx = rng.sample(range(n + 1), rng.randint(1, n + 1))
            _, _, lo, hi = self.bounds(len(idx), 0, 12)
            d = dict(type="controlcurve", storage_node=f"st{j}", control_curves=cc, values=vals, variable_indices=idx, lower_bounds=lo, upper_bounds=hi)

            def apply(s, x, k):
                for i, y in zip(idx, x):
                    s["values"][i] = float(y)
            v["apply"] = apply
        v["lo"], v["hi"] = lo, hi
        d["is_variable"] = True
        self.doc["parameters"][name] = d
        self.vars[name] = v
        n = self.node(f"out{j}")
        if rng.random() < .7:
            self.node(rng.choice([f"out{j}", f"lk{j}"]))["max_flow"] = name
        else:
            self.doc["parameters"][name + "c"] = dict(type="negative", parameter=name)
            n["cost"] = name + "c"
        self.ctx.key(kind, self.solver.get("name"), len(self.solver), len(v["ilo"]) > 0)

    def recorder(self, name, opts):
        rng = self.rng
        j = rng.randrange(self.J)
        t = rng.choice([dict(type="totaldeficitnode", node=f"out{j}"), dict(type="totalflownode", node=f"out{j}"), dict(type="meanflownode", node=f"lk{j}"), dict(type="minimumvolumestorage", node=f"st{j}"),
                        dict(type="deficitfrequencynode", node=f"out{j}")])
        opts = dict(opts)
        if rng.random() < .6:
            t["agg_func"] = rng.choice(["sum", "min", "max", "mean", "median"])
        for k in opts:
            if k.startswith("constraint"):
                opts[k] = None  # chosen once the results are known
        if rng.random() < .3:
            t["epsilon"] = .1
        self.doc["recorders"][name] = dict(t, **opts)

    def candidate(self):
        rng = self.rng
        out = {}
        for n, v in self.vars.items():
            k = rng.random()
            pick = lambda a, b: a if k < .1 else (b if k < .2 and not math.isinf(b) else rng.uniform(a, min(b, 20)))
            out[n] = ([pick(a, b) for a, b in zip(v["lo"], v["hi"])], [a if k < .1 else b if k < .2 else rng.randint(a, b) for a, b in zip(v["ilo"], v["ihi"])])
        return out

    def substituted(self, cand):
        d = copy.deepcopy(self.doc)
        for n, (x, k) in cand.items():
            self.vars[n]["apply"](d["parameters"][n], x, k)
        return d


def results(model, log):
    return {r.name: r.aggregated_value() for r in model.recorders if r is not log}, np.array(log.rows)


def direct(doc):
    m = Model.load(copy.deepcopy(doc))
    log = Log(m, name="pv-log")
    m.run()
    return results(m, log) + (m,)


def feasible(spec, x, tol=0.0):
    lo, hi = spec.get("constraint_lower_bounds"), spec.get("constraint_upper_bounds")
    return (lo is None or x >= lo - tol) and (hi is None or x <= hi + tol)


def case(ctx):
    rng = ctx.rng
    g = G(ctx)
    # constraint bounds around the results of some candidate, so that they are met and missed
    free = copy.deepcopy(g.doc)
    probe = g.substituted(g.candidate())
    for r in probe["recorders"].values():
        for k in [k for k in r if k.startswith("constraint")]:
            del r[k]
    base, _, _ = direct(probe)
    for n, r in g.doc["recorders"].items():
        ks = [k for k in r if k.startswith("constraint")]
        if not ks:
            continue
        x = base[n]
        off = rng.choice([0, .5, 5])
        if len(ks) == 1:
            r[ks[0]] = x + rng.choice([-1, 1]) * off
        else:
            eq = rng.random() < .35
            r["constraint_lower_bounds"] = x if eq else x - rng.choice([0, 1, 5])
            r["constraint_upper_bounds"] = x if eq else x + rng.choice([.01, 1, 5])
    ctx.sample(dict(solver=g.solver, variables={n: v["kind"] for n, v in g.vars.items()}, recorders={n: {k: x for k, x in r.items()} for n, r in g.doc["recorders"].items()}))
    cands = [g.candidate() for _ in range(2)]
    if rng.random() < .4:
        cands.append(cands[0])
        ctx.event("evaluated again")
    expect = [direct(g.substituted(c)) for c in cands]

    # 1. one model, written and read back
    m = Model.load(copy.deepcopy(g.doc))
    log = Log(m, name="pv-log")
    names = [p.name for p in m.variables]
    ctx.check(sorted(names) == sorted(g.vars), "variables", lambda: f"variables {names}, declared {sorted(g.vars)}")
    if rng.random() < .5:
        m.setup()
    for n, v in g.vars.items():
        p = m.parameters[n]
        ctx.event("bounds checked")
        ok = p.double_size == len(v["lo"]) and p.integer_size == len(v["ilo"])
        ctx.check(ok, "size", lambda: f"{v['kind']} {n} has sizes {p.double_size}, {p.integer_size}, expected {len(v['lo'])}, {len(v['ilo'])}")
        ctx.check(list(p.get_double_lower_bounds()) == v["lo"] and list(p.get_double_upper_bounds()) == v["hi"], "bounds",
                  lambda: f"{v['kind']} {n}: bounds {list(p.get_double_lower_bounds())}..{list(p.get_double_upper_bounds())}, declared {v['lo']}..{v['hi']}")
        if v["ilo"]:
            ctx.event("integer variables")
            ctx.check(list(p.get_integer_lower_bounds()) == v["ilo"] and list(p.get_integer_upper_bounds()) == v["ihi"], "integer-bounds",
                      lambda: f"{n}: integer bounds {list(p.get_integer_lower_bounds())}..{list(p.get_integer_upper_bounds())}, declared {v['ilo']}..{v['ihi']}")
    for c, (val, rows, _) in zip(cands, expect):
        for n in rng.sample(sorted(c), len(c)):
            x, k = c[n]
            p = m.parameters[n]
            p.set_double_variables(np.array(x, dtype=float))
            if k:
                p.set_integer_variables(np.array(k, dtype=np.int32))
        for when in ("before", "after"):
            for n, (x, k) in c.items():
                p = m.parameters[n]
                ctx.event("round trips")
                ctx.check(list(p.get_double_variables()) == x, "round-trip", lambda: f"{g.vars[n]['kind']} {n}: wrote {x}, read {list(p.get_double_variables())} {when} a run")
                if k:
                    ctx.check(list(p.get_integer_variables()) == k, "integer-round-trip", lambda: f"{n}: wrote {k}, read {list(p.get_integer_variables())} {when} a run")
            if when == "before":
                m.run()
        got, log_rows = results(m, log)
        compare(ctx, g, "direct", got, log_rows, val, rows)
        fs = [feasible(r, val[n]) for n, r in g.doc["recorders"].items() if "constraint_lower_bounds" in r or "constraint_upper_bounds" in r]
        near = any(abs(val[n] - b) < 1e-7 * (1 + abs(b)) for n, r in g.doc["recorders"].items() for b in (r.get("constraint_lower_bounds"), r.get("constraint_upper_bounds")) if b is not None)
        if not near:
            ctx.event("feasible" if all(fs) else "infeasible")
            ctx.check(m.is_feasible() == all(fs), "is-feasible", lambda: f"is_feasible is {m.is_feasible()}, the constraints are {fs}")

    # 2. the wrappers
    path = "model.json"
    with open(path, "w") as f:
        json.dump(g.doc, f)
    try:
        wrapped(ctx, g, path, cands, expect)
    finally:
        clear_global_model_cache()


def compare(ctx, g, what, got, rows, val, rows2):
    ctx.event("compared with a fresh model")
    ctx.close(rows, rows2, what + "-flows", f"flows after writing {g.vars.keys()} ({[v['kind'] for v in g.vars.values()]}, {g.solver})", rtol=1e-8, atol=1e-8)
    for n in val:
        ctx.close(got[n], val[n], what + "-results", f"recorder {n} {g.doc['recorders'][n]} ({[v['kind'] for v in g.vars.values()]}, {g.solver})", rtol=1e-8, atol=1e-8)


def wrapped(ctx, g, path, cands, expect):
    rng = ctx.rng
    which = rng.choice(["platypus", "pygmo"])
    ctx.key(which, sorted({v["kind"] for v in g.vars.values()}))
    recs = g.doc["recorders"]
    W = PlatypusWrapper if which == "platypus" else PygmoWrapper
    w = W(path)
    m = w.model
    order = [p.name for p in w.model_variables]
    ctx.check(sorted(order) == sorted(g.vars), "wrapper-variables", lambda: f"wrapper has variables {order}")
    lo = [x for n in order for x in g.vars[n]["lo"] + g.vars[n]["ilo"]]
    hi = [x for n in order for x in g.vars[n]["hi"] + g.vars[n]["ihi"]]
    objs = [r.name for r in w.model_objectives]
    cons = [r.name for r in w.model_constraints]
    ctx.check(sorted(objs) == sorted(n for n in recs if "is_objective" in recs[n]), "wrapper-objectives", lambda: f"objectives {objs}")
    ctx.check(sorted(cons) == sorted(n for n in recs if "constraint_lower_bounds" in recs[n] or "constraint_upper_bounds" in recs[n]), "wrapper-constraints", lambda: f"constraints {cons}")
    ctx.event("objectives", len(objs))
    ctx.event("constraints", len(cons))
    if which == "platypus":
        p = w.problem
        ctx.check((p.nvars, p.nobjs) == (len(lo), len(objs)), "problem-size", lambda: f"problem of {p.nvars} variables, {p.nobjs} objectives; expected {len(lo)}, {len(objs)}")
        got = [(t.min_value, t.max_value) for t in p.types]
        ctx.check(got == list(zip(lo, hi)), "problem-bounds", lambda: f"bounds {got}, expected {list(zip(lo, hi))}")
    else:
        a, b = w.get_bounds()
        ctx.check(list(a) == lo and list(b) == hi, "problem-bounds", lambda: f"bounds {list(a)}..{list(b)}, expected {lo}..{hi}")
        ctx.check(w.get_nobj() == len(objs), "problem-size", lambda: f"{w.get_nobj()} objectives, expected {len(objs)}")
    if which == "platypus" and rng.random() < .5 and not any(math.isinf(x) for x in hi):
        population(ctx, g, w, order, cands)
    for c, (val, rows, _) in zip(cands, expect):
        vec = []
        for n in order:
            vec += c[n][0] + [k + rng.uniform(-.4, .4) if rng.random() < .5 else float(k) for k in c[n][1]]
        ctx.event("candidates evaluated")
        sign = [-1 if recs[n]["is_objective"].startswith("max") else 1 for n in objs]
        want = [s * val[n] for s, n in zip(sign, objs)]
        near = any(abs(val[n] - b) < 1e-7 * (1 + abs(b)) for n in cons for b in (recs[n].get("constraint_lower_bounds"), recs[n].get("constraint_upper_bounds")) if b is not None)
        ok = all(feasible(recs[n], val[n]) for n in cons)
        if which == "platypus":
            s = platypus.Solution(w.problem)
            s.variables[:] = vec
            w.problem(s)
            got = list(s.objectives)
            if not near:
                ctx.event("feasible" if ok else "infeasible")
                ctx.check(bool(s.feasible) == ok, "feasibility", lambda: f"solution feasible={s.feasible}, constraints {[(recs[n], val[n]) for n in cons]}")
        else:
            f = list(w.fitness(np.array(vec)))
            ne, ni = w.get_nec(), w.get_nic()
            ctx.check(len(f) == len(objs) + ne + ni, "fitness-length", lambda: f"{len(f)} values for {len(objs)} objectives, {ne} equality and {ni} inequality constraints")
            got = f[:len(objs)]
            eq, ineq = f[len(objs):len(objs) + ne], f[len(objs) + ne:]
            weq, wineq = [], []
            for n in cons:
                a, b = recs[n].get("constraint_lower_bounds"), recs[n].get("constraint_upper_bounds")
                if a is not None and a == b:
                    weq.append(val[n] - a)
                else:
                    wineq += ([a - val[n]] if a is not None else []) + ([val[n] - b] if b is not None else [])
            ctx.close(eq, weq, "equality-constraints", f"equality constraint values for {[recs[n] for n in cons]}", rtol=1e-8, atol=1e-8)
            ctx.close(ineq, wineq, "inequality-constraints", f"inequality constraint values for {[recs[n] for n in cons]}", rtol=1e-8, atol=1e-8)
            if not near:
                ctx.event("feasible" if ok else "infeasible")
                ctx.check((all(abs(x) < 1e-9 for x in eq) and all(x <= 0 for x in ineq)) == ok, "feasibility", lambda: f"{eq} {ineq} for {[(recs[n], val[n]) for n in cons]}")
        ctx.close(got, want, "objective-values", f"{which} objective values of {[recs[n] for n in objs]} ({[g.vars[n]['kind'] for n in order]}, {g.solver})", rtol=1e-8, atol=1e-8)


def population(ctx, g, w, order, cands):
    """The generator gives the current configuration first, then the given solutions, within the bounds."""
    rng = ctx.rng
    ctx.event("seeded populations")
    m = w.model
    use = rng.random() < .6
    sols = []
    for c in cands[:rng.randint(0, 2)]:
        d = {}
        for n, (x, k) in c.items():
            d[n] = dict(doubles=[y + rng.choice([0, 0, 100, -100]) for y in x])
            if k:
                d[n]["integers"] = list(k)
        sols.append(d)
    gen = PywrRandomGenerator(wrapper=w, use_current=use, solutions=sols or None)
    now = [y for n in order for y in list(m.parameters[n].get_double_variables()) + [float(k) for k in (m.parameters[n].get_integer_variables() if m.parameters[n].integer_size else [])]]
    want = [now] if use else []
    for d in sols:
        want.append([y for n in order for y in list(np.clip(d[n]["doubles"], g.vars[n]["lo"], g.vars[n]["hi"])) + [float(k) for k in d[n].get("integers", [])]])
    for x in want:
        s = list(gen.generate(w.problem).variables)
        ctx.close(s, x, "population", f"seeded solution (use_current={use})", rtol=1e-12, atol=1e-12)
    s = gen.generate(w.problem)
    ctx.check(len(s.variables) == len(now), "population-random", "a random solution has the wrong length")
