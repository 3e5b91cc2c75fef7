"""Reference semantics, written from the documentation, evaluated on a model document and on the observed state:
calendar, scenario combinations, parameter values, the allocation problem of a step (solved with HiGHS), virtual storages."""
import calendar as _cal
import itertools
import math

import numpy as np
import pandas as pd
from scipy.optimize import LinearConstraint, Bounds, milp
from scipy.sparse import csc_matrix

INF = float("inf")


def norm(t):
    t = t.lower()
    return t[:-9] if t.endswith("parameter") else t


def days_list(start, end, delta):
    """[(date, length in days)] of the steps whose start is not after the end date."""
    start, end = pd.Timestamp(start), pd.Timestamp(end)
    out = []
    if delta == "M":
        d = start.replace(day=1)
        while d <= end:
            n = _cal.monthrange(d.year, d.month)[1]
            out.append((d, float(n)))
            d = d + pd.Timedelta(days=n)
    else:
        k = int(str(delta).rstrip("D"))
        d = start
        while d <= end:
            out.append((d, float(k)))
            d = d + pd.Timedelta(days=k)
    return out


def combos(doc):
    """Scenario combinations as dicts name -> member index."""
    sc = doc.get("scenarios", [])
    names = [s["name"] for s in sc]
    if not sc:
        return [{}]
    if doc.get("scenario_combinations"):
        return [dict(zip(names, c)) for c in doc["scenario_combinations"]]
    rngs = []
    for s in sc:
        r = list(range(s.get("size", 1)))
        if s.get("slice"):
            r = r[slice(*s["slice"])]
        rngs.append(r)
    return [dict(zip(names, c)) for c in itertools.product(*rngs)]


LEAP = 2016


def doy366(d):
    """Index 0..365 of the day in a leap calendar (29 February = 59)."""
    return (pd.Timestamp(LEAP, d.month, d.day) - pd.Timestamp(LEAP, 1, 1)).days


PRED = {"lt": lambda a, b: a < b, "<": lambda a, b: a < b, "gt": lambda a, b: a > b, ">": lambda a, b: a > b,
        "le": lambda a, b: a <= b, "<=": lambda a, b: a <= b, "ge": lambda a, b: a >= b, ">=": lambda a, b: a >= b,
        "eq": lambda a, b: abs(a - b) < 1e-8, "=": lambda a, b: abs(a - b) < 1e-8}

AGG = {"sum": sum, "mean": lambda v: sum(v) / len(v), "min": min, "max": max, "median": lambda v: float(np.median(v)),
       "product": lambda v: float(np.prod(v)), "any": lambda v: float(any(x > 0 for x in v)), "all": lambda v: float(all(x > 0 for x in v))}


class Ref:
    def __init__(self, doc):
        self.doc = doc
        ts = doc["timestepper"]
        self.steps = days_list(ts["start"], ts["end"], ts["timestep"])
        # the calendar attributes of a step are those of its pandas period, which for a month are those of its last day
        self.dates = [d + pd.Timedelta(days=n - 1) if ts["timestep"] == "M" else d for d, n in self.steps]
        self.combos = combos(doc)
        self.nodes = {n["name"]: n for n in doc["nodes"]}
        self.params = doc.get("parameters", {})

    # ------------------------------------------------------------ parameters
    def val(self, p, t, s, st):
        """Value of a document parameter entry at step t, combination s, given the observed state st (pc, vol, flow...)."""
        if p is None:
            return None
        if isinstance(p, (int, float)):
            return float(p)
        if isinstance(p, str):
            return self.val(self.params[p], t, s, st)
        k = norm(p["type"])
        date = self.dates[t]
        si = self.combos[s]
        v = lambda q: self.val(q, t, s, st)
        if k == "constant":
            return (p["value"] if "value" in p else p["values"]) * p.get("scale", 1.0) + p.get("offset", 0.0)
        if k == "monthlyprofile":
            return p["values"][date.month - 1]
        if k == "dailyprofile":
            return p["values"][doy366(date)]
        if k == "weeklyprofile":
            return p["values"][min(doy366(date) // 7, 51)]
        if k == "arrayindexed":
            return p["values"][t]
        if k == "constantscenario":
            return p["values"][si[p["scenario"]]]
        if k == "arrayindexedscenario":
            return p["values"][t][si[p["scenario"]]]
        if k == "arrayindexedscenariomonthlyfactors":
            return p["values"][t] * p["factors"][si[p["scenario"]]][date.month - 1]
        if k == "scenariomonthlyprofile":
            return p["values"][si[p["scenario"]]][date.month - 1]
        if k == "scenariodailyprofile":
            return p["values"][si[p["scenario"]]][doy366(date)]
        if k == "scenarioweeklyprofile":
            return p["values"][si[p["scenario"]]][min(doy366(date) // 7, 51)]
        if k == "aggregated":
            return float(AGG[p["agg_func"]]([v(q) for q in p["parameters"]]))
        if k in ("min", "max"):
            x = v(p["parameter"])
            thr = p.get("threshold", 0.0)
            return min(x, thr) if k == "min" else max(x, thr)
        if k == "negative":
            return -v(p["parameter"])
        if k == "offset":
            return v(p["parameter"]) + p.get("offset", 0.0)
        if k == "division":
            return v(p["numerator"]) / v(p["denominator"])
        if k == "indexedarray":
            return v((p.get("params") or p.get("parameters"))[self.idx(p["index_parameter"], t, s, st)])
        if k == "storagethreshold":
            return float(p["values"][int(PRED[p["predicate"].lower()](st["vol"][p["storage_node"]][s], v(p["threshold"])))])
        if k == "controlcurve":
            vals = p.get("values") or p.get("parameters")
            return v(vals[self.curve_index(p, t, s, st)])
        if k == "controlcurveinterpolated":
            pc = self.pc(p["storage_node"], s, st)
            cc = [1.0] + [v(c) for c in p["control_curves"]] + [0.0]
            return interp_desc(pc, cc, [v(x) for x in p["values"]])
        if k == "controlcurvepiecewiseinterpolated":
            pc = self.pc(p["storage_node"], s, st)
            cc = [p.get("maximum", 1.0)] + [v(c) for c in p["control_curves"]] + [p.get("minimum", 0.0)]
            for j in range(len(cc) - 1):
                if pc >= cc[j + 1] or j == len(cc) - 2:
                    a, b = p["values"][j]
                    u, l = cc[j], cc[j + 1]
                    if u == l:
                        return b
                    x = min(max((pc - l) / (u - l), 0.0), 1.0)
                    return b + (a - b) * x
        raise KeyError(k)

    def pc(self, node, s, st):
        x = st["pc"][node][s]
        if math.isnan(x) or x > 1.0:
            return 1.0
        return max(x, 0.0)

    def curve_index(self, p, t, s, st):
        pc = self.pc(p["storage_node"], s, st)
        curves = p.get("control_curves") or [p["control_curve"]]
        for j, c in enumerate(curves):
            if pc >= self.val(c, t, s, st):
                return j
        return len(curves)

    def idx(self, p, t, s, st):
        if isinstance(p, str):
            p = self.params[p]
        k = norm(p["type"])
        if k == "controlcurveindex":
            return self.curve_index(p, t, s, st)
        if k == "storagethreshold":
            return int(PRED[p["predicate"].lower()](st["vol"][p["storage_node"]][s], self.val(p["threshold"], t, s, st)))
        return int(self.val(p, t, s, st))

    def get(self, node, key, t, s, st, default):
        x = node.get(key)
        return default if x is None else self.val(x, t, s, st)

    # ------------------------------------------------------------ initial state
    def is_const(self, p):
        if isinstance(p, str):
            p = self.params[p]
        return isinstance(p, (int, float)) or norm(p["type"]) == "constant"

    def initial(self, n):
        """(volume, pc) a storage starts a run with."""
        mv = n.get("max_volume", 0.0)
        iv, ip = n.get("initial_volume"), n.get("initial_volume_pc")
        if not self.is_const(mv):
            return iv, ip
        mx = self.val(mv, 0, 0, None)
        if ip is not None:
            return ip * mx, ip
        if iv is None and n["type"].lower() == "rollingvirtualstorage":
            iv = 0.0
        return iv, (iv / mx if mx else float("nan"))


def interp_desc(pc, cc, vals):
    """Linear interpolation over bounds given from high to low."""
    for j in range(1, len(cc)):
        if pc >= cc[j]:
            u, l = cc[j - 1], cc[j]
            if u == l:
                return vals[j]
            return vals[j] + (vals[j - 1] - vals[j]) * (pc - l) / (u - l)
    return vals[-1]


STORAGE = ("storage", "reservoir")
VIRTUAL = ("virtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage", "rollingvirtualstorage")


class Net:
    """The network of a document expanded to simple inputs (I), links (L) and outputs (O)."""

    def __init__(self, ref):
        self.ref = ref
        doc = ref.doc
        self.el = []        # dict(kind, min, max, cost, sign)
        self.E = []         # (from element, to element)
        self.inp, self.outp = {}, {}
        self.report = {}    # doc node -> element whose flow the node reports
        self.stores = {}    # storage -> (in elements [O], out elements [I])
        self.delays = {}    # delay node -> (O element, I element)
        self.ratio = []     # (element 0, element i, f0, fi)
        self.parts = {}     # other observable parts: (node, part) -> element
        self.dom = {}
        for n in doc["nodes"]:
            self.expand(n)
        self.cross = {}
        for e in doc["edges"]:
            a, b = e[0], e[1]
            fs, ts = (e[2], e[3]) if len(e) > 2 else (None, None)
            u, v = self.port(self.outp, a, fs), self.port(self.inp, b, ts)
            if self.el[u]["kind"] == "O" and self.el[v]["kind"] == "I":
                self.cross.setdefault(u, []).append((v, ref.nodes[b].get("conversion_factor", 1.0)))
            else:
                self.E.append((u, v))
        self.build()

    def port(self, d, name, slot):
        p = d[name]
        if isinstance(p, dict):
            if slot is None and len(p) == 1:
                return next(iter(p.values()))
            return p[slot]
        return p

    def add(self, kind, mn=None, mx=None, cost=None, sign=1.0):
        self.el.append(dict(kind=kind, min=mn, max=mx, cost=cost, sign=sign))
        return len(self.el) - 1

    def expand(self, n):
        k, name = n["type"].lower(), n["name"]
        if k in ("link", "river", "breaklink"):
            e = self.add("L", n.get("min_flow"), n.get("max_flow"), n.get("cost"))
            self.inp[name] = self.outp[name] = self.report[name] = e
        elif k == "input":
            self.report[name] = self.outp[name] = self.inp[name] = self.add("I", n.get("min_flow"), n.get("max_flow"), n.get("cost"))
        elif k in ("catchment", "discharge"):
            self.report[name] = self.inp[name] = self.outp[name] = self.add("I", n.get("flow", 0.0), n.get("flow", 0.0), n.get("cost"))
        elif k == "output":
            self.report[name] = self.inp[name] = self.outp[name] = self.add("O", n.get("min_flow"), n.get("max_flow"), n.get("cost"))
        elif k in STORAGE:
            cost = n.get("cost")
            if n.get("above_curve_cost") is not None:
                cost = {"type": "controlcurve", "storage_node": name, "control_curves": [n.get("control_curve", 1.0)],
                        "values": [n["above_curve_cost"], n.get("cost", 0.0)]}
            o = [self.add("O", cost=cost) for _ in range(n.get("outputs", 1))]
            i = [self.add("I", cost=cost, sign=-1.0) for _ in range(n.get("inputs", 1))]
            self.inp[name] = dict(enumerate(o))
            self.outp[name] = dict(enumerate(i))
            self.stores[name] = (o, i)
        elif k in ("piecewiselink", "rivergauge"):
            if k == "rivergauge":
                costs, maxs = [n.get("mrf_cost", 0.0), n.get("cost", 0.0)], [n.get("mrf", 0.0), None]
            else:
                m = n["nsteps"]
                costs, maxs = n.get("costs") or [None] * m, n.get("max_flows") or [None] * m
            h, g = self.add("L"), self.add("L")
            for j, (c, m) in enumerate(zip(costs, maxs)):
                x = self.add("L", None, m, c)
                self.E += [(h, x), (x, g)]
                self.parts[name, f"sub{j}"] = x
            self.inp[name], self.outp[name], self.report[name] = h, g, h
        elif k in ("multisplitlink", "riversplit", "riversplitwithgauge"):
            if k == "riversplitwithgauge":
                m, costs, maxs = 2, [n.get("mrf_cost", 0.0), n.get("cost", 0.0)], [n.get("mrf", 0.0), None]
            else:
                m = n.get("nsteps", 1)
                costs, maxs = n.get("costs") or [None] * m, n.get("max_flows") or [None] * m
            fac = n.get("factors")
            ex = n.get("extra_slots", 1) if k == "multisplitlink" else len(fac) - 1
            h, g = self.add("L"), self.add("L")
            xs = [self.add("L", None, maxs[j], costs[j]) for j in range(m)] + [self.add("L") for _ in range(ex)]
            names = n.get("slot_names", list(range(ex + 1)))
            self.outp[name] = {names[0]: g}
            for j, x in enumerate(xs):
                self.E += [(h, x), (x, g)]
                self.parts[name, f"sub{j}"] = x
            for j in range(ex):
                b = self.add("L")
                self.E.append((xs[m + j], b))
                self.outp[name][names[j + 1]] = b
            if fac:
                live = [(f, x) for f, x in zip(fac, xs[m - 1:]) if f is not None]
                for f, x in live[1:]:
                    self.ratio.append((live[0][1], x, live[0][0], f))
            self.inp[name], self.report[name] = h, h
        elif k == "losslink":
            f, lt = n.get("loss_factor", 0.0), n.get("loss_factor_type", "net")
            gross = self.add("L")
            mx = n.get("max_flow")
            lossmax = None
            if f == 0.0:
                lossmax = 0.0
            elif f == 1.0 and lt == "gross":
                mx = 0.0
            net = self.add("L", n.get("min_flow"), mx, n.get("cost"))
            loss = self.add("O", None, lossmax)
            self.E += [(gross, net), (gross, loss)]
            if not (f == 0.0 or f == 1.0 and lt == "gross"):
                self.ratio.append((net, loss, 1.0 if lt == "net" else 1.0 - f, f))
            self.inp[name], self.outp[name], self.report[name] = gross, net, net
            self.parts[name, "gross"], self.parts[name, "loss"] = gross, loss
        elif k == "delaynode":
            o, i = self.add("O"), self.add("I", "delay:" + name, "delay:" + name)
            self.inp[name], self.outp[name], self.report[name] = o, i, i
            self.delays[name] = (o, i)
        elif k in VIRTUAL or k in ("aggregatednode", "aggregatedstorage"):
            pass
        else:
            raise KeyError(k)

    def build(self):
        ne = len(self.E)
        self.rows, self.kinds = [], []
        n = len(self.el)
        F = np.zeros((n, ne))  # flow of each element as a function of edge flows
        bal = []
        for j, (u, v) in enumerate(self.E):
            if self.el[u]["kind"] == "I":
                F[u, j] = 1
            # an input that lies inline provides what leaves it beyond what enters it
            F[v, j] = -1 if self.el[v]["kind"] == "I" else 1
        for i, e in enumerate(self.el):
            if e["kind"] == "L":
                r = np.zeros(ne)
                for j, (u, v) in enumerate(self.E):
                    r[j] += (v == i) - (u == i)
                bal.append(r)
        for u, vs in self.cross.items():
            r = -F[u].copy()
            for v, c in vs:
                r += F[v] / c
            bal.append(r)
        self.F = F
        self.bal = np.array(bal).reshape(-1, ne)
        self.ne = ne
        self.agg = [x for x in self.ref.doc["nodes"] if x["type"].lower() == "aggregatednode"]
        self.vs = [x for x in self.ref.doc["nodes"] if x["type"].lower() in VIRTUAL]
        self.net_rows = {s: sum(F[i] for i in o) - sum(F[i] for i in ii) for s, (o, ii) in self.stores.items()}

    @staticmethod
    def z(x):
        return 0.0 if abs(x) < 1e-8 else x

    def bounds(self, t, s, st):
        """Yields (label, row, lower, upper) of every limit in force at step t for combination s."""
        ref = self.ref
        days = ref.steps[t][1]
        names = {v: k for k, v in self.report.items()}
        for i, e in enumerate(self.el):
            lo, hi = e["min"], e["max"]
            if isinstance(lo, str) and lo.startswith("delay:"):
                lo = hi = st["delay"][lo[6:]][s]
            else:
                lo = 0.0 if lo is None else ref.val(lo, t, s, st)
                hi = INF if hi is None else ref.val(hi, t, s, st)
            lo, hi = self.z(lo), self.z(hi)
            if lo > 0 or hi < INF or e["kind"] == "I":
                yield ("node", names.get(i, i)), self.F[i], lo, hi
        for name, row in self.net_rows.items():
            n = ref.nodes[name]
            yield ("storage", name), row, *self.vrange(n, t, s, st, days)
        for n in self.vs:
            if not st["active"][n["name"]]:
                continue
            f = n.get("factors") or [1.0] * len(n["nodes"])
            row = -sum(x * self.F[self.report[m]] for x, m in zip(f, n["nodes"]))
            yield ("virtual", n["name"]), row, *self.vrange(n, t, s, st, days)
        for n in self.agg:
            ms = [self.F[self.report[m]] for m in n["nodes"]]
            w = n.get("flow_weights") or [1.0] * len(ms)
            lo, hi = ref.get(n, "min_flow", t, s, st, 0.0), ref.get(n, "max_flow", t, s, st, INF)
            yield ("aggregate", n["name"]), sum(x * m for x, m in zip(w, ms)), lo, hi
            if n.get("factors"):
                fs = [ref.val(x, t, s, st) for x in n["factors"]]
                for m, x in list(zip(ms, fs))[1:]:
                    yield ("ratio", n["name"]), ms[0] - fs[0] / x * m, 0.0, 0.0
        for a, b, fa, fb in self.ratio:
            yield ("ratio", f"{a}:{b}"), self.F[a] - ref.val(fa, t, s, st) / ref.val(fb, t, s, st) * self.F[b], 0.0, 0.0

    def vrange(self, n, t, s, st, days):
        mx = self.ref.val(n.get("max_volume", 0.0), t, s, st)
        mn = self.ref.get(n, "min_volume", t, s, st, 0.0)
        if mx == mn:
            return 0.0, 0.0
        vol = st["vol"][n["name"]][s]
        return self.z(-max(vol - mn, 0.0) / days), self.z(max(mx - vol, 0.0) / days)

    def costs(self, t, s, st):
        c = np.zeros(self.ne)
        for i, e in enumerate(self.el):
            if e["cost"] is not None:
                c += e["sign"] * self.ref.val(e["cost"], t, s, st) * self.F[i]
        return c

    def obj(self, t, s, st, flow):
        pass

    def solve(self, c, rows, fixed=()):
        """min c.x; returns (status, objective, x); status 0 optimal, 2 infeasible, 3 unbounded."""
        A, lo, hi = [self.bal], [np.zeros(len(self.bal))], [np.zeros(len(self.bal))]
        for lab, r, l, h in itertools.chain(rows, fixed):
            A.append(r[None, :])
            lo.append([l])
            hi.append([h])
        A = np.vstack(A)
        cons = LinearConstraint(csc_matrix(A), np.concatenate(lo), np.concatenate(hi)) if len(A) else ()
        r = milp(c, constraints=cons, bounds=Bounds(0, INF))
        return r.status, r.fun, r.x

    def fix(self, flows, tol):
        """Rows fixing the reported flows (document name -> value; storages: net flow)."""
        out = []
        for name, v in flows.items():
            if name in self.net_rows:
                row = self.net_rows[name]
            elif name in self.report:
                row = self.F[self.report[name]]
            elif name in self.parts:
                row = self.F[self.parts[name]]
            else:
                continue
            out.append((("fixed", name), row, v - tol, v + tol))
        return out


class VirtualRef:
    """Independent account of a virtual storage, one combination at a time."""

    def __init__(self, ref, n, s):
        self.ref, self.n, self.s = ref, n, s
        self.kind = n["type"].lower()
        self.vol, self.pc = ref.initial(n)
        if self.kind == "rollingvirtualstorage" and n.get("initial_volume") is None and n.get("initial_volume_pc") is None:
            self.vol, self.pc = 0.0, 0.0
        self.active = True
        if self.kind == "rollingvirtualstorage":
            k = n.get("timesteps", 0)
            if n.get("days"):
                k = int(n["days"] // ref.doc["timestepper"]["timestep"])
            self.window = k
            if self.pc == 0.0:
                u = n["max_volume"] / (k - 1)
            else:
                u = (self.vol / self.pc - self.vol) / (k - 1)
            self.used = [u] * (k - 1)

    def mx(self, t, st):
        return self.ref.val(self.n.get("max_volume", 0.0), t, self.s, st)

    def refill(self, t, to_initial, st):
        if to_initial:
            self.vol, self.pc = self.ref.initial(self.n)
        else:
            # the maximum in force is the one last evaluated: that of the previous step
            self.vol = self.mx(max(t - 1, 0), st)
            self.pc = self.vol / self.vol if self.vol else float("nan")

    def scheduled(self, t):
        """Whether the store is refilled at the start of step t."""
        n, dates = self.n, self.ref.dates
        if self.kind in ("annualvirtualstorage", "seasonalvirtualstorage"):
            r = (n.get("reset_month", 1), n.get("reset_day", 1))
            d = dates[t]
            if t == 0:
                return (d.month, d.day) == r
            p = dates[t - 1]
            # a reset date lies after the previous step and not after this one
            return any((p.year, p.month, p.day) < (y,) + r <= (d.year, d.month, d.day) for y in range(p.year, d.year + 1))
        if self.kind == "monthlyvirtualstorage":
            k = n.get("months", 1)
            m = [(d.year - dates[0].year) * 12 + d.month - dates[0].month + n.get("initial_months", 0) for d in dates[max(t - 1, 0):t + 1]]
            return m[0] // k > 0 if t == 0 else m[1] // k > m[0] // k
        return False

    def before(self, t, st=None):
        """Applies the scheduled reset at the start of step t; returns True if one took place."""
        n, d = self.n, self.ref.dates[t]
        done = self.scheduled(t)
        if done:
            first_param = t == 0 and not isinstance(n.get("max_volume", 0.0), (int, float))
            self.refill(t, n.get("reset_to_initial_volume", False) or first_param, st)
        if self.kind == "seasonalvirtualstorage":
            r = (n.get("reset_month", 1), n.get("reset_day", 1))
            e = (n.get("end_month", 12), n.get("end_day", 31))
            today = (d.month, d.day)
            self.active = r <= today < e if r < e else today >= r or today < e
        return done

    def after(self, t, flows, st=None):
        """flows: member -> flow at step t."""
        if not self.active:
            return
        n = self.n
        f = n.get("factors") or [1.0] * len(n["nodes"])
        days = self.ref.steps[t][1]
        use = sum(a * flows[m] for a, m in zip(f, n["nodes"])) * days
        mx = self.mx(t, st)
        mn = self.ref.get(n, "min_volume", t, self.s, st, 0.0)
        self.vol -= use
        if self.kind == "rollingvirtualstorage":
            back = self.used.pop(0)
            self.used.append(use)
            self.vol = min(mx, max(mn, self.vol + back))
        if abs(self.vol - mx) < 1e-6:
            self.vol = mx
        if abs(self.vol - mn) < 1e-6:
            self.vol = mn
        self.pc = self.vol / mx if mx else float("nan")
