"""Random model documents (pywr JSON as Python dicts) built to be valid and, unless asked otherwise, feasible."""
import copy

import pandas as pd

STARTS = ["2015-01-01", "2015-02-20", "2016-02-25", "2015-12-20", "2016-12-28", "2019-10-30", "2024-02-27", "2023-06-15",
          "2020-03-01", "2099-12-25", "2016-12-30"]
SOLVERS = ["glpk", "glpk-edge", "lpsolve"]


def pick(rng, weighted):
    """rng.choices over a dict name->weight (zero weights allowed)."""
    names = list(weighted)
    return rng.choices(names, [weighted[n] for n in names])[0]


class Gen:
    """Builds one document.  Feature weights are given by keyword; see DEFAULT."""
    DEFAULT = dict(
        nsteps=(4, 14), deltas={1: 6, 7: 2, 5: 1, 30: 1, "M": 0}, scenarios={0: 3, 1: 4, 2: 2}, scen_size=(2, 4),
        slices=.0, combos=.0,
        n_sources=(1, 4), n_mid=(1, 6), n_outputs=(1, 3),
        mid={"link": 6, "storage": 5, "piecewiselink": 2, "losslink": 2, "delaynode": 2, "breaklink": 2, "multisplitlink": 2,
             "rivergauge": 1, "riversplit": 1, "riversplitwithgauge": 1, "river": 1, "reservoir": 1},
        catchment=.4, agg=(0, 2), agg_factors=.4, virtual=(0, 2), virtual_kinds={"virtualstorage": 3, "annualvirtualstorage": 2,
        "seasonalvirtualstorage": 1, "monthlyvirtualstorage": 1, "rollingvirtualstorage": 2}, aggstorage=.3,
        par=.45, state_par=.3, named=.3, depth=2, negcost=.6, minflow=.05, varmax=.2, minvol=.4, slots=.25, cross=.15, inline=0,
        stack=False, infeasible=False, param_factors=.4, exo_kinds=None, vparmax=0, vneg=0, names=None)

    def __init__(self, rng, **kw):
        self.rng = rng
        self.f = dict(self.DEFAULT)
        self.f.update(kw)
        self.params = {}
        self.n_par = 0
        self.nodes = []
        self.inlines = set()
        self.edges = []
        self.scen = []
        self.storages = []
        self.recorders = {}
        self.used_names = set()

    # ------------------------------------------------------------ primitives
    def name(self, stem):
        """Names are shuffled so that alphabetical order is not creation order."""
        while True:
            n = f"{self.rng.choice('abcdefghkmnpqrstuvwxyz')}{self.rng.randrange(100)}{stem}"
            if n not in self.used_names:
                self.used_names.add(n)
                return n

    def num(self, lo, hi):
        r = self.rng.random()
        if r < .5:
            a, b = int(-(-lo // 1)), int(hi // 1)
            return float(self.rng.randint(a, b)) if b >= a else round(lo, 3)
        if r < .6:
            return float(self.rng.choice([lo, hi]))
        return round(self.rng.uniform(lo, hi), self.rng.choice([1, 2, 4]))

    def const(self, lo, hi):
        return {"type": "constant", "value": self.num(lo, hi)}

    def nums(self, n, lo, hi):
        return [self.num(lo, hi) for _ in range(n)]

    def chance(self, p):
        return self.rng.random() < p

    # ------------------------------------------------------------ parameters
    def value(self, lo, hi, state=True, par=None):
        """A number, an inline parameter or the name of a parameter, with values within [lo, hi]."""
        if not self.chance(self.f["par"] if par is None else par):
            return self.num(lo, hi)
        return self.param(lo, hi, state)

    def param(self, lo, hi, state=True, depth=0):
        named = [k for k, (a, b, st) in self.prange.items() if a >= lo and b <= hi and (state or not st)]
        if named and self.chance(.25):
            return self.rng.choice(named)
        d, st = self.make(lo, hi, state, depth)
        if self.chance(self.f["named"]):
            n = self.name("p")
            self.params[n] = d
            self.prange[n] = (lo, hi, st)
            return n
        return d

    prange = None

    def make(self, lo, hi, state, depth):
        rng = self.rng
        if state and self.storages and self.chance(self.f["state_par"]):
            return self.make_state(lo, hi, depth), True
        kinds = {"constant": 2, "monthlyprofile": 3, "dailyprofile": 2, "weeklyprofile": 1, "arrayindexed": 3}
        if self.scen:
            kinds.update({"constantscenario": 4, "arrayindexedscenario": 3, "scenariomonthlyprofile": 2})
        if depth < self.f["depth"]:
            kinds.update({"aggregated": 3, "min": 1, "max": 1})
        if self.f["exo_kinds"]:
            kinds = {k: v for k, v in kinds.items() if k in self.f["exo_kinds"]} or {"constant": 1}
        k = pick(rng, kinds)
        if k == "constant":
            return {"type": "constant", "value": self.num(lo, hi)}, False
        if k == "monthlyprofile":
            return {"type": rng.choice(["monthlyprofile", "MonthlyProfileParameter"]), "values": self.nums(12, lo, hi)}, False
        if k == "dailyprofile":
            return {"type": "dailyprofile", "values": self.nums(366, lo, hi)}, False
        if k == "weeklyprofile":
            return {"type": "weeklyprofile", "values": self.nums(52, lo, hi)}, False
        if k == "arrayindexed":
            return {"type": "arrayindexed", "values": self.nums(self.nsteps, lo, hi)}, False
        if k in ("constantscenario", "arrayindexedscenario", "scenariomonthlyprofile"):
            s = rng.choice(self.scen)
            if k == "constantscenario":
                return {"type": k, "scenario": s["name"], "values": self.nums(s["size"], lo, hi)}, False
            if k == "arrayindexedscenario":
                return {"type": k, "scenario": s["name"], "values": [self.nums(s["size"], lo, hi) for _ in range(self.nsteps)]}, False
            return {"type": k, "scenario": s["name"], "values": [self.nums(12, lo, hi) for _ in range(s["size"])]}, False
        if k in ("min", "max"):
            p = self.param(lo, hi, state, depth + 1)
            return {"type": k, "parameter": p, "threshold": self.num(lo, hi)}, True
        n = rng.randint(1, 4)
        fn = rng.choice(["sum", "min", "max", "mean", "median"])
        if fn == "sum":
            ps = [self.param(lo / n, hi / n, state, depth + 1) for _ in range(n)]
        else:
            ps = [self.param(lo, hi, state, depth + 1) for _ in range(n)]
        return {"type": "aggregated", "agg_func": fn, "parameters": ps}, True

    def make_state(self, lo, hi, depth):
        rng = self.rng
        s = rng.choice(self.storages)
        k = rng.choice(["controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", "storagethreshold", "indexed"])
        if k == "storagethreshold":
            return {"type": "storagethreshold", "storage_node": s, "threshold": self.num(0, 60), "predicate": rng.choice(["<", ">", "LE", "GE"]),
                    "values": self.nums(2, lo, hi)}
        n = rng.randint(1, 3)
        cc = sorted([round(rng.uniform(0, 1), rng.choice([1, 2])) for _ in range(n)], reverse=True)
        if k == "controlcurve":
            d = {"type": "controlcurve", "storage_node": s, "control_curves": cc}
            if self.chance(.5):
                d["values"] = self.nums(n + 1, lo, hi)
            else:
                d["parameters"] = [self.param(lo, hi, True, depth + 1) if self.chance(.4) else self.const(lo, hi) for _ in range(n + 1)]
            return d
        if k == "controlcurveinterpolated":
            cc = [min(max(c, .05), .95) for c in cc]
            cc = sorted(set(cc), reverse=True)
            return {"type": k, "storage_node": s, "control_curves": cc, "values": self.nums(len(cc) + 2, lo, hi)}
        if k == "controlcurvepiecewiseinterpolated":
            cc = sorted(set(min(max(c, .05), .95) for c in cc), reverse=True)
            return {"type": k, "storage_node": s, "control_curves": cc, "values": [self.nums(2, lo, hi) for _ in range(len(cc) + 1)], "minimum": 0.0,
                    "maximum": 1.0}
        return {"type": "indexedarray", "index_parameter": {"type": "controlcurveindex", "storage_node": s, "control_curves": cc},
                "params": [self.param(lo, hi, True, depth + 1) if self.chance(.4) else self.const(lo, hi) for _ in range(n + 1)]}

    # ------------------------------------------------------------ structure
    def calendar(self):
        rng, f = self.rng, self.f
        self.delta = pick(rng, f["deltas"])
        self.nsteps = rng.randint(*f["nsteps"])
        start = pd.Timestamp(rng.choice(STARTS)) + pd.Timedelta(days=rng.randrange(0, 12))
        if self.delta == "M":
            start = start.replace(day=1)
            end = start + pd.DateOffset(months=self.nsteps - 1)
        else:
            end = start + pd.Timedelta(days=self.delta * (self.nsteps - 1) + rng.randrange(self.delta))
        self.start, self.end = start, end
        return {"start": start.strftime("%Y-%m-%d"), "end": end.strftime("%Y-%m-%d"), "timestep": self.delta}

    def scenarios(self):
        rng, f = self.rng, self.f
        n = pick(rng, f["scenarios"])
        out = []
        for i in range(n):
            s = {"name": self.name("s"), "size": rng.randint(*f["scen_size"])}
            if self.chance(f["slices"]):
                a = rng.randrange(s["size"])
                b = rng.randint(a + 1, s["size"])
                s["slice"] = [a, b, rng.choice([None, 1, 2])]
            if self.chance(.3):
                s["ensemble_names"] = [f"m{j}" for j in range(s["size"])]
            out.append(s)
        self.scen = out
        return out

    def cost(self):
        r = self.rng.random()
        if r < .35:
            return None
        if r < .35 + .4 * (1 - self.f["par"]):
            return self.num(-20, 20)
        return self.value(-20, 20)

    def put(self, d, **kw):
        for k, v in kw.items():
            if v is not None:
                d[k] = v
        self.nodes.append(d)
        return d["name"]

    def storage(self, kind):
        rng, f = self.rng, self.f
        n = self.name("st")
        mx = self.num(20, 200)
        mn = self.num(0, 15) if self.chance(f["minvol"]) else 0.0
        d = {"name": n, "type": kind}
        # not yet usable by its own parameters through self.storages
        if self.chance(f["varmax"]):
            d["max_volume"] = self.value(60, 200, state=False, par=1.0)
            v = self.num(mn, 60)
            d["initial_volume"] = v
            d["initial_volume_pc"] = round(v / 100, 3)
        else:
            d["max_volume"] = mx
            if self.chance(.5):
                d["initial_volume"] = self.num(mn, mx)
            else:
                d["initial_volume_pc"] = rng.choice([0.0, 1.0, .5, round(rng.uniform(.3, 1), 3)])
        if mn:
            d["min_volume"] = self.value(0, mn, state=False) if self.chance(.3) else mn
        if kind == "reservoir" and self.chance(.5):
            d["above_curve_cost"] = self.num(-5, 5)
            d["control_curve"] = self.num(0.1, .9)
            d["cost"] = self.num(-20, 0)
        else:
            c = self.cost()
            if c is not None:
                d["cost"] = c
        nin = nout = 1
        if kind == "storage" and self.chance(f["slots"]):
            nin, nout = rng.randint(1, 3), rng.randint(1, 3)
            d["inputs"], d["outputs"] = nin, nout
        self.put(d)
        self.storages.append(n)
        return n, nin, nout

    def mid(self, kind):
        """Returns (name, in-ports, out-ports); a port is a slot identifier or None."""
        rng, f = self.rng, self.f
        if kind in ("storage", "reservoir"):
            n, nin, nout = self.storage(kind)
            return n, ([None] if nout == 1 else list(range(nout))), ([None] if nin == 1 else list(range(nin)))
        n = self.name("n")
        if kind in ("link", "river"):
            mx = self.value(5, 60) if self.chance(.5) else None
            mn = self.value(0, 2) if self.chance(f["minflow"]) else None
            self.put({"name": n, "type": kind}, max_flow=mx, min_flow=mn, cost=self.cost())
            return n, [None], [None]
        if kind == "breaklink":
            self.put({"name": n, "type": kind}, max_flow=self.value(5, 60) if self.chance(.5) else None, cost=self.cost())
            return n, [None], [None]
        if kind == "losslink":
            lt = rng.choice(["net", "gross"])
            lf = rng.choice([0.0, .1, .25, .5, round(rng.uniform(.01, .9), 3)]) if lt == "gross" else rng.choice([0.0, .1, 1.0, round(rng.uniform(.01, 2), 3)])
            if lt == "net" and self.chance(f["param_factors"]) and not self.f.get("lpsafe"):
                lf = self.param(.05, .8, state=False)
            if lt == "gross" and self.chance(.1):
                lf = 1.0
            self.put({"name": n, "type": kind, "loss_factor": lf, "loss_factor_type": lt}, max_flow=self.value(5, 60) if self.chance(.5) else None,
                     cost=self.cost())
            return n, [None], [None]
        if kind == "piecewiselink":
            k = rng.randint(1, 4)
            self.put({"name": n, "type": kind, "nsteps": k, "costs": [self.value(-15, 15) for _ in range(k)],
                      "max_flows": [self.value(1, 15) if i < k - 1 or self.chance(.5) else None for i in range(k)]}
                     if True else None)
            d = self.nodes[-1]
            if d["max_flows"][-1] is None:
                d["max_flows"][-1] = self.num(20, 60)
            return n, [None], [None]
        if kind == "rivergauge":
            self.put({"name": n, "type": kind}, mrf=self.value(1, 15), mrf_cost=self.value(-30, -5), cost=self.cost())
            return n, [None], [None]
        if kind == "delaynode":
            d = {"name": n, "type": kind}
            k = rng.randint(1, 4)
            if self.delta != "M" and self.chance(.4):
                d["days"] = k * self.delta
            else:
                d["timesteps"] = k
            if self.chance(.5):
                d["initial_flow"] = self.num(0, 10)
            self.put(d)
            return n, [None], [None]
        if kind in ("multisplitlink", "riversplit"):
            ex = rng.randint(1, 2)
            k = rng.randint(1, 2)
            d = {"name": n, "type": kind, "nsteps": k}
            if kind == "riversplit":
                d["nsteps"] = k = 1
            else:
                d["extra_slots"] = ex
                d["costs"] = [self.num(-15, 15) for _ in range(k)]
                d["max_flows"] = [self.num(1, 15) if i < k - 1 else self.num(10, 60) for i in range(k)]
            if kind == "riversplit" or self.chance(.7):
                d["factors"] = [round(rng.uniform(.2, 3), 2) for _ in range(ex + 1)]
                if kind == "multisplitlink" and ex == 2 and self.chance(.3):
                    d["factors"][rng.randint(1, 2)] = None
            if self.chance(.6):
                d["slot_names"] = ["main", "x1", "x2"][:ex + 1]
            self.put(d)
            return n, [None], d.get("slot_names", list(range(ex + 1)))
        if kind == "riversplitwithgauge":
            d = {"name": n, "type": kind, "factors": [round(rng.uniform(.2, 3), 2) for _ in range(2)], "slot_names": ["river", "abs"]}
            self.put(d, mrf=self.value(1, 15), mrf_cost=self.value(-30, -5), cost=self.cost())
            return n, [None], ["river", "abs"]
        raise KeyError(kind)

    def node(self, name):
        return next(n for n in self.nodes if n["name"] == name)

    def edge(self, a, b, fs=None, ts=None):
        e = [a, b] if fs is None and ts is None else [a, b, fs, ts]
        if e not in self.edges and not any(x[:2] == e[:2] and x[2:] == e[2:] for x in self.edges):
            self.edges.append(e)

    def build(self):
        rng, f = self.rng, self.f
        self.prange = {}
        ts = self.calendar()
        scen = self.scenarios()
        flows = []  # names of simple (non compound) flow nodes that groups may refer to
        # storages first so that parameters may refer to them; the graph order is fixed separately
        n_src, n_mid, n_out = (rng.randint(*f[k]) for k in ("n_sources", "n_mid", "n_outputs"))
        kinds = [pick(rng, f["mid"]) for _ in range(n_mid)]
        mids = {}
        for i in sorted(range(n_mid), key=lambda i: kinds[i] not in ("storage", "reservoir")):
            mids[i] = self.mid(kinds[i])
        spill = self.name("spill")
        need_spill = []
        sources = []
        for _ in range(n_src):
            n = self.name("i")
            if self.chance(f["catchment"]):
                self.put({"name": n, "type": rng.choice(["catchment", "Catchment", "discharge"]), "flow": self.value(0, 30, state=False)}, cost=self.cost())
                need_spill.append((n, None))
            else:
                self.put({"name": n, "type": rng.choice(["input", "Input"]), "max_flow": self.value(0, 40),
                          }, cost=self.cost(), min_flow=None)
                flows.append(n)
            sources.append(n)
        outs = []
        for _ in range(n_out):
            n = self.name("o")
            mx = self.value(0, 30)
            self.put({"name": n, "type": rng.choice(["output", "Output"]), "max_flow": mx}, cost=self.value(-50, -1) if self.chance(.85) else self.cost(),
                     min_flow=self.value(0, 2) if self.chance(f["minflow"]) else None)
            outs.append(n)
            flows.append(n)
        # edges along a layered order: sources -> mids in order -> outputs
        for i in range(n_mid):
            n, ins, os_ = mids[i]
            for p in ins:
                c = rng.choice(["s"] * 2 + list(range(i)))
                if c == "s":
                    self.edge(rng.choice(sources), n, None, p)
                else:
                    m = mids[c]
                    self.edge(m[0], n, rng.choice(m[2]), p)
            if kinds[i] == "delaynode":
                need_spill.append((n, None))
            if kinds[i] in ("link", "river", "losslink", "breaklink") and kinds[i] in ("link", "river"):
                flows.append(n)
        has_out = {(e[0], e[2] if len(e) > 2 else None) for e in self.edges}
        for i in range(n_mid):
            n, ins, os_ = mids[i]
            for p in os_:
                if (n, p) not in has_out or self.chance(.35):
                    later = [j for j in range(i + 1, n_mid)]
                    if later and self.chance(.4):
                        m = mids[rng.choice(later)]
                        self.edge(n, m[0], p, rng.choice(m[1]))
                    else:
                        self.edge(n, rng.choice(outs), p, None)
        used = {e[0] for e in self.edges}
        for s in sources:
            if s not in used or self.chance(.25):
                if self.chance(.5):
                    m = mids[rng.randrange(n_mid)]
                    self.edge(s, m[0], None, rng.choice(m[1]))
                else:
                    self.edge(s, rng.choice(outs))
        fed = {e[1] for e in self.edges}
        for o in outs:
            if o not in fed:
                self.edge(rng.choice(sources), o)
        if need_spill:
            self.put({"name": spill, "type": "output"}, cost=self.num(0, 30) if self.chance(.5) else None)
            for n, p in need_spill:
                self.edge(n, spill, p)
        if self.chance(f["inline"]):
            n = self.name("dis")
            e = rng.choice(self.edges)
            if self.node(e[1])["type"].lower() not in ("catchment",) and e[0] not in sources or len(self.edges) > 3:
                self.put({"name": n, "type": "discharge", "flow": self.value(0, 5, state=False)}, cost=self.cost())
                self.edges.remove(e)
                self.edges += [[e[0], n] + ([e[2], None] if len(e) > 2 else []), [n, e[1]] + ([None, e[3]] if len(e) > 2 else [])]
                if not need_spill:
                    self.put({"name": spill, "type": "output"})
                self.edge(n, spill)
                need_spill.append((n, None))
                self.inlines.add(n)
                flows.append(n)
        if self.chance(f["cross"]):
            self.cross_domain(outs)
        self.groups(flows)
        self.virtuals(flows)
        if len(self.storages) and self.chance(f["aggstorage"]):
            k = rng.randint(1, len(self.storages))
            self.put({"name": self.name("as"), "type": "aggregatedstorage", "storage_nodes": rng.sample(self.storages, k)})
        doc = {"metadata": {"title": "generated", "minimum_version": "0.1"}, "timestepper": ts}
        if scen:
            doc["scenarios"] = scen
        if f["combos"] and scen and len(scen) > 1 and self.chance(f["combos"]):
            for s in scen:
                s.pop("slice", None)
            allc = [[]]
            for s in scen:
                allc = [c + [j] for c in allc for j in range(s["size"])]
            doc["scenario_combinations"] = rng.sample(allc, rng.randint(1, min(5, len(allc))))
        rng.shuffle(self.nodes)
        rng.shuffle(self.edges)
        doc["nodes"], doc["edges"] = self.nodes, self.edges
        doc["parameters"] = dict(rng.sample(list(self.params.items()), len(self.params)))
        if self.recorders:
            doc["recorders"] = self.recorders
        self.doc = doc
        return doc

    def cross_domain(self, outs):
        """An output of the main network feeding an input of a second domain with a unit conversion."""
        rng = self.rng
        o = rng.choice(outs)
        i, o2 = self.name("xi"), self.name("xo")
        self.put({"name": i, "type": "input", "domain": "other", "conversion_factor": rng.choice([1.0, .5, 2.0, 10.0, .25])}, cost=self.cost())
        self.put({"name": o2, "type": "output", "domain": "other", "max_flow": self.value(1, 30), "cost": self.num(-50, -5)})
        self.edge(o, i)
        self.edge(i, o2)

    def groups(self, flows):
        rng, f = self.rng, self.f
        for _ in range(rng.randint(*f["agg"])):
            if len(flows) < 2:
                return
            ms = rng.sample(flows, rng.randint(2, min(3, len(flows))))
            d = {"name": self.name("ag"), "type": "aggregatednode", "nodes": ms}
            if self.chance(f["agg_factors"]) and not self.share_path(ms):
                d["factors"] = [round(rng.uniform(.3, 3), 2) for _ in ms]
                if self.chance(f["param_factors"]) and not f.get("lpsafe"):
                    d["factors"][rng.randrange(len(ms))] = self.param(.3, 3, state=False)
            if "factors" not in d or self.chance(.3):
                d["max_flow"] = self.value(2, 50)
                if self.chance(f["minflow"]):
                    d["min_flow"] = self.num(0, 2)
                if self.chance(.4):
                    d["flow_weights"] = [round(rng.uniform(.2, 3), 2) for _ in ms]
            self.put(d)

    def share_path(self, ms):
        """Whether water can pass through two of the nodes on one route (pywr documents ratios of such nodes as unsupported)."""
        adj = {}
        for e in self.edges:
            adj.setdefault(e[0], set()).add(e[1])
        for m in ms:
            seen, todo = set(), [m]
            while todo:
                for v in adj.get(todo.pop(), ()):
                    if v not in seen:
                        seen.add(v)
                        todo.append(v)
            # an inline input only carries the flow that starts at it
            if seen & (set(ms) - {m} - self.inlines):
                return True
        return False

    def virtuals(self, flows):
        rng, f = self.rng, self.f
        for _ in range(rng.randint(*f["virtual"])):
            if not flows:
                return
            kind = pick(rng, f["virtual_kinds"])
            ms = rng.sample(flows, rng.randint(1, min(3, len(flows))))
            n = self.name("vs")
            mx = self.num(20, 400)
            d = {"name": n, "type": kind, "nodes": ms, "max_volume": mx}
            if self.chance(f["vparmax"]):
                d["max_volume"] = self.make(20, 400, False, 9)[0]
            if self.chance(.6):
                d["factors"] = [round(rng.uniform(.2, 2), 2) for _ in ms]
            if f["vneg"] and self.chance(f["vneg"]):  # some water is put back
                d["factors"] = [round(rng.choice([-1, -1, 1]) * rng.uniform(.2, 2), 2) for _ in ms]
            if self.chance(.3):
                d["min_volume"] = self.num(0, 5)
            if self.chance(.5):
                d["initial_volume"] = self.num(10, mx)
            else:
                d["initial_volume_pc"] = rng.choice([1.0, .5, .9])
            if not isinstance(d["max_volume"], float):
                d["initial_volume"], d["initial_volume_pc"] = self.num(10, 200), rng.choice([1.0, .5, .9])
            self.vkind(kind, d)
            self.put(d)
            if self.chance(.4):
                self.storages.append(n)

    def vkind(self, kind, d):
        rng = self.rng
        mid = self.start + (self.end - self.start) * rng.random()
        if kind == "rollingvirtualstorage":
            k = rng.randint(2, 5)
            if self.delta != "M" and self.chance(.4):
                d["days"] = k * self.delta + rng.randrange(self.delta)
            else:
                d["timesteps"] = k
            if isinstance(d["max_volume"], float):
                d.pop("initial_volume_pc", None)
                d["initial_volume"] = d["max_volume"] if self.chance(.5) else self.num(d["max_volume"] / 2, d["max_volume"])
                if d["initial_volume"] == 0.0:
                    d["initial_volume"] = d["max_volume"]
                if self.chance(.2):  # nothing left at the start, or a fraction
                    d.pop("initial_volume")
                    k = rng.random()
                    if k < .3:
                        d["initial_volume"] = 0.0
                    elif k < .8:
                        d["initial_volume_pc"] = rng.choice([0.0, .5, .8, 1.0])
        elif kind == "monthlyvirtualstorage":
            d["months"] = rng.randint(1, 3)
            if self.chance(.5):
                d["initial_months"] = rng.randrange(d["months"] + 1) if self.chance(.3) else rng.randrange(d["months"])
            d["reset_to_initial_volume"] = self.chance(.5)
        elif kind in ("annualvirtualstorage", "seasonalvirtualstorage"):
            near = mid if self.chance(.7) else self.start
            d["reset_day"], d["reset_month"] = near.day, near.month
            d["reset_to_initial_volume"] = self.chance(.5)
            if kind == "seasonalvirtualstorage":
                e = near + pd.Timedelta(days=rng.randrange(-40, 60))
                d["end_day"], d["end_month"] = e.day, e.month


def model_doc(rng, **kw):
    g = Gen(rng, **kw)
    g.build()
    return g


def clone(doc):
    return copy.deepcopy(doc)
