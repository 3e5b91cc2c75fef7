"""Adds many parameters and recorders of different kinds, most of them stateful, to a generated document."""
import datetime

SIMPLE = ("link", "input", "output", "river", "catchment", "discharge")
STORE = ("storage", "reservoir")
VIRT = ("virtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage", "rollingvirtualstorage")

PARAMS = ["rollingmeanflownode", "flow", "flowdelay", "deficit", "storage", "storagethreshold", "nodethreshold", "parameterthreshold", "recorderthreshold",
          "currentyearthreshold", "currentordinaldaythreshold", "annuallicense", "annualexponentiallicense", "annualhyperbolalicense", "storagelicense",
          "harmonic", "rbf", "drawdown", "discount", "monthlyinterp", "piecewiseintegral", "interpolated", "interpolatedvolume", "interpolatedflow",
          "polynomial1dpar", "polynomial1dsto", "polynomial2d", "controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", "controlcurveindex",
          "indexedarray", "aggregated", "aggregatedindex", "division", "negative", "negativemax", "negativemin", "min", "max", "offset", "scaled", "multithreshold",
          "multiparthreshold", "constantscenario", "constantscenarioindex", "arrayindexedscenario", "arrayindexedscenariomonthlyfactors", "scenariodaily",
          "scenarioweekly", "scenariomonthly", "scenariowrapper", "binarystep", "rectifier", "logistic", "daily", "weekly", "monthly", "arrayindexed", "hydropowertarget"]
FRAMES = ["dataframe"] * 3  # not for models whose calendar is changed
INDEX = {"storagethreshold", "nodethreshold", "parameterthreshold", "recorderthreshold", "currentyearthreshold", "currentordinaldaythreshold", "controlcurveindex",
         "aggregatedindex", "multithreshold", "multiparthreshold", "constantscenarioindex"}
SCEN = {"constantscenario", "constantscenarioindex", "arrayindexedscenario", "arrayindexedscenariomonthlyfactors", "scenariodaily", "scenarioweekly", "scenariomonthly",
        "scenariowrapper"}
RECS = ["numpyarraynode", "numpyarraynodedeficit", "numpyarraynodesuppliedratio", "numpyarraynodecurtailmentratio", "numpyarraynodecost", "flowdurationcurve",
        "seasonalflowdurationcurve", "numpyarraystorage", "storagedurationcurve", "numpyarrayparameter", "numpyarraydailyprofileparameter", "numpyarrayindexparameter",
        "rollingwindowparameter", "rollingmeanflownode", "totaldeficitnode", "totalflownode", "meanflownode", "deficitfrequencynode", "minimumvolumestorage",
        "minimumthresholdvolumestorage", "timestepcountindexparameter", "annualcountindexthreshold", "annualtotalflow", "annualcountindexparameter", "totalparameter",
        "meanparameter", "event", "eventpar", "numpyarraynormalisedstorage", "aggregated", "flowdurationcurvedeviation"]
NOWARN = ("warnings",)


class Rich:
    def __init__(self, g, params=6, recs=6, kinds=None, reckinds=None, use=.5, skip=()):
        self.g, self.rng, self.doc = g, g.rng, g.doc
        self.use = use
        self.made, self.index = [], []
        self.links = []
        self.user = []
        self.nodes = [n["name"] for n in self.doc["nodes"] if n["type"].lower() in SIMPLE]
        self.limited = [n["name"] for n in self.doc["nodes"] if n["type"].lower() in ("input", "output", "link") and n.get("max_flow") is not None]
        self.stores = [n["name"] for n in self.doc["nodes"] if n["type"].lower() in STORE]
        self.volumes = self.stores + [n["name"] for n in self.doc["nodes"] if n["type"].lower() in VIRT + ("aggregatedstorage",)]
        self.recs = {}
        self.newparams = {}
        ks = [k for k in (kinds or PARAMS) if k not in skip]
        for _ in range(params):
            self.add(self.rng.choice(ks))
        self.doc["parameters"].update(self.newparams)
        for _ in range(recs):
            self.rec(self.rng.choice(reckinds or RECS))
        if self.recs:
            self.doc.setdefault("recorders", {}).update(self.recs)
        self.attach()
        nozero(self.newparams)
        nozero(self.doc["nodes"])

    # ----------------------------------------------------------- helpers
    def num(self, lo, hi):
        return self.g.num(lo, hi)

    def nums(self, n, lo, hi):
        return self.g.nums(n, lo, hi)

    def ref(self, depth=0):
        """A parameter: the name of one, or an inline definition."""
        rng = self.rng
        if self.made and rng.random() < .6:
            return rng.choice(self.made)
        if rng.random() < .3:
            return self.name_for(self.g.make(0, 20, False, 9)[0])
        return self.g.make(0, 20, False, 9)[0]

    def iref(self):
        rng = self.rng
        if self.index and rng.random() < .6:
            return rng.choice(self.index)
        return self.make(rng.choice(["storagethreshold", "nodethreshold", "controlcurveindex", "parameterthreshold"]))

    def name_for(self, d):
        n = self.g.name("rp")
        self.newparams[n] = d
        return n

    def add(self, kind):
        d = self.make(kind)
        if d is None:
            return None
        n = self.name_for(d)
        self.made.append(n)
        if kind in INDEX:
            self.index.append(n)
        return n

    def thr(self, lo, hi):
        return self.num(lo, hi) if self.rng.random() < .6 else {"type": "constant", "value": self.num(lo, hi)} if self.rng.random() < .3 else self.ref() if self.rng.random() < .4 else self.g.make(lo, hi, False, 9)[0]

    def cond(self, d, lo, hi):
        rng = self.rng
        d["threshold"] = self.thr(lo, hi)
        d["predicate"] = rng.choice(["<", ">", "LE", "GE", "LT", "gt"])
        d["values"] = self.nums(2, 0, 20)
        if rng.random() < .3:
            d["ratchet"] = True
        return d

    def curves(self, n):
        rng = self.rng
        cc = sorted({round(rng.uniform(.05, .95), 2) for _ in range(n)}, reverse=True)
        return [c if rng.random() < .7 else {"type": "constant", "value": c} if rng.random() < .4 else self.curve(c) for c in cc]

    def curve(self, c):
        """A control curve that changes with time or with another parameter."""
        rng = self.rng
        d = {"type": "monthlyprofile", "values": [round(c * rng.uniform(.97, 1), 3) for _ in range(12)]} if rng.random() < .5 else \
            {"type": "arrayindexed", "values": [round(c * rng.uniform(.97, 1), 3) for _ in range(self.g.nsteps)]}
        if rng.random() < .3:
            d = {"type": "negative", "parameter": {"type": "negative", "parameter": d}}
        return self.name_for(d) if rng.random() < .5 else d

    def make(self, k):
        rng, g = self.rng, self.g
        T = g.nsteps
        node = rng.choice(self.nodes) if self.nodes else None
        store = rng.choice(self.stores) if self.stores else None
        vol = rng.choice(self.volumes) if self.volumes else None
        if k in SCEN and not g.scen:
            return None
        s = rng.choice(g.scen) if g.scen else None
        if k == "rollingmeanflownode":
            d = {"type": "RollingMeanFlowNode", "node": node, "initial_flow": self.num(0, 10)}
            if g.delta != "M" and rng.random() < .3:
                d["days"] = g.delta * rng.randint(1, 4)
            else:
                d["timesteps"] = rng.randint(1, 5)
            return d
        if k == "flow":
            return {"type": "flow", "node": node, "initial_value": self.num(0, 10)}
        if k == "flowdelay":
            d = {"type": "flowdelay", "node": node, "initial_flow": self.num(0, 10)}
            if g.delta != "M" and rng.random() < .3:
                d["days"] = g.delta * rng.randint(1, 4)
            else:
                d["timesteps"] = rng.randint(1, 5)
            return d
        if k == "deficit":
            return {"type": "deficit", "node": rng.choice(self.limited)} if self.limited else None
        if k == "storage":
            return {"type": "storage", "storage_node": vol, "use_proportional_volume": rng.random() < .5} if vol else None
        if k == "storagethreshold":
            return self.cond({"type": k, "storage_node": store}, 0, 100) if store else None
        if k == "nodethreshold":
            return self.cond({"type": k, "node": node}, 0, 20)
        if k == "parameterthreshold":
            return self.cond({"type": k, "parameter": self.ref()}, 0, 20)
        if k == "recorderthreshold":
            n = self.g.name("rec")
            self.recs[n] = {"type": "numpyarraynode", "node": node}
            d = self.cond({"type": k, "recorder": n}, 0, 20)
            if rng.random() < .5:
                d["initial_value"] = rng.randrange(2)
            return d
        if k == "currentyearthreshold":
            return self.cond({"type": k}, g.start.year, g.start.year + 1)
        if k == "currentordinaldaythreshold":
            return self.cond({"type": k}, g.start.toordinal(), g.start.toordinal() + 20)
        if k in ("annuallicense", "annualexponentiallicense", "annualhyperbolalicense", "storagelicense"):
            d = {"type": k, "node": node, "amount": self.num(50, 5000)}
            if k == "annualexponentiallicense":
                d["max_value"], d["k"] = self.num(1, 20), self.num(.5, 2)
            if k == "annualhyperbolalicense":
                d["value"] = self.num(1, 20)
            return d
        if k == "harmonic":
            n = rng.randint(1, 3)
            return {"type": "AnnualHarmonicSeries", "mean": self.num(5, 10), "amplitudes": self.nums(n, 0, 2), "phases": self.nums(n, 0, 6)}
        if k == "rbf":
            days = [1] + sorted(rng.sample(range(20, 350, 15), rng.randint(2, 5)))
            return {"type": "RbfProfile", "days_of_year": days, "values": self.nums(len(days), 0, 10), "min_value": 0.0}
        if k == "drawdown":
            return {"type": "UniformDrawdownProfile", "reset_day": rng.randint(1, 28), "reset_month": rng.randint(1, 12), "residual_days": rng.choice([0, 30])}
        if k == "discount":
            return {"type": "DiscountFactor", "rate": self.num(0, .2), "base_year": 2010}
        if k == "monthlyinterp":
            return {"type": "monthlyprofile", "values": self.nums(12, 0, 10), "interp_day": rng.choice(["first", "last"])}
        if k == "piecewiseintegral":
            return {"type": k, "parameter": self.ref(), "x": [3.0, 5.0, 15.0], "y": self.nums(3, 0, 5)}
        if k in ("interpolated", "interpolatedvolume", "interpolatedflow"):
            xs = [0.0, 3.0, 10.0, 40.0]
            ys = self.nums(4, 0, 10)
            # continuous, so that a rounding difference at an end makes none in the value
            d = {"type": k, "interp_kwargs": {"kind": "linear", "bounds_error": False, "fill_value": [ys[0], ys[-1]]}}
            if k == "interpolated":
                d.update(parameter=self.ref(), x=xs, y=ys)
            elif k == "interpolatedvolume":
                if not vol:
                    return None
                d.update(node=vol, volumes=xs, values=ys)
            else:
                d.update(node=node, flows=xs, values=ys)
            return d
        if k == "polynomial1dpar":
            return {"type": "polynomial1d", "coefficients": self.nums(rng.randint(1, 3), 0, 2), "parameter": self.ref(), "scale": .1, "offset": self.num(0, 1)}
        if k == "polynomial1dsto":
            return {"type": "polynomial1d", "coefficients": self.nums(rng.randint(1, 3), 0, 2), "storage_node": vol,
                    **rng.choice([{"use_proportional_volume": True}, {"scale": .01, "offset": .5}])} if vol else None
        if k == "polynomial2d":
            return {"type": "polynomial2dstorage", "coefficients": [self.nums(2, 0, 2), self.nums(2, 0, 1)], "storage_node": vol, "parameter": self.ref(),
                    "parameter_scale": .1, "parameter_offset": rng.choice([0.0, 1.0]), "storage_offset": rng.choice([0.0, .5]),
                    **rng.choice([{"use_proportional_volume": True}, {"storage_scale": .01}, {"use_proportional_volume": False, "storage_scale": .02}])} if vol else None
        if k.startswith("controlcurve"):
            if not store:
                return None
            cc = self.curves(rng.randint(1, 3))
            n = len(cc)
            d = {"type": k, "storage_node": rng.choice(self.volumes), "control_curves": cc}
            if k == "controlcurve":
                d["values"] = self.nums(n + 1, 0, 20)
                if rng.random() < .4:
                    d.pop("values")
                    d["parameters"] = [self.ref() for _ in range(n + 1)]
            elif k == "controlcurveinterpolated":
                d["values"] = self.nums(n + 2, 0, 20)
                if rng.random() < .4:
                    d.pop("values")
                    d["parameters"] = [self.ref() for _ in range(n + 2)]
            elif k == "controlcurvepiecewiseinterpolated":
                d["values"] = [self.nums(2, 0, 20) for _ in range(n + 1)]
            return d
        if k == "indexedarray":
            if not store:
                return None
            cc = self.curves(rng.randint(1, 3))
            return {"type": k, "index_parameter": {"type": "controlcurveindex", "storage_node": store, "control_curves": cc}, "params": [self.ref() for _ in range(len(cc) + 1)]}
        if k == "aggregated":
            return {"type": k, "agg_func": rng.choice(["sum", "min", "max", "mean", "product", "median"]), "parameters": [self.ref() for _ in range(rng.randint(1, 4))]}
        if k == "aggregatedindex":
            ps = [p for p in (self.iref() for _ in range(rng.randint(1, 3))) if p is not None]
            return {"type": k, "agg_func": rng.choice(["sum", "min", "max", "any", "all", "product"]), "parameters": ps} if ps else None
        if k == "division":
            return {"type": k, "numerator": self.ref(), "denominator": {"type": "max", "parameter": self.ref(), "threshold": .5}}
        if k in ("negative",):
            return {"type": k, "parameter": self.ref()}
        if k in ("negativemax", "negativemin", "min", "max"):
            return {"type": k, "parameter": self.ref(), "threshold": self.num(-10, 10)}
        if k == "offset":
            return {"type": k, "parameter": self.ref(), "offset": self.num(-5, 5)}
        if k == "scaled":
            return {"type": "scaledprofile", "scale": self.num(0, 2), "profile": self.ref()}
        if k == "multithreshold":
            return {"type": "multiplethresholdindex", "node": node, "thresholds": [self.thr(10, 20), self.thr(0, 9)]}
        if k == "multiparthreshold":
            return {"type": "multiplethresholdparameterindex", "parameter": self.ref(), "thresholds": [self.thr(10, 20), self.thr(0, 9)]}
        if k == "constantscenario":
            return {"type": k, "scenario": s["name"], "values": self.nums(s["size"], 0, 20)}
        if k == "constantscenarioindex":
            return {"type": k, "scenario": s["name"], "values": [rng.randrange(3) for _ in range(s["size"])]}
        if k == "arrayindexedscenario":
            return {"type": k, "scenario": s["name"], "values": [self.nums(s["size"], 0, 20) for _ in range(T)]}
        if k == "arrayindexedscenariomonthlyfactors":
            return {"type": k, "scenario": s["name"], "values": self.nums(T, 0, 10), "factors": [self.nums(12, 0, 2) for _ in range(s["size"])]}
        if k in ("scenariodaily", "scenarioweekly", "scenariomonthly"):
            m = {"scenariodaily": 366, "scenarioweekly": 52, "scenariomonthly": 12}[k]
            return {"type": k + "profile", "scenario": s["name"], "values": [self.nums(m, 0, 20) for _ in range(s["size"])]}
        if k == "scenariowrapper":
            return {"type": k, "scenario": s["name"], "parameters": [self.ref() for _ in range(s["size"])]}
        if k == "binarystep":
            return {"type": k, "value": self.num(-5, 5), "output": self.num(0, 20)}
        if k == "rectifier":
            return {"type": k, "value": self.num(-5, 5), "max_output": self.num(0, 20)}
        if k == "logistic":
            return {"type": k, "value": self.num(-5, 5), "growth_rate": self.num(0, 2), "max_output": self.num(0, 20)}
        if k == "daily":
            return {"type": "dailyprofile", "values": self.nums(366, 0, 20)}
        if k == "weekly":
            return {"type": "weeklyprofile", "values": self.nums(52, 0, 20)}
        if k == "monthly":
            return {"type": "monthlyprofile", "values": self.nums(12, 0, 20)}
        if k == "arrayindexed":
            return {"type": k, "values": self.nums(T, 0, 20)}
        if k == "dataframe":
            dates = [(g.start + datetime.timedelta(days=i)).strftime("%Y-%m-%d") for i in range(-4, (g.end - g.start).days + 40)]
            n = s["size"] if s and rng.random() < .5 else 1
            cols = [f"{'zyxwv'[i % 5]}{i}" for i in range(n)]
            d = {"type": k, "data": {c: dict(zip(dates, self.nums(len(dates), 0, 20))) for c in cols}, "parse_dates": True}
            if n > 1 or (s and s["size"] == 1 and rng.random() < .5):
                d["scenario"] = s["name"]
            elif rng.random() < .6:
                d["data"]["other"] = dict.fromkeys(dates, -1.0)
                d["column"] = cols[0]
            if rng.random() < .5:
                d["timestep_offset"] = rng.choice([-3, -2, -1, 1, 2, 3, 50])
            return d
        if k == "hydropowertarget":
            return {"type": k, "target": self.ref(), "water_elevation_parameter": self.ref(), "max_flow": {"type": "constant", "value": self.num(5, 20)} if rng.random() < .5 else {"type": "max", "parameter": self.ref(), "threshold": 0.0},
                    "min_flow": {"type": "constant", "value": 0.0} if rng.random() < .5 else {"type": "max", "parameter": self.ref(), "threshold": 0.0}, "turbine_elevation": self.num(0, 5), "efficiency": .8, "energy_unit_conversion": 1e-3}
        raise KeyError(k)

    def rec(self, k):
        rng = self.rng
        node = rng.choice(self.nodes)
        par = rng.choice(self.made) if self.made else None
        vol = rng.choice(self.volumes) if self.volumes else None
        ind = rng.choice(self.index) if self.index else None
        d = {"type": k, "agg_func": rng.choice(["sum", "min", "max", "mean", "median"])}
        t = {"temporal_agg_func": rng.choice(["sum", "min", "max", "mean", "median"])}
        if k in ("numpyarraynode", "totalflownode", "meanflownode"):
            d.update(node=node, factor=self.num(.1, 3))
            if k == "numpyarraynode":
                d.update(t)
        elif k in ("numpyarraynodedeficit", "numpyarraynodesuppliedratio", "numpyarraynodecurtailmentratio", "totaldeficitnode", "deficitfrequencynode"):
            if not self.limited:
                return
            d.update(node=rng.choice(self.limited))
        elif k == "numpyarraynodecost":
            d.update(node=node)
        elif k in ("flowdurationcurve", "seasonalflowdurationcurve", "flowdurationcurvedeviation"):
            d.update(node=node, percentiles=[10.0, 50.0, 90.0], **t)
            if k[0] == "s":
                d["months"] = [self.g.start.month, 7]
            if k.endswith("deviation"):
                d.update(lower_target_fdc=[1.0, 2.0, 3.0], upper_target_fdc=[2.0, 4.0, 8.0])
        elif k in ("numpyarraystorage", "storagedurationcurve", "minimumvolumestorage", "minimumthresholdvolumestorage"):
            if not vol:
                return
            d.update(node=vol)
            if k[0] == "s":
                d.update(percentiles=[10.0, 50.0, 90.0])
            if k == "numpyarraystorage":
                d["proportional"] = rng.random() < .5
            if "threshold" in k:
                d["threshold"] = self.num(0, 60)
        elif k == "numpyarraynormalisedstorage":
            if not self.stores:
                return
            d.update(node=rng.choice(self.stores), parameter={"type": "constant", "value": .5})
        elif k in ("numpyarrayparameter", "numpyarraydailyprofileparameter", "rollingwindowparameter", "totalparameter", "meanparameter"):
            if not par:
                return
            d.update(parameter=par)
            if k[0] == "r":
                d["window"] = rng.randint(1, 5)
                d["temporal_agg_func"] = "mean"
            if k == "totalparameter":
                d["integrate"] = rng.random() < .5
        elif k in ("numpyarrayindexparameter", "timestepcountindexparameter", "annualcountindexparameter", "annualcountindexthreshold"):
            if not ind:
                return
            d.update(parameter=ind)
            if k != "numpyarrayindexparameter":
                d["threshold"] = rng.randint(1, 2)
            if k == "annualcountindexthreshold":
                d["parameters"] = [d.pop("parameter")]
        elif k == "rollingmeanflownode":
            d = {"type": k, "node": node, "timesteps": rng.randint(1, 5)}
        elif k == "annualtotalflow":
            d.update(nodes=[node, rng.choice(self.nodes)], factors=self.nums(2, .5, 2))
        elif k in ("event", "eventpar"):
            if k == "eventpar" and not ind:
                return
            d = {"type": "event", "threshold": {"type": "nodethreshold" if 0 else "parameterthreshold", "parameter": {"type": "storage", "storage_node": vol}, "threshold": self.num(10, 80),
                                                "predicate": "<"} if vol else {"type": "parameterthreshold", "parameter": {"type": "flow", "node": node}, "threshold": 5.0, "predicate": ">"},
                 "minimum_event_length": rng.randint(1, 3)}
            if k == "eventpar":
                d["threshold"] = ind
        elif k == "aggregated":
            ok = [n for n, r in self.recs.items() if r["type"] in ("totalflownode", "meanflownode", "numpyarraynode", "totalparameter", "minimumvolumestorage")]
            if not ok:
                return
            d.update(recorders=rng.sample(ok, min(len(ok), 2)), recorder_agg_func=rng.choice(["sum", "max", "mean"]))
            d["agg_func"] = rng.choice(["sum", "min", "max", "mean"])
        n = self.g.name("rec")
        self.recs[n] = d
        return n

    def attach(self):
        """Lets some of the parameters drive the simulation, made non-negative and bounded."""
        rng = self.rng
        for n in self.doc["nodes"]:
            t = n["type"].lower()
            if t in ("link", "output", "input") and self.made and rng.random() < self.use and "min_flow" not in n:
                p = rng.choice(self.made)
                if rng.random() < .6:
                    n["max_flow"] = {"type": "min", "threshold": self.num(10, 60), "parameter": {"type": "max", "threshold": 0.0, "parameter": p}}
                else:
                    n["cost"] = {"type": "min", "threshold": 30.0, "parameter": {"type": "max", "threshold": -30.0, "parameter": p}}
                self.user.append((n["name"], p))


def nozero(x):
    """A threshold of zero would switch on a rounding difference of a flow of zero."""
    def fix(v):
        if isinstance(v, dict) and v.get("type") == "constant":
            v["value"] = v["value"] or .37
            return v
        return .37 if isinstance(v, (int, float)) and v == 0 else v

    if isinstance(x, dict):
        if "type" in x and ("threshold" in str(x["type"]).lower()):
            if "threshold" in x:
                x["threshold"] = fix(x["threshold"])
            if "thresholds" in x:
                x["thresholds"] = [fix(v) for v in x["thresholds"]]
    for v in x.values() if isinstance(x, dict) else x if isinstance(x, list) else ():
        if isinstance(v, (dict, list)):
            nozero(v)


def drop_ambiguous(doc):
    return doc
