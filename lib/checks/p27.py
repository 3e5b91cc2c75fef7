"""P27: a model edited through the public interface behaves like a model loaded from the document that describes its final form."""
import copy
import warnings

import networkx as nx
import numpy as np

from pywr import _core
from pywr.core import Scenario
from pywr.model import Model
from pywr.nodes import NodeMeta
from pywr.parameters import load_parameter
from pywr.recorders import load_recorder
from pv import gen, trace
from . import netcase, runcmp, settings

META = {
    "n": [1000, 12000], "budget": [60, 800],
    "min_events": {"edited models": 250, "edits": 2000, "comparisons": 700, "compared values": 200000, "edit:connect": 60, "edit:disconnect": 60,
                   "edit:add node": 60, "edit:delete node": 40, "edit:rename node": 60, "edit:rename component": 40, "edit:attribute": 200,
                   "edit:parameter": 100, "edit:inside a parameter": 60, "edit:calendar": 60, "edit:scenarios": 40, "edit:group": 60,
                   "edit:add recorder": 60, "changed settings": 150, "settings with an effect": 60, "edit:remove recorder": 20, "refused edits": 300, "broken and mended": 40},
    "rule": "distinct: solver and options, node types, the kinds of edits in their order",
    "assumptions": ["a parameter or recorder that refers to a removed node is removed by the user as well"],
}
KW = dict(nsteps=(3, 7), n_mid=(1, 4), n_sources=(1, 3), minflow=.04, vparmax=.2, named=.6, scen_size=(2, 3), slices=.15, combos=.15,
          deltas={1: 6, 7: 2, 5: 1, "M": 1}, agg=(0, 2), virtual=(0, 2))
RECS = ["numpyarraynode", "meanflownode", "totaldeficitnode", "numpyarraynodedeficit", "totalflownode"]
SRECS = ["numpyarraystorage", "minimumvolumestorage", "numpyarraynormalisedstorage"]


def lower(n):
    return n["type"].lower()


def rename(d, a, b):
    """Replaces the name a by b wherever it is a whole string (not as a type)."""
    if isinstance(d, dict):
        return {(b if k == a else k): (v if k == "type" else rename(v, a, b)) for k, v in d.items()}
    if isinstance(d, list):
        return [rename(x, a, b) for x in d]
    return b if isinstance(d, str) and d == a else d


def count(d, a):
    if isinstance(d, dict):
        return sum(count(v, a) for k, v in d.items() if k != "type")
    if isinstance(d, list):
        return sum(count(x, a) for x in d)
    return int(isinstance(d, str) and d == a)


class Refused(Exception):
    pass


class Editor:
    """Applies each edit to the live model and to the document."""

    def __init__(self, ctx, g, solver, args):
        self.ctx, self.rng, self.g, self.solver, self.args = ctx, ctx.rng, g, solver, args
        self.doc = copy.deepcopy(g.doc)
        self.doc.setdefault("recorders", {})
        self.model, self.mon = trace.monitored(g.doc, solver, params=True, costs=True, **args)
        self.done = []
        self.removed = []

    # ---------------------------------------------------------- helpers
    def fresh(self, doc):
        m, mon = trace.monitored(doc, self.solver, params=True, costs=True, **self.args)
        return m, mon, runcmp.run(m, mon)

    def valid(self, doc):
        """Whether a model can be built from the document (the edits are meant to be valid, unless they are to be refused)."""
        try:
            m = trace.load(doc, self.solver, **self.args)
            m.setup()
        except Exception:
            return False
        return True

    def node(self, name):
        return next(n for n in self.doc["nodes"] if n["name"] == name)

    def nodes(self, *types):
        return [n for n in self.doc["nodes"] if lower(n) in types]

    def new(self, lo, hi, kind=None):
        """A number or a parameter: (as the document has it, as the model has it)."""
        rng = self.rng
        r = rng.random()
        if kind == "number" or (kind is None and r < .4):
            v = self.g.num(lo, hi)
            return v, v
        before = set(self.g.params)
        d = self.g.param(lo, hi, state=True)
        for name in self.g.params:
            if name not in before:
                p = copy.deepcopy(self.g.params[name])
                self.doc["parameters"][name] = copy.deepcopy(p)
                p["name"] = name
                load_parameter(self.model, p)
        return d, load_parameter(self.model, copy.deepcopy(d))

    # ---------------------------------------------------------- edits (each returns a description or None)
    def attribute(self, kind="number"):
        rng, m = self.rng, self.model
        n = rng.choice(self.doc["nodes"])
        t, live = lower(n), m.nodes[n["name"]]
        opts = {"input": ["max_flow", "cost"], "output": ["max_flow", "cost", "min_flow"], "link": ["max_flow", "cost", "min_flow"],
                "river": ["max_flow", "cost", "min_flow"], "catchment": ["flow", "cost"], "discharge": ["flow", "cost"],
                "breaklink": ["max_flow", "cost", "min_flow"], "losslink": ["max_flow", "cost", "min_flow", "loss_factor", "loss_factor"],
                "piecewiselink": ["costs", "max_flows"], "multisplitlink": ["costs", "max_flows"], "rivergauge": ["mrf", "mrf_cost", "cost"],
                "riversplitwithgauge": ["mrf", "mrf_cost", "cost"], "storage": ["cost", "min_volume", "max_volume", "initial"],
                "aggregatednode": ["max_flow", "min_flow"], "virtualstorage": ["max_volume", "initial", "min_volume"],
                "annualvirtualstorage": ["max_volume", "initial", "reset", "min_volume"], "monthlyvirtualstorage": ["max_volume", "initial", "months"],
                "seasonalvirtualstorage": ["max_volume", "initial", "reset", "end"]}.get(t)
        if not opts:
            return None
        a = rng.choice(opts)
        if n.get("domain") and rng.random() < .5 and "conversion_factor" in n:
            v = rng.choice([.5, 1.0, 2.0, 4.0])
            n["conversion_factor"] = live.conversion_factor = v
            return f"{t}.conversion_factor"
        lps = self.solver == "lpsolve"
        if a in ("cost", "mrf_cost"):
            d, v = self.new(-20, 20, kind)
        elif a in ("max_flow", "flow", "mrf"):
            if rng.random() < .12 and a == "max_flow" and t != "input":
                d = v = None
                n.pop(a, None)
                setattr(live, a, None if t != "losslink" else None)
                return f"{t}.{a}=None"
            d, v = self.new(2, 40, kind)
        elif a == "min_flow":
            if rng.random() < .6:
                d = v = 0.0
            else:
                d, v = self.new(0, 1.5, kind)
        elif a == "loss_factor":
            gross = n["loss_factor_type"] == "gross"
            d = v = rng.choice([0.0, .1, .25, .5, 1.0, round(rng.uniform(.05, .9), 2)])
            if kind != "number" and not gross and not lps:
                d, v = self.new(.05, .8, kind)
        elif a == "costs":
            vs = [self.new(-15, 15, kind) for _ in n[a]]
            d, v = [x[0] for x in vs], [x[1] for x in vs]
        elif a == "max_flows":
            vs = [self.new(5, 40, kind) for _ in n[a]]
            d, v = [x[0] for x in vs], [x[1] for x in vs]
        elif a == "min_volume":
            d, v = self.new(0, 3, kind)
        elif a == "max_volume":
            if not isinstance(n[a], (int, float)):
                return None
            d = v = self.g.num(60, 300)
            if t == "storage" and kind != "number":
                d, v = self.new(60, 200, "parameter")
                if not self.stateless(d):
                    return "dropped"
                vol = self.g.num(5, 50)
                n["initial_volume"], n["initial_volume_pc"] = vol, round(vol / 100, 3)
                live.initial_volume, live.initial_volume_pc = vol, round(vol / 100, 3)
        elif a == "initial":
            if isinstance(n.get("max_volume"), (int, float)):
                if rng.random() < .5:
                    v = self.g.num(5, 60)
                    n["initial_volume"] = live.initial_volume = v
                    n.pop("initial_volume_pc", None)
                    live.initial_volume_pc = None
                else:
                    v = rng.choice([.2, .5, 1.0])
                    n["initial_volume_pc"] = live.initial_volume_pc = v
                    n.pop("initial_volume", None)
                    live.initial_volume = None
            else:
                v = self.g.num(5, 50)
                n["initial_volume"] = live.initial_volume = v
            return f"{t}.initial_volume"
        elif a in ("reset", "end"):
            day = self.g.start + (self.g.end - self.g.start) * rng.random()
            n[a + "_day"], n[a + "_month"] = day.day, day.month
            setattr(live, a + "_day", day.day)
            setattr(live, a + "_month", day.month)
            return f"{t}.{a}"
        elif a == "months":
            n["months"] = live.months = rng.randint(1, 3)
            n["initial_months"] = live.initial_months = 0
            return f"{t}.months"
        n[a] = d
        setattr(live, a, v)
        return f"{t}.{a}" + ("" if isinstance(d, (int, float)) else " (parameter)")

    def stateless(self, d):
        d = self.doc["parameters"].get(d, d) if isinstance(d, str) else d

        def walk(x):
            if isinstance(x, dict):
                return "storage_node" in x or any(walk(v) for v in x.values())
            if isinstance(x, list):
                return any(walk(v) for v in x)
            return isinstance(x, str) and x in self.doc["parameters"] and walk(self.doc["parameters"][x])
        return not walk(d)

    def parameter(self):
        return self.attribute(kind="parameter")

    def inside(self):
        """Changes the content of a named parameter."""
        rng, m = self.rng, self.model
        names = list(self.doc["parameters"])
        if not names:
            return None
        n = rng.choice(names)
        d, live = self.doc["parameters"][n], m.parameters[n]
        lo, hi, _ = self.g.prange[n]
        t = d["type"].lower().replace("parameter", "")
        if t == "constant":
            d["value"] = v = self.g.num(lo, hi)
            live.set_double_variables(np.array([v]))
        elif t in ("monthlyprofile",) and "interp_day" not in d:
            d["values"] = v = self.g.nums(12, lo, hi)
            live.set_double_variables(np.array(v))
        elif t in ("dailyprofile", "weeklyprofile"):
            return None
        elif t in ("min", "max"):
            d["threshold"] = live.threshold = self.g.num(lo, hi)
        elif t == "aggregated":
            if len(d["parameters"]) > 1 and rng.random() < .5 and d["agg_func"] != "sum":
                i = rng.randrange(len(d["parameters"]))
                live.remove(live.parameters[i])
                x = live_first(d["parameters"], i)
                d["parameters"].pop(x)
                t += " remove"
            elif d["agg_func"] != "sum":
                x, v = self.new(lo, hi, "parameter")
                if isinstance(x, str) and (x == n or self.reaches(x, n)):
                    return "dropped"
                d["parameters"].append(x)
                live.add(v)
                t += " add"
            else:
                f = rng.choice(["min", "max", "mean"])
                d["agg_func"] = live.agg_func = f
                t += " agg_func"
        elif t == "storagethreshold":
            d["threshold"] = live.threshold = self.g.num(0, 60)
        elif t in ("controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated"):
            if rng.random() < .5:
                cc = [(self.rng.uniform(.05, .95)) for _ in d["control_curves"]]
                cc = [round(c, 2) for c in sorted(cc, reverse=True)]
                if len(set(cc)) < len(cc):
                    return None
                d["control_curves"] = cc
                live.control_curves = cc
                t += " curves"
            elif "values" in d:
                if t == "controlcurvepiecewiseinterpolated":
                    d["values"] = [self.g.nums(2, lo, hi) for _ in d["values"]]
                else:
                    d["values"] = self.g.nums(len(d["values"]), lo, hi)
                try:
                    live.values = d["values"]
                except AttributeError:
                    return "dropped"
                t += " values"
            else:
                st = rng.choice([s["name"] for s in self.nodes("storage", "reservoir")] or [d["storage_node"]])
                d["storage_node"] = st
                live.storage_node = m.nodes[st]
                t += " node"
        else:
            return None
        return t

    def reaches(self, a, b, seen=None):
        """Whether the parameter a depends on b."""
        P = self.doc["parameters"]
        seen = seen if seen is not None else set()

        def walk(x):
            if isinstance(x, dict):
                return any(walk(v) for v in x.values())
            if isinstance(x, list):
                return any(walk(v) for v in x)
            if isinstance(x, str) and x in P and x not in seen:
                seen.add(x)
                return x == b or walk(P[x])
            return False
        return walk(P[a])

    def ports(self, n, out):
        t = lower(n)
        if t in ("storage", "reservoir"):
            k = n.get("outputs" if not out else "inputs", 1)
            return [None] if k == 1 else list(range(k))
        if out and t in ("multisplitlink", "riversplit", "riversplitwithgauge"):
            if "slot_names" in n:
                return n["slot_names"]
            return list(range(n.get("extra_slots", 1) + 1)) if t == "multisplitlink" else list(range(len(n["factors"])))
        return [None]

    def flowing(self, out):
        no = {"aggregatednode", "aggregatedstorage", "virtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage",
              "rollingvirtualstorage"}
        return [n for n in self.doc["nodes"] if lower(n) not in no and not n.get("domain") and not
                (lower(n) == "output" and out) and not (lower(n) in ("input", "catchment", "discharge") and not out)]

    def digraph(self, doc):
        G = nx.DiGraph()
        for e in doc["edges"]:
            G.add_edge(e[0], e[1])
        return G

    def connect(self):
        rng = self.rng
        a, b = rng.choice(self.flowing(True)), rng.choice(self.flowing(False))
        if a is b:
            return None
        e = [a["name"], b["name"], rng.choice(self.ports(a, True)), rng.choice(self.ports(b, False))]
        doc = copy.deepcopy(self.doc)
        if any((x + [None, None])[:4] == e for x in doc["edges"]):
            return None
        doc["edges"].append(e)
        if not nx.is_directed_acyclic_graph(self.digraph(doc)) or self.ratios(doc) or not self.valid(doc):
            return None
        self.live_connect(e)
        self.doc = doc
        return f"{lower(a)}->{lower(b)}"

    def ratios(self, doc):
        """Whether two members of a ratio group lie on one path (unsupported)."""
        G = self.digraph(doc)
        for n in doc["nodes"]:
            if "factors" in n and lower(n) == "aggregatednode":
                ms = [m for m in n["nodes"] if m in G]
                if any(x != y and nx.has_path(G, x, y) for x in ms for y in ms):
                    return True
        return False

    def live_connect(self, e):
        m = self.model
        m.nodes[e[0]].connect(m.nodes[e[1]], from_slot=e[2], to_slot=e[3])

    def live_disconnect(self, e, doc):
        """Removes one edge; True if it could be singled out."""
        m, rng = self.model, self.rng
        a, b = m.nodes[e[0]], m.nodes[e[1]]
        same = [x for x in doc["edges"] if x[:2] == e[:2]]
        if e[3] is not None and rng.random() < .5 and len({x[2] if len(x) > 2 else None for x in same}) == 1:
            a.disconnect(b, slot_name=e[3])
        else:
            if len(same) > 1:
                return False
            if e[3] is None and rng.random() < .2 and type(b).__name__ in ("Link", "Output", "River"):
                a.disconnect(b, all_slots=False)
            else:
                a.disconnect(b)
        return True

    def disconnect(self):
        rng = self.rng
        e = rng.choice(self.doc["edges"])
        full = (e + [None, None])[:4]
        doc = copy.deepcopy(self.doc)
        doc["edges"].remove(e)
        if not doc["edges"]:
            return None
        ok = self.valid(doc)
        if ok:
            if not self.live_disconnect(full, self.doc):
                return None
            self.doc = doc
            return "kept valid"
        if rng.random() < .6:
            return None
        # breaks the model: the run must say so, and mending it makes it whole again
        if not self.live_disconnect(full, self.doc):
            return None
        self.attempt("a model without a needed connection")
        self.live_connect(full)
        self.ctx.event("broken and mended")
        return "broken and mended"

    def attempt(self, what):
        try:
            self.model.run()
        except Exception:
            return
        self.ctx.violation("broken model runs", f"{what} was simulated: {self.done}")

    def add_node(self):
        rng, g, m = self.rng, self.g, self.model
        t = rng.choice(["output", "link", "input", "storage", "breaklink", "losslink", "piecewiselink", "rivergauge", "delaynode", "river",
                        "multisplitlink", "aggregatednode", "virtualstorage", "aggregatedstorage"])
        have = len(g.nodes)
        known = list(g.storages)
        if t in ("output", "input"):
            n = g.name("x")
            d = {"name": n, "type": t, "max_flow": g.num(1, 30), "cost": g.num(-30, 10)}
        elif t == "aggregatednode":
            ms = [x["name"] for x in self.nodes("input", "output", "link")]
            if len(ms) < 2:
                return None
            d = {"name": g.name("x"), "type": t, "nodes": rng.sample(ms, 2), "max_flow": g.num(5, 40)}
        elif t == "virtualstorage":
            ms = [x["name"] for x in self.nodes("input", "output", "link")]
            if not ms:
                return None
            k = rng.randint(1, min(3, len(ms)))
            d = {"name": g.name("x"), "type": t, "nodes": rng.sample(ms, k), "max_volume": g.num(20, 200), "initial_volume_pc": rng.choice([1.0, .5]),
                 "factors": [round(rng.uniform(.2, 2), 2) for _ in range(k)]}
        elif t == "aggregatedstorage":
            ms = [x["name"] for x in self.nodes("storage", "reservoir")]
            if not ms:
                return None
            d = {"name": g.name("x"), "type": t, "storage_nodes": rng.sample(ms, rng.randint(1, len(ms)))}
        else:
            before = set(g.params)
            save = g.f["par"]
            g.f["par"] = 0
            g.f["varmax"], vm = 0, g.f["varmax"]
            g.f["param_factors"], pf = 0, g.f["param_factors"]
            g.mid(t)
            g.f["par"], g.f["varmax"], g.f["param_factors"] = save, vm, pf
            d = copy.deepcopy(g.nodes[have])
            del g.nodes[have:]
            g.storages[:] = known
            assert set(g.params) == before
        doc = copy.deepcopy(self.doc)
        doc["nodes"].append(copy.deepcopy(d))
        new = []
        if t not in ("aggregatednode", "virtualstorage", "aggregatedstorage"):
            outs, ins = self.flowing(True), self.flowing(False)
            if t != "input":
                for p in self.ports(d, False):
                    a = rng.choice(outs)
                    new.append([a["name"], d["name"], rng.choice(self.ports(a, True)), p])
            if t != "output":
                for p in self.ports(d, True):
                    b = rng.choice(ins)
                    new.append([d["name"], b["name"], p, rng.choice(self.ports(b, False))])
            doc["edges"] += copy.deepcopy(new)
            if not nx.is_directed_acyclic_graph(self.digraph(doc)):
                return None
        if self.ratios(doc) or not self.valid(doc):
            return None
        self.live_add(copy.deepcopy(d))
        for e in new:
            self.live_connect(e)
        self.doc = doc
        if t == "storage":
            g.storages.append(d["name"])
        return t

    def live_add(self, d):
        cls = NodeMeta.node_registry[d.pop("type").lower()]
        node = cls.pre_load(self.model, d)
        node.finalise_load()
        return node

    def delete_node(self):
        rng, m = self.rng, self.model
        n = rng.choice(self.doc["nodes"])
        name = n["name"]
        doc = copy.deepcopy(self.doc)
        doc["nodes"] = [x for x in doc["nodes"] if x["name"] != name]
        doc["edges"] = [e for e in doc["edges"] if name not in e[:2]]
        if count({k: v for k, v in doc.items() if k != "edges"}, name) or not doc["edges"] or not self.valid(doc):
            return None
        del m.nodes[name if rng.random() < .5 else m.nodes[name]]
        self.doc = doc
        if name in self.g.storages:
            self.g.storages.remove(name)
        self.removed.append(copy.deepcopy(n))
        try:
            m.nodes[name]
            self.ctx.violation("removed node still found", f"{name} after its removal: {self.done}")
        except KeyError:
            pass
        try:
            del m.nodes[name]
            self.ctx.violation("second removal accepted", f"{name}")
        except KeyError:
            pass
        return lower(n)

    def rename_node(self):
        rng, m = self.rng, self.model
        n = rng.choice(self.doc["nodes"])
        old, t = n["name"], lower(n)
        new = self.g.name("r")
        if rng.random() < .3 and self.removed:
            r = rng.choice(self.removed)["name"]  # the name of a node that was removed is free again
            if r not in m.nodes and not any(x.name == r for x in m.graph.nodes()):
                new = r
        live = m.nodes[old]
        live.name = new
        self.doc = rename(self.doc, old, new)
        self.g.storages[:] = [new if s == old else s for s in self.g.storages]
        self.g.params.clear()  # parameters made before refer to the old name
        self.g.prange = {k: v for k, v in self.g.prange.items() if k in self.doc["parameters"]}
        self.g.params.update({k: v for k, v in self.doc["parameters"].items()})
        return t

    def rename_component(self):
        rng, m = self.rng, self.model
        what = rng.choice(["parameters", "recorders"])
        names = list(self.doc[what])
        if not names:
            return None
        old, new = rng.choice(names), self.g.name("c")
        getattr(m, what)[old].name = new
        self.doc = rename(self.doc, old, new)
        if what == "parameters":
            self.g.prange = {(new if k == old else k): v for k, v in self.g.prange.items()}
            self.g.params.clear()
            self.g.params.update(self.doc["parameters"])
        return what

    def add_recorder(self):
        rng = self.rng
        n = self.g.name("rec")
        st = self.nodes("storage", "reservoir")
        if rng.random() < .3 and self.doc["parameters"]:
            d = {"type": "numpyarrayparameter", "parameter": rng.choice(list(self.doc["parameters"]))}
        elif rng.random() < .4 and st:
            d = {"type": rng.choice(SRECS), "node": rng.choice(st)["name"]}
            if "normalised" in d["type"]:
                d["parameter"] = {"type": "constant", "value": .5}
        else:
            ms = self.nodes("input", "output", "link", "losslink", "breaklink", "aggregatednode")
            ms = [x for x in ms if lower(x) in ("input", "output", "link")] or None
            if not ms:
                return None
            d = {"type": rng.choice(RECS), "node": rng.choice(ms)["name"]}
        if rng.random() < .4:
            d["agg_func"] = rng.choice(["mean", "max", "min", "sum"])
        self.doc["recorders"][n] = copy.deepcopy(d)
        load_recorder(self.model, dict(copy.deepcopy(d), name=n))
        # A recorder added after a run is not used otherwise: see `late_recorder`
        self.model.dirty = True
        return d["type"]

    def remove_recorder(self):
        names = [n for n in self.doc["recorders"]]
        if not names:
            return None
        n = self.rng.choice(names)
        m = self.model
        rec = m.recorders[n]
        del m.recorders[n]
        del self.doc["recorders"][n]
        self.gone(rec, n, m.recorders)
        return "recorder"

    def remove_parameter(self):
        # Not one that a replaced (unnamed) parameter, which stays in the model, still uses
        free = [n for n in self.doc["parameters"] if not count({k: v for k, v in self.doc.items()}, n)
                and not len(self.model.parameters[n].parents)]
        if not free:
            return None
        n = self.rng.choice(free)
        m = self.model
        p = m.parameters[n]
        del m.parameters[n]
        del self.doc["parameters"][n]
        self.g.prange.pop(n, None)
        self.g.params.pop(n, None)
        self.gone(p, n, m.parameters)
        return "parameter"

    def gone(self, obj, name, it):
        ctx = self.ctx
        ctx.check(name not in it and obj not in it and name not in list(it.keys()), "removed component still there", f"{name}: {self.done}")

    def calendar(self):
        rng, m, ts = self.rng, self.model, self.doc["timestepper"]
        g = self.g
        k = rng.choice(["start", "shift", "end", "delta"])
        import pandas as pd
        start, end = pd.Timestamp(ts["start"]), pd.Timestamp(ts["end"])
        d = ts["timestep"]
        if end <= start:
            return None
        if k == "delta":
            if d == "M":
                return None
            new = rng.choice([1, 2, 3, 7])
            n = len(pd.period_range(start, end, freq=f"{d}D"))
            end2 = start + pd.Timedelta(days=new * (n - 1))
            ts["timestep"], ts["end"] = new, end2.strftime("%Y-%m-%d")
            doc_ok = self.valid(self.doc)
            if not doc_ok:
                ts["timestep"], ts["end"] = d, end.strftime("%Y-%m-%d")
                return None
            m.timestepper.delta, m.timestepper.end = new, end2
            g.delta = new
        elif k == "shift":
            days = rng.randrange(1, 40) if d != "M" else 0
            if d == "M":
                s2, e2 = start + pd.DateOffset(months=2), end + pd.DateOffset(months=2)
            else:
                s2, e2 = start + pd.Timedelta(days=days), end + pd.Timedelta(days=days)
            if rng.random() < .5:
                m.timestepper.start, m.timestepper.end = s2.strftime("%Y-%m-%d"), e2.strftime("%Y-%m-%d")
            else:
                m.timestepper.start, m.timestepper.end = s2, e2
            ts["start"], ts["end"] = s2.strftime("%Y-%m-%d"), e2.strftime("%Y-%m-%d")
        else:
            n = len(pd.period_range(start, end, freq=f"{d}D" if d != "M" else "M"))
            if n < 3:
                return None
            step = pd.DateOffset(months=1) if d == "M" else pd.Timedelta(days=d)
            if k == "start":
                s2 = start + step
                ts["start"] = s2.strftime("%Y-%m-%d")
                m.timestepper.start = s2
            else:
                e2 = end - step
                ts["end"] = e2.strftime("%Y-%m-%d")
                m.timestepper.end = e2
        g.start, g.end = pd.Timestamp(ts["start"]), pd.Timestamp(ts["end"])
        return k

    def scenarios(self):
        rng, m, doc = self.rng, self.model, self.doc
        sc = doc.get("scenarios", [])
        k = rng.choice(["slice", "combinations", "add", "names"])
        if k == "add":
            if len(sc) >= 3 or "scenario_combinations" in doc:
                return None
            s = {"name": self.g.name("s"), "size": 2}
            doc.setdefault("scenarios", []).append(s)
            Scenario(m, s["name"], s["size"])
            self.g.scen = doc["scenarios"]
        elif not sc:
            return None
        elif k == "slice":
            s = rng.choice(sc)
            if rng.random() < .3:
                s.pop("slice", None)
                m.scenarios[s["name"]].slice = None
            else:
                a = rng.randrange(s["size"])
                b = rng.randint(a + 1, s["size"])
                s["slice"] = [a, b, None]
                m.scenarios[s["name"]].slice = slice(a, b, None)
        elif k == "names":
            s = rng.choice(sc)
            s["ensemble_names"] = [f"e{i}" for i in range(s["size"])]
            m.scenarios[s["name"]].ensemble_names = list(s["ensemble_names"])
        else:
            if "scenario_combinations" in doc and rng.random() < .5:
                del doc["scenario_combinations"]
                m.scenarios.user_combinations = None
            else:
                c = [[rng.randrange(s["size"]) for s in sc] for _ in range(rng.randint(1, 4))]
                doc["scenario_combinations"] = c
                m.scenarios.user_combinations = c
        return k

    def group(self):
        rng, m = self.rng, self.model
        ns = [n for n in self.doc["nodes"] if lower(n) in ("aggregatednode", "aggregatedstorage") or "virtualstorage" in lower(n)]
        if not ns:
            return None
        n = rng.choice(ns)
        t, live = lower(n), m.nodes[n["name"]]
        doc = copy.deepcopy(self.doc)
        dn = next(x for x in doc["nodes"] if x["name"] == n["name"])
        flows = [x["name"] for x in self.nodes("input", "output", "link", "river")]
        if t == "aggregatedstorage":
            ms = [x["name"] for x in self.nodes("storage", "reservoir")]
            if not ms:
                return None
            ms = rng.sample(ms, rng.randint(1, len(ms)))
            n["storage_nodes"] = ms
            live.storage_nodes = [m.nodes[x] for x in ms]
            return t + " members"
        k = rng.choice(["members", "factors", "weights" if t == "aggregatednode" else "factors"])
        if k == "members":
            if len(flows) < 2:
                return None
            ms = rng.sample(flows, rng.randint(2, min(3, len(flows))))
            f = [round(rng.uniform(.3, 3), 2) for _ in ms]
            dn["nodes"] = ms
            if "factors" in n or "virtual" in t:
                dn["factors"] = f
            if "flow_weights" in n:
                dn["flow_weights"] = f[::-1]
        elif k == "factors":
            f = [round(rng.uniform(.3, 3), 2) for _ in n["nodes"]]
            if t == "aggregatednode" and rng.random() < .3 and n.get("factors"):
                dn.pop("factors")
            else:
                dn["factors"] = f
        else:
            if rng.random() < .3:
                dn.pop("flow_weights", None)
            else:
                dn["flow_weights"] = [round(rng.uniform(.3, 3), 2) for _ in n["nodes"]]
        if self.ratios(doc) or not self.valid(doc):
            return None
        live.nodes = [m.nodes[x] for x in dn["nodes"]]
        if t == "aggregatednode":
            fs = dn.get("factors")
            live.factors = None if fs is None else [load_parameter(m, copy.deepcopy(x)) if not isinstance(x, float) else x for x in fs]
            live.flow_weights = dn.get("flow_weights")
        elif "factors" in dn:
            live.factors = dn["factors"]
        self.doc = doc
        return t + " " + k

    def refused(self):
        """An edit that must be refused and must leave no trace."""
        rng, m, ctx = self.rng, self.model, self.ctx
        names = [n["name"] for n in self.doc["nodes"]]
        nn, ne, nc = m.graph.number_of_nodes(), m.graph.number_of_edges(), m.component_graph.number_of_nodes()
        k = rng.choice(["create", "create", "rename", "rename component", "unknown", "slot", "not connected", "own name", "component", "combinations"])
        err = (ValueError, KeyError, IndexError, AssertionError, nx.NetworkXError)
        what = k
        try:
            if k == "create":
                t = rng.choice(["input", "link", "output", "storage", "piecewiselink", "breaklink", "losslink", "rivergauge", "delaynode",
                                "riversplit", "multisplitlink", "aggregatedstorage", "virtualstorage", "catchment", "reservoir"])
                what += " " + t
                extra = {"piecewiselink": {"nsteps": 2}, "riversplit": {"factors": [1.0, 2.0]}, "multisplitlink": {"nsteps": 1, "extra_slots": 1},
                         "delaynode": {"timesteps": 1}, "aggregatedstorage": {"storage_nodes": []},
                         "virtualstorage": {"nodes": []}}.get(t, {})
                NodeMeta.node_registry[t](m, name=rng.choice(names), **extra)
            elif k == "rename":
                if len(names) < 2:
                    return None
                a, b = rng.sample(names, 2)
                m.nodes[a].name = b
            elif k == "rename component":
                cs = list(self.doc["parameters"]) + list(self.doc["recorders"])
                if len(cs) < 2:
                    return None
                a, b = rng.sample(cs, 2)
                o = m.parameters[a] if a in self.doc["parameters"] else m.recorders[a]
                o.name = b
            elif k == "component":
                cs = list(self.doc["parameters"]) + list(self.doc["recorders"])
                if not cs:
                    return None
                load_parameter(m, {"type": "constant", "value": 1.0, "name": rng.choice(cs)}) if False else \
                    __import__("pywr.parameters", fromlist=["x"]).ConstantParameter(m, 1.0, name=rng.choice(cs))
            elif k == "unknown":
                it = rng.choice([m.nodes, m.parameters, m.recorders])
                if rng.random() < .5:
                    it["no such thing"]
                else:
                    del it["no such thing"]
            elif k == "slot":
                a, b = rng.choice(self.flowing(True)), rng.choice(self.flowing(False))
                if rng.random() < .5:
                    m.nodes[a["name"]].connect(m.nodes[b["name"]], from_slot="nowhere" if lower(a) not in ("storage", "reservoir") else 17,
                                               to_slot=self.ports(b, False)[0])
                else:
                    m.nodes[a["name"]].connect(m.nodes[b["name"]], from_slot=self.ports(a, True)[0],
                                               to_slot="nowhere" if lower(b) not in ("storage", "reservoir") else 17)
            elif k == "not connected":
                a, b = rng.choice(self.flowing(True))["name"], rng.choice(self.flowing(False))["name"]
                if any(e[:2] == [a, b] for e in self.doc["edges"]) or a == b:
                    return None
                m.nodes[a].disconnect(m.nodes[b])
            elif k == "combinations":
                sc = self.doc.get("scenarios", [])
                if not sc:
                    return None
                m.scenarios.user_combinations = [[s["size"] for s in sc]]
            else:
                n = rng.choice(names)  # the name a node has already may be given to it again
                m.nodes[n].name = n
                raise KeyError
        except err as e:
            if k == "own name" and not (isinstance(e, KeyError) and not e.args):
                ctx.violation("own name refused", f"{n}: {e!r}")
                return None
        else:
            ctx.violation("edit accepted:" + what, f"{k}: {self.done}")
            raise Refused
        now = m.graph.number_of_nodes(), m.graph.number_of_edges(), m.component_graph.number_of_nodes()
        if not ctx.check(now == (nn, ne, nc), "refused edit left traces:" + what.split()[0],
                         f"{what}: nodes, edges and components {(nn, ne, nc)} before, {now} after"):
            raise Refused
        ctx.event("refused edits")
        return what

    # ---------------------------------------------------------- invariants
    def names(self):
        ctx, m, doc = self.ctx, self.model, self.doc
        want = sorted(n["name"] for n in doc["nodes"])
        have = sorted(n.name for n in m.nodes)
        hidden = {f"{n['name']} {x}" for n in doc["nodes"] for x in ("(storage)", "(link)", "Agg")}
        ctx.check(have == want or sorted(set(have) - hidden) == want, "names", f"model {have}, document {want}: {self.done}")
        ctx.check(len(m.nodes) == len(have) and sorted(m.nodes.keys()) == have, "names", "len or keys differ from iteration")
        for n in want:
            if not ctx.check(n in m.nodes and m.nodes[n].name == n and m.nodes[n].parent is None, "names", f"{n} does not resolve to the node of that name"):
                return
        for what in ("parameters", "recorders"):
            it = getattr(m, what)
            named = [x.name for x in it if x.name and x.name != "pv-monitor"]
            ctx.check(len(set(named)) == len(named), "names", f"{what} with one name: {named}")
            own = {f"{n['name']} - delay parameter" for n in doc["nodes"]}
            auto = [x for x in named if x not in doc[what] and x not in own and not x.endswith(" - delay parameter")]
            ctx.check(not auto and set(doc[what]) <= set(named), "names", f"{what}: model {sorted(named)}, document {sorted(doc[what])}: {self.done}")
            for n in doc[what]:
                ctx.check(n in it and it[n].name == n, "names", f"{what} {n}")

    def shape(self, m):
        def top(n):
            while n.parent is not None:
                n = n.parent
            return n.name
        return (sorted((top(n), type(n).__name__) for n in m.graph.nodes()), sorted((top(a), top(b)) for a, b in m.graph.edges()))

    def compare(self):
        ctx = self.ctx
        self.names()
        try:
            m, mon, B = self.fresh(self.doc)
        except Exception as e:
            ctx.counters["document refused"] += 1
            ctx.counters["refused:" + type(e).__name__] += 1
            if ctx.seed < 0:
                raise
            return False
        try:
            A = runcmp.run(self.model, self.mon)
        except Exception as e:
            import traceback
            ctx.violation(f"edited model fails:{type(e).__name__}", f"{type(e).__name__}: {e}; edits {self.done}; {traceback.format_exc()[-600:]}")
            return False
        sa, sb = self.shape(self.model), self.shape(m)
        if not ctx.check(sa == sb, "structure", f"nodes and connections differ: {[x for x in sa[0] if x not in sb[0]]} {[x for x in sb[0] if x not in sa[0]]}; "
                         f"{[x for x in sa[1] if x not in sb[1]]} {[x for x in sb[1] if x not in sa[1]]}; edits {self.done}"):
            return False
        ctx.event("comparisons")
        what = f"edited model and a new one; edits {self.done}"
        r = runcmp.logs(ctx, A, B, "edited:" + self.last(), what, soft=("par", "idx", "active", "vol", "pc", "vol1", "pc1", "flow", "sub"), exact=runcmp.stateless(self.doc))
        if r == "same" and A.error is None:
            return runcmp.recorders(ctx, A, B, "edited:" + self.last(), what)
        if r == "tie":
            ctx.counters["ties"] += 1
        return r != "diff"

    def last(self):
        return self.done[-1].split(":")[0] if self.done else "none"


def live_first(items, i):
    """`remove` takes out the first of equal members."""
    x = items[i]
    if isinstance(x, str):
        return items.index(x)
    return i


EDITS = {"attribute": 5, "parameter": 3, "inside": 3, "connect": 2, "disconnect": 2, "add_node": 2, "delete_node": 2, "rename_node": 2,
         "rename_component": 1, "add_recorder": 2, "remove_recorder": 1, "remove_parameter": 1, "calendar": 2, "scenarios": 2, "group": 3, "refused": 4}
LABEL = {"add_node": "add node", "delete_node": "delete node", "rename_node": "rename node", "rename_component": "rename component",
         "add_recorder": "add recorder", "remove_recorder": "remove recorder", "remove_parameter": "remove parameter", "inside": "inside a parameter"}


def late_recorder(ctx):
    """Known finding: a recorder added after a run plays no part in the next one (existing tests rely on it)."""
    from pywr.core import Model, Input, Output
    from pywr.recorders import NumpyArrayNodeRecorder
    m = Model(start="2001-01-01", end="2001-01-04", timestep=1)
    a, b = Input(m, "a", max_flow=3.0), Output(m, "b", max_flow=2.0, cost=-1.0)
    a.connect(b)
    m.run()
    rec = NumpyArrayNodeRecorder(m, b, name="late")
    m.run()
    try:
        got = np.asarray(rec.data).tolist()
    except Exception as e:
        got = repr(e)
    ctx.check(got == [[2.0]] * 4, "late recorder", f"a recorder added between two runs has recorded {got}")


def case(ctx):
    if ctx.i == 0:
        late_recorder(ctx)
    if ctx.i % 3 == 0:
        settings.check(ctx, ctx.i // 3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g, solver, args = netcase.make(ctx, **KW)
        runcmp.generic(ctx, g.doc)
        ed = Editor(ctx, g, solver, args)
        if not ed.compare():
            return
        ctx.event("edited models")
        kinds = []
        names = list(EDITS)
        rounds = ctx.rng.randint(2, 6 if ctx.thorough else 4)
        for _ in range(rounds):
            k = 0
            n = ctx.rng.choice([1, 1, 1, 2, 3])
            tries = 0
            while k < n and tries < 25:
                tries += 1
                e = ctx.rng.choices(names, [EDITS[x] for x in names])[0]
                try:
                    r = getattr(ed, e)()
                except Refused:
                    return
                if r is None:
                    continue
                if r == "dropped":
                    return
                label = LABEL.get(e, e)
                ctx.event("edit:" + label)
                ctx.counters[f"{label}:{r}"] += 1
                ctx.event("edits")
                ed.done.append(f"{label}:{r}")
                kinds.append(label)
                if e != "refused":
                    k += 1
            if not ed.compare():
                break
        ctx.key(solver, tuple(sorted(args)), ",".join(sorted({lower(n) for n in ed.doc["nodes"]})), tuple(kinds))
        ctx.sample({"solver": solver, "edits": ed.done, "nodes": len(ed.doc["nodes"])})
