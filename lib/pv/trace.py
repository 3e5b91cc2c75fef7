"""Builds and runs models while a monitor logs the observable state of every step."""
import copy

import numpy as np

from pywr._core import BaseInput, BaseLink, BaseOutput, Domain
from pywr.model import Model
from pywr.parameters import IndexParameter
from pywr.recorders import Recorder




class Injected(Exception):
    """A fault the workload injects."""


class Monitor(Recorder):
    """Logs, for each timestep: date, volumes before allocation, and flows/volumes/parameter values after it."""

    def __init__(self, model, want=None, params=False, costs=False, **kw):
        super().__init__(model, **kw)
        self.log = []
        self.costs = costs
        self.fail_at = None
        self.want = want
        self.params = params
        self.runs = 0

    def reset(self):
        self.log = []
        self.runs += 1
        m = self.model
        self.targets = []
        for node in m.graph.nodes():
            if self.want is not None and node.name not in self.want:
                continue
            if node.parent is None:
                self.targets.append((node.name, node))
        self.extra = []
        for name, node in self.targets:
            k = type(node).__name__
            if k == "DelayNode":
                self.extra.append(((name, "out"), node.output))
            if hasattr(node, "sublinks"):
                for j, s in enumerate(node.sublinks):
                    self.extra.append(((name, f"sub{j}"), s))
            if k == "LossLink":
                self.extra += [((name, "gross"), node.gross), ((name, "loss"), node.output)]
            if hasattr(node, "outputs") and hasattr(node, "inputs") and not getattr(node, "virtual", False):
                self.extra += [((name, f"in{j}"), s) for j, s in enumerate(node.outputs)]
                self.extra += [((name, f"out{j}"), s) for j, s in enumerate(node.inputs)]

    def before(self):
        if self.fail_at is not None and self.fail_at[:2] == ("before", self.model.timestepper.current.index):
            self.fail_at = None
            raise Injected("injected before the allocation")
        r = {"vol": {}, "pc": {}, "prev": {}, "active": {}}
        for name, node in self.targets:
            if hasattr(node, "volume"):
                r["vol"][name] = np.array(node.volume)
                r["pc"][name] = np.array(node.current_pc)
                if hasattr(node, "active"):
                    r["active"][name] = bool(node.active)
            r["prev"][name] = np.array(node.prev_flow)
        self.cur = r

    def after(self):
        r = self.cur
        ts = self.model.timestepper.current
        r["index"], r["date"], r["days"] = ts.index, ts.datetime, ts.days
        r["flow"] = {name: np.array(node.flow) for name, node in self.targets}
        r["sub"] = {name: np.array(node.flow) for name, node in self.extra}
        r["vol1"] = {name: np.array(node.volume) for name, node in self.targets if hasattr(node, "volume")}
        r["pc1"] = {name: np.array(node.current_pc) for name, node in self.targets if hasattr(node, "volume")}
        if self.params:
            r["par"] = {p.name: np.array(p.get_all_values()) for p in self.model.parameters if p.name}
            r["idx"] = {p.name: np.array(p.get_all_indices()) for p in self.model.parameters if p.name and isinstance(p, IndexParameter)}
        if self.costs:
            r["objective"] = np.zeros(len(self.model.scenarios.combinations))
            for node in self.model.graph.nodes():
                if isinstance(node, (BaseInput, BaseLink, BaseOutput)):
                    for si in self.model.scenarios.combinations:
                        r["objective"][si.global_id] += node.get_cost(si) * node.flow[si.global_id]
        if self.fail_at is not None and self.fail_at[:2] == ("after", self.model.timestepper.current.index):
            self.fail_at = None
            raise Injected("injected after the allocation")
        self.log.append(r)


def load(doc, solver=None, **solver_args):
    kw = {}
    if solver:
        kw["solver"] = solver
    if solver_args:
        kw["solver_args"] = solver_args
    doc = copy.deepcopy(doc)
    domains = {}
    later = []
    for n in doc["nodes"]:
        d = n.pop("domain", None)
        if d:
            domains[n["name"]] = d
        if "conversion_factor" in n:
            later.append((n["name"], n.pop("conversion_factor")))
    m = Model.load(doc, **kw)
    objs = {}
    for name, d in domains.items():
        m.nodes[name].domain = objs.setdefault(d, Domain(d))
    for name, c in later:
        m.nodes[name].conversion_factor = c
    return m


def monitored(doc, solver=None, want=None, params=False, costs=False, **solver_args):
    m = load(doc, solver, **solver_args)
    return m, Monitor(m, want=want, params=params, costs=costs, name="pv-monitor")
