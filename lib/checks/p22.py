"""P22: a model document means the same however it is arranged, split into files or loaded, and the same as the model built through the programming interface."""
import copy
import io
import json
import os
import pathlib
import random
import tempfile

import pandas as pd

from pywr._core import Domain
from pywr.model import Model
from pv import api, rich, trace
from . import runcmp

META = {
    "n": [900, 12000], "budget": [60, 700], "min_events": {"compared": 200, "how:api": 30, "how:order": 30, "how:inline": 20, "how:named": 20, "how:constants": 20,
    "how:tables": 20, "how:includes": 30, "how:alias": 20, "how:extra": 20, "as:string path": 10, "as:path object": 10, "as:bytes path": 5, "as:open file": 10, "as:text": 10,
    "as:dict": 50, "as:relative path": 10},
    "rule": "distinct: solver settings, kinds of parameters and recorders, the rearrangements applied and the way of loading",
    "assumptions": ["when two arrangements differ first in the allocation of a step and both allocations have the same cost, the runs are compared up to that step only",
                    "the order of scenarios, of a list's values and of members is part of the meaning and not permuted"],
}
HOWS = ["order", "inline", "named", "constants", "alias", "tables", "extra", "includes"]
WAYS = ["dict", "dict in a folder", "string path", "path object", "bytes path", "open file", "string stream", "text", "relative path", "model argument"]


# ------------------------------------------------------------------ places of parameters in a document
def places(doc):
    """(container, key, kind) of each reference to a parameter: kind 'par' (must be a parameter or a number) or 'value'."""
    def params(d):
        for k, v in d.items():
            if k in api.PAR:
                yield d, k, "par"
                if isinstance(v, dict):
                    yield from params(v)
            elif k in api.MAYBE and not (k == "threshold" and "type" in d and api.kind(d) in ("min", "max", "negativemin", "negativemax")):
                yield d, k, "value"
                if isinstance(v, dict):
                    yield from params(v)
            elif k in api.PARS_LIST or k in api.MAYBE_LIST:
                for j, x in enumerate(v):
                    yield v, j, "par" if k in api.PARS_LIST else "value"
                    if isinstance(x, dict):
                        yield from params(x)

    for n in doc["nodes"]:
        t = n["type"].lower()
        for k, v in n.items():
            if k in api.VALUES and not (t == "reservoir" and k == "control_curve"):
                yield n, k, "node"
                if isinstance(v, dict):
                    yield from params(v)
            elif k in api.VALUE_LISTS and isinstance(v, list) and t != "losslink":
                for j, x in enumerate(v):
                    yield v, j, "nodelist"
                    if isinstance(x, dict):
                        yield from params(x)
    for p in doc.get("parameters", {}).values():
        yield from params(p)
    for r in doc.get("recorders", {}).values():
        for k, v in r.items():
            if k == "parameter" or (k == "threshold" and r["type"].lower().startswith("event")):
                yield r, k, "rec"
                if isinstance(v, dict):
                    yield from params(v)
            elif k == "parameters":
                for j, x in enumerate(v):
                    yield v, j, "rec"
                    if isinstance(x, dict):
                        yield from params(x)


# ------------------------------------------------------------------ rearrangements
class Arrange:
    def __init__(self, ctx, doc, tmp, solver):
        self.ctx, self.rng, self.doc, self.tmp, self.solver = ctx, ctx.rng, copy.deepcopy(doc), tmp, solver
        self.k = 0

    def shuffled(self, d):
        items = list(d.items())
        self.rng.shuffle(items)
        return dict(items)

    def order(self):
        rng, doc = self.rng, self.doc

        def deep(x):
            if isinstance(x, dict):
                return {k: v if k == "data" else deep(v) for k, v in self.shuffled(x).items()}  # rows of data have an order
            if isinstance(x, list):
                return [deep(v) for v in x]
            return x

        for k in ("nodes", "edges"):
            rng.shuffle(doc[k])
            if rng.random() < .2:
                doc[k].sort(key=lambda x: str(x.get("name")) if isinstance(x, dict) else str(x), reverse=rng.random() < .5)
        for k in ("parameters", "recorders"):
            if k in doc:
                doc[k] = self.shuffled(doc[k])
        self.doc = deep(doc) if rng.random() < .7 else self.shuffled(doc)

    def inline(self):
        """A named parameter's definition is written where it is used."""
        rng, doc = self.rng, self.doc
        n = 0
        for name in rng.sample(sorted(doc["parameters"]), len(doc["parameters"])):
            uses = [(c, k) for c, k, _ in places(doc) if isinstance(c[k], str) and c[k] == name]
            if not uses or rng.random() < .4 or len(uses) > 3:
                continue
            d = doc["parameters"].pop(name)
            if name in json.dumps(d):  # cannot be
                raise AssertionError
            keep = len(uses) == 1 and any(uses[0][0] is n for n in doc["nodes"]) and rng.random() < .5
            for c, k in uses:
                c[k] = copy.deepcopy(d)
                if keep:
                    c[k]["name"] = name
            n += 1
        return n

    def named(self):
        doc, n = self.doc, 0
        for c, k, _ in list(places(doc)):
            if isinstance(c[k], dict) and self.rng.random() < .7:
                self.k += 1
                name = f"{self.rng.choice('az')}-named-{self.k}"
                doc["parameters"][name] = c[k]
                c[k] = name
                n += 1
        return n

    def constants(self):
        """Numbers become constant parameters."""
        rng, n = self.rng, 0
        for c, k, kind in list(places(self.doc)):
            v = c[k]
            if isinstance(v, (int, float)) and not isinstance(v, bool) and rng.random() < .5:
                if kind in ("node", "nodelist"):
                    t = c.get("type", "").lower() if isinstance(c, dict) else ""
                    if self.solver == "lpsolve" or t not in api.SIMPLE or k not in ("max_flow", "min_flow", "cost"):
                        continue
                    if k == "cost" and v == 0:
                        continue
                d = {"type": "constant", "value": v}
                if rng.random() < .4:
                    self.k += 1
                    name = f"{rng.choice('az')}-const-{self.k}"
                    self.doc["parameters"][name] = d
                    d = name
                c[k] = d
                n += 1
        return n

    def alias(self):
        rng = self.rng

        def change(d):
            t = d["type"]
            low = t.lower()
            low = low[:-9] if low.endswith("parameter") else low
            r = rng.random()
            if "licen" in low:
                d["type"] = rng.choice([low, low.upper(), low.title()])
                return
            d["type"] = low if r < .25 else low + "parameter" if r < .5 else (low + "Parameter").title() if r < .75 else t.upper()

        for c, k, _ in list(places(self.doc)):
            if isinstance(c[k], dict):
                change(c[k])
        for p in self.doc["parameters"].values():
            change(p)
        for r in self.doc.get("recorders", {}).values():
            low = r["type"].lower()
            low = low[:-8] if low.endswith("recorder") else low
            x = rng.random()
            r["type"] = low if x < .25 else low + "recorder" if x < .5 else (low + "Recorder").title() if x < .75 else r["type"].upper()
        for n in self.doc["nodes"]:
            n["type"] = rng.choice([n["type"].lower(), n["type"].upper(), n["type"].title()])
        return 1

    # ---- data in tables and files
    def tables(self):
        rng, doc = self.rng, self.doc
        self.tabs = doc.setdefault("tables", {})
        n = 0
        scal = [(c, k) for c, k, kind in places(doc) if isinstance(c[k], (int, float)) and not isinstance(c[k], bool) and rng.random() < .4
                and not (isinstance(c, dict) and k == "flow") and kind != "rec" and not (isinstance(c, list) and kind == "nodelist")]
        if scal:
            vals = [c[k] for c, k in scal]
            for (c, k), ref in zip(scal, self.scalars(vals)):
                c[k] = ref
                n += 1
        for nd in doc["nodes"]:
            if nd["type"].lower() in api.STORE and isinstance(nd.get("initial_volume"), (int, float)) and rng.random() < .4:
                nd["initial_volume"] = self.scalars([nd["initial_volume"], 3.])[0]
                n += 1
        ps = [p for p in doc["parameters"].values()] + [c[k] for c, k, _ in places(doc) if isinstance(c[k], dict) and "type" in c[k]]
        for p in ps:
            k = api.kind(p)
            if k == "dataframe" and "data" in p and rng.random() < .6:
                p.update(self.dated(p))
                n += 1
            elif k == "constant" and "value" in p and rng.random() < .5:
                p.update(self.scalars([p.pop("value"), 1.])[0])
                n += 1
            elif k in ("monthlyprofile", "weeklyprofile", "dailyprofile", "scenariomonthlyprofile", "scenariodailyprofile", "scenarioweeklyprofile", "arrayindexedscenario",
                       "constantscenario") and isinstance(p.get("values"), list) and rng.random() < .5:
                if k.startswith("scenario"):
                    continue
                v = p["values"]
                extra = {x: y for x, y in p.items() if x not in ("type", "values", "scenario")}
                if isinstance(v[0], list) or (extra and k != "monthlyprofile" and k != "rbfprofile"):
                    continue
                del p["values"]
                p.update(self.vector(v, bool(extra)))
                n += 1
        return n

    def write(self, df, ix):
        """A table of the document, from a file or embedded: returns how to refer to it."""
        rng = self.rng
        self.k += 1
        how = rng.choice(["csv", "xlsx", "h5", "embedded", "gz"] if rng.random() < .5 else ["csv", "embedded"])
        if how == "embedded":
            d = {"data": {c: {i: float(v) for i, v in zip(df.index, df[c])} for c in df.columns}}
        else:
            sub = rng.choice(["", "data/", "a/b/"])
            os.makedirs(os.path.join(self.tmp, sub), exist_ok=True)
            url = f"{sub}t{self.k}." + {"gz": "csv.gz"}.get(how, how)
            path = os.path.join(self.tmp, url)
            if how in ("csv", "gz"):
                df.to_csv(path, float_format="%.17g")
                d = {"url": url, "index_col": ix}
            elif how == "xlsx":
                df.to_excel(path, sheet_name="s 1")
                d = {"url": url, "index_col": rng.choice([ix, 0]) if rng.random() < .5 else ix, "sheet_name": "s 1"}
            else:
                df.to_hdf(path, key="k")
                d = {"url": url, "key": "k"}
            if rng.random() < .2:
                d["url"] = path
        self.ctx.event("table:" + how)
        return d

    def refer(self, d, sel, table=False):
        rng = self.rng
        if "data" not in d and not table and rng.random() < .4:
            return [dict(d, **s) for s in sel]
        name = f"{rng.choice('az')} table {self.k}"
        self.tabs[name] = d
        return [dict({"table": name}, **s) for s in sel]

    def scalars(self, vals):
        """References to single values of one table."""
        rng = self.rng
        n = len(vals)
        if rng.random() < .5:  # one row each
            df = pd.DataFrame({"value": [float(v) for v in vals], "other": range(n)}, index=pd.Index([f"row {i}" for i in range(n)], name="ix"))
            sel = [{"column": "value", "index": f"row {i}"} for i in range(n)]
        elif rng.random() < .5:  # one column each
            df = pd.DataFrame({f"c{i}": [1.5, float(v)] for i, v in enumerate(vals)}, index=pd.Index(["x", "y"], name="ix"))
            sel = [{"column": f"c{i}", "index": "y"} for i in range(n)]
        else:
            df = pd.DataFrame({"v": [float(v) for v in vals]}, index=pd.Index([10 + i for i in range(n)], name="ix"))
            sel = [{"column": "v", "index": 10 + i} for i in range(n)]
        d = self.write(df, "ix")
        if "data" in d and df.index.dtype != object:  # keys of a JSON object are strings
            df.index = pd.Index([f"row {i}" for i in range(n)], name="ix")
            sel = [{"column": "v", "index": f"row {i}"} for i in range(n)]
            d = {"data": {c: {i: float(v) for i, v in zip(df.index, df[c])} for c in df.columns}}
        return self.refer(d, sel)

    def dated(self, p):
        """Dated data moved to a file or a table."""
        rng = self.rng
        data, col = p.pop("data"), p.pop("column", None)
        del p["parse_dates"]
        dates = list(next(iter(data.values())))
        df = pd.DataFrame({c: list(x.values()) for c, x in data.items()}, index=pd.DatetimeIndex(dates, name="when"))
        d = self.write(df, "when")
        if "data" in d:
            d = {"data": {c: dict(zip(dates, x.values())) for c, x in data.items()}, "parse_dates": True}
        elif "key" not in d:
            d["parse_dates"] = True
        self.ctx.event("dated data")
        sel = {} if col is None else {"column": col}
        name = f"dated {self.k}"
        if rng.random() < .5:
            return dict(d, **sel)
        self.tabs[name] = d
        return dict({"table": name}, **sel)

    def vector(self, v, table):
        rng = self.rng
        n = len(v)
        if rng.random() < .5:
            df = pd.DataFrame([[0.] * n, [float(x) for x in v]], columns=[f"c{i}" for i in range(n)], index=pd.Index(["x", "y"], name="ix"))
            return self.refer(self.write(df, "ix"), [{"index": "y"}], table)[0]
        df = pd.DataFrame({"a": [1.] * n, "b": [float(x) for x in v]}, index=pd.Index([f"r{i:03d}" for i in range(n)], name="ix"))
        return self.refer(self.write(df, "ix"), [{"column": "b"}], table)[0]

    # ---- other keys
    def extra(self):
        rng = self.rng
        for n in self.doc["nodes"]:
            if rng.random() < .4:
                n["comment"] = "text"
            if rng.random() < .4:
                n["tags"] = {"a": "b"}
            if rng.random() < .4:
                n["position"] = {"schematic": [1, 2.5], "geographic": [50.1, -3]}
        for p in self.doc["parameters"].values():
            if rng.random() < .4:
                p["comment"] = "why"
            if rng.random() < .3:
                p["tags"] = {"x": "1"}
        for r in self.doc.get("recorders", {}).values():
            if rng.random() < .4:
                r["comment"] = "why"
        self.doc["metadata"].update(author="someone", anything={"x": [1]})
        if rng.random() < .5:
            self.doc["metadata"]["minimum_version"] = "0.1"
        return 1

    # ---- included files
    def includes(self):
        """Parts of the document move to included files."""
        rng, doc = self.rng, self.doc
        self.full = dict(doc)
        files = [{} for _ in range(rng.randint(1, 3))]
        for part in ("nodes", "edges", "parameters", "recorders", "tables", "scenarios", "timestepper", "scenario_combinations", "metadata"):
            if part not in doc or rng.random() < .3:
                continue
            x = doc[part]
            if part in ("scenario_combinations", "scenarios", "metadata", "timestepper"):  # whole, as their order has a meaning
                if rng.random() < .5:
                    rng.choice(files)[part] = doc.pop(part)
                continue
            keys = list(range(len(x))) if isinstance(x, list) else list(x)
            where = [rng.randrange(-1, len(files)) for _ in keys] if rng.random() < .6 else [rng.randrange(0, len(files))] * len(keys)
            for f in range(len(files)):
                mine = [k for k, w in zip(keys, where) if w == f]
                if mine:
                    files[f][part] = [x[k] for k in mine] if isinstance(x, list) else {k: x[k] for k in mine}
            rest = [k for k, w in zip(keys, where) if w == -1]
            doc[part] = [x[k] for k in rest] if isinstance(x, list) else {k: x[k] for k in rest}
            if not rest and rng.random() < .5:
                del doc[part]
        names = []
        for i, f in enumerate(files):
            sub = rng.choice(["", "inc/", "inc/deep er/"])
            name = f"{sub}part{i}.{rng.choice(['json', 'JSON'])}"
            names.append(name)
            path = os.path.join(self.tmp, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fh:
                json.dump(f, fh, indent=rng.choice([None, 2]))
        if rng.random() < .4:
            names.insert(rng.randint(0, len(names)), self.python())
        rng.shuffle(names)
        doc["includes"] = names
        return 1

    def python(self):
        """An included Python file that registers a parameter the document uses for its constants."""
        rng = self.rng
        name = f"PvIncluded{self.ctx.seed}x{self.ctx.i}x{rng.randrange(10**9)}"
        with open(os.path.join(self.tmp, name.lower() + ".py"), "w") as f:
            f.write(f"""from pywr.parameters import Parameter


class {name}Parameter(Parameter):
    def __init__(self, model, half, **kwargs):
        super().__init__(model, **kwargs)
        self.half = half

    def value(self, timestep, scenario_index):
        return self.half + self.half

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


{name}Parameter.register()
""")
        n = 0
        # a constant maximum volume has its own rule for the initial volume
        kept = [id(nd["max_volume"]) for nd in self.full["nodes"] if "max_volume" in nd] + \
            [id(self.full["parameters"].get(nd["max_volume"])) for nd in self.full["nodes"] if isinstance(nd.get("max_volume"), str)]
        for p in [x for x in self.doc.get("parameters", {}).values()] + [c[k] for c, k, _ in places({**self.doc, "nodes": self.doc.get("nodes", [])}) if isinstance(c[k], dict)]:
            if "type" in p and api.kind(p) == "constant" and "value" in p and id(p) not in kept and rng.random() < .7:
                p["type"] = name
                p["half"] = p.pop("value") / 2
                n += 1
        self.ctx.event("included python" if n else "included unused python")
        return name.lower() + ".py"


def strip(doc):
    """What a document cannot express (domains, conversion factors) is set after loading."""
    doc = copy.deepcopy(doc)
    dom, conv = {}, {}
    for n in doc["nodes"]:
        if n.get("domain"):
            dom[n["name"]] = n["domain"]
        n.pop("domain", None)
        if "conversion_factor" in n:
            conv[n["name"]] = n.pop("conversion_factor")

    def finish(m):
        objs = {}
        for k, d in dom.items():
            m.nodes[k].domain = objs.setdefault(d, Domain(d))
        for k, c in conv.items():
            m.nodes[k].conversion_factor = c
        return m, trace.Monitor(m, params=True, costs=True, name="pv-monitor")

    return doc, finish


def load(ctx, doc, way, tmp, solver, args):
    kw = {}
    if solver:
        kw = {"solver": solver, "solver_args": args}
        if ctx.rng.random() < .3:  # named by the document instead
            doc = dict(doc, solver=dict({"name": solver}, **args))
            kw = {}
    ctx.event("as:" + way)
    path = os.path.join(tmp, ctx.rng.choice(["model.json", "my model.json", "möd.js"]))
    text = json.dumps(doc)
    with open(path, "w") as f:
        f.write(text)
    if way == "dict":
        before = copy.deepcopy(doc)
        m = Model.load(doc, path=path, **kw)
        ctx.check(doc == before and text == json.dumps(doc), "caller's document", "loading changed the caller's document: " + text[:300])
        return m
    if way == "model argument":
        # an empty model, made by the caller, is filled
        ts = doc.get("timestepper")
        if not ts:
            return load(ctx, doc, "dict", tmp, solver, args)
        m = Model(start=pd.to_datetime(ts["start"]), end=pd.to_datetime(ts["end"]), timestep=ts["timestep"], solver=solver, solver_args=args, path=path)
        m2 = Model.load(doc, model=m, path=path)
        ctx.check(m2 is m, "model argument", "another model was returned")
        return m2
    if way == "dict in a folder":
        return Model.load(doc, path=tmp, **kw)
    if way == "string path":
        return Model.load(path, **kw)
    if way == "path object":
        return Model.load(pathlib.Path(path), **kw)
    if way == "bytes path":
        return Model.load(os.fsencode(path), **kw)
    if way == "open file":
        with open(path) as f:
            return Model.load(f, path=path, **kw)
    if way == "string stream":
        return Model.load(io.StringIO(text), path=path, **kw)
    if way == "text":
        return Model.loads(text, path=path, **kw)
    old = os.getcwd()
    os.chdir(tmp)
    try:
        return Model.load(os.path.basename(path), **kw)
    finally:
        os.chdir(old)


def case(ctx):
    rng = ctx.rng
    g, r, solver, args = runcmp.richcase(ctx, kinds=rich.PARAMS + rich.FRAMES, infeasible=False, minflow=rng.choice([0, 0, .3]))
    runcmp.generic(ctx, g.doc) if rng.random() < .7 else None
    doc, finish = strip(g.doc)
    base = runcmp.run(*finish(Model.load(copy.deepcopy(doc), solver=solver, solver_args=args)))
    ctx.event("failing models" if base.error else "complete models")
    for _ in range(rng.randint(2, 3)):
        with tempfile.TemporaryDirectory(prefix="pv22-") as tmp:
            one(ctx, g, doc, finish, base, tmp, solver, args)


def one(ctx, g, doc, finish, base, tmp, solver, args):
    rng = ctx.rng
    if rng.random() < .25:
        how, way = ["api"], "api"
        try:
            m = api.build(g.doc, solver, **args)
        except api.Unsupported as e:
            ctx.event("api: unsupported " + str(e))
            return
        m, mon = m, trace.Monitor(m, params=True, costs=True, name="pv-monitor")
    else:
        how = sorted(set(rng.choices(HOWS, k=rng.choice([1, 1, 2, 3]))), key=HOWS.index)
        if rng.random() < .15:
            how = []
        way = rng.choice(WAYS)
        a = Arrange(ctx, doc, tmp, solver)
        how = [h for h in how if getattr(a, h)() != 0]
        m, mon = finish(load(ctx, a.doc, way, tmp, solver, args))
    for h in how or ["nothing"]:
        ctx.event("how:" + h)
    ctx.key(solver, sorted(args), sorted(str(p["type"]).lower() for p in doc["parameters"].values()), how, way)
    ctx.sample({"solver": solver, "rearranged": how, "loaded": way, "steps": g.nsteps})
    B = runcmp.run(m, mon)
    what = f"document as written and {'+'.join(how) or 'unchanged'} loaded as {way}"
    key = "+".join(how) or way
    res = runcmp.logs(ctx, base, B, "equivalence:" + key, what)
    ctx.event("compared")
    if res == "same":
        ctx.event("equal runs")
        if base.error is None:
            runcmp.recorders(ctx, base, B, "equivalence-recorder:" + key, what)
