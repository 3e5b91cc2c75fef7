"""P21: files written by recorders contain exactly the simulated data."""
import bz2
import csv
import gzip
import os
import tempfile
import warnings

import numpy as np
import tables

from pywr import nodes as N
from pywr import parameters as P
from pywr import recorders as R
from pywr.parameters import IndexParameter, Parameter
from pywr.recorders import load_recorder
from .parcase import DAY, Spy
from .reccase import RB, Values

META = {
    "n": [640, 9000], "budget": [90, 700],
    "min_events": {"files read": 2000, "csv files": 300, "version 1 files": 300, "version 2 files": 300, "rows compared": 20000, "values compared": 200000, "reruns": 200, "stepped by hand": 100,
                   "abandoned before": 100, "interrupted runs": 50, "residual buffers": 100, "whole buffers": 50, "routes": 50, "frames": 300, "time tables": 400, "scenario tables": 400, "slices": 20,
                   "combinations": 20, "shortened": 50, "from a document": 300, "limits": 500, "open files": 20},
    "rule": "distinct: recorder, selection of nodes and parameters, file options, buffering and the way of running",
    "assumptions": ["flows, volumes and parameter values as logged by a recorder of the check's own (checked by P05 and P10)", "a monthly step's date is that of its attributes (the last day of the month) in the time table"],
}


class Boom(Exception):
    pass


class Bomb(Parameter):
    """Fails in a given step, once armed."""
    at = None

    def value(self, ts, si):
        if self.at == ts.index:
            raise Boom
        return 0.0


class F:
    """One recorder with a file."""

    def __init__(self, g, k):
        self.g, self.rng, self.b, self.m, self.ctx = g, g.rng, g.b, g.m, g.ctx
        self.k = k
        self.handle = None

    def url(self, ext):
        """A path: absolute, relative to the model, in a folder to be made."""
        self.path = os.path.join(self.g.tmp, f"f{self.k}.{ext}")
        if self.json and self.rng.random() < .5:
            return os.path.basename(self.path)
        return self.path

    def make(self, cls, url, **o):
        if not self.json:
            return cls(self.m, url, name=f"file{self.k}", **o)
        self.ctx.event("from a document")
        name = cls.__name__ if self.rng.random() < .5 else cls.__name__.lower() if cls is R.TablesRecorder2 else cls.__name__.replace("Recorder", "").lower()
        d = dict(type=name, url=url, name=f"file{self.k}")
        d.update(o)
        return load_recorder(self.m, d)


class CSV(F):
    def __init__(self, g, k):
        super().__init__(g, k)
        rng, b = self.rng, self.b
        self.json = rng.random() < .5
        o = {}
        self.names = sorted(b.m.nodes.keys())
        if rng.random() < .6:
            self.names = rng.sample(list(b.n), rng.randint(1, len(b.n)))
            o["nodes"] = [n if self.json or rng.random() < .5 else b.n[n] for n in self.names]
        self.s = 0
        if rng.random() < .6:
            self.s = o["scenario_index"] = rng.randrange(b.S)
        self.lib = rng.choice([None, None, "gzip", "bz2", "bzip2"])
        if self.lib or rng.random() < .2:
            o["complib"] = self.lib
            if rng.random() < .5:
                o["complevel"] = rng.randint(1, 9)
        self.csv = {}
        if rng.random() < .4:
            self.csv = rng.choice([{"delimiter": ";"}, {"delimiter": "\t"}, {"quoting": csv.QUOTE_ALL}, {"lineterminator": "\n"}, {"delimiter": "|", "lineterminator": "\n"}])
            o["csv_kwargs"] = dict(self.csv)
        self.ctx.key("csv", "nodes" in o, self.lib, str(self.csv), self.json)
        self.make(R.CSVRecorder, self.url("csv"), **o)

    def check(self, spy, n, d):
        op = {None: open, "gzip": gzip.open}.get(self.lib, bz2.open)
        ctx = self.ctx
        ctx.event("csv files")
        with op(self.path, "rt", newline="", encoding="utf-8") as fh:
            rows = list(csv.reader(fh, **self.csv))
        ctx.check(rows[:1] == [["Datetime"] + self.names], "csv-header", lambda: f"header {rows[:1]}, expected {self.names}", d)
        body = rows[1:]
        if not ctx.check(len(body) == n, "csv-rows", f"{len(body)} rows after {n} steps", d):
            return
        nodes = [self.m.nodes[x] for x in self.names]
        for t, row in enumerate(body):
            ctx.check(row[0].split("T")[0] == str(self.g.dates[t][0]), "csv-date", lambda: f"row {t} is dated {row[0]}, not {self.g.dates[t][0]}", d)
            want = [(spy.vol1 if x in spy.vol1 else spy.flow)[x][t][self.s] for x in nodes]
            got = [float(v) for v in row[1:]]
            ctx.event("values compared", len(got))
            if not ctx.check(len(got) == len(want) and all(a == w or (a != a and w != w) for a, w in zip(got, want)), "csv-values", lambda: f"row {t}: {got}, simulated {want}", d):
                return
        ctx.event("rows compared", n)


class H5(F):
    def __init__(self, g, k, version):
        super().__init__(g, k)
        rng, b, m = self.rng, self.b, self.m
        self.v = version
        self.json = rng.random() < .4
        o = {}
        self.where = "/"
        if rng.random() < .4:
            self.where = o["where"] = rng.choice(["/g", "/a/b", "/"])
        base = self.where.rstrip("/")
        self.items = []
        allnodes = list(m.nodes.values())

        def pick(names, get, allow):
            out = []
            for nm in names:
                obj = get(nm)
                ref = nm if self.json or rng.random() < .5 else obj
                path = f"{base}/{nm}"
                if rng.random() < .3 and allow:
                    path = f"/sp{len(out)}/{nm}x"
                    ref = [path, ref] if self.json else (path, ref)
                out.append(ref)
                self.items.append((path, obj))
            return out

        r = rng.random()
        if r < .5:
            o["nodes"] = pick(rng.sample(list(b.n), rng.randint(1, len(b.n))), lambda x: b.n[x], True)
            if rng.random() < .1 and len(o["nodes"]) > 1:
                # one node in two places
                o["nodes"].append(["/twice/x", "out0"])
                self.items.append(("/twice/x", b.n["out0"]))
        elif r < .6:
            o["nodes"] = []
        else:
            self.items += [(f"{base}/{x.name}", x) for x in allnodes]
            if rng.random() < .2:
                o["nodes"] = None
        names = [p.name for p in m.parameters if p.name and p.name in g.named]
        if names and (rng.random() < .6 or r < .6 and not self.items):
            o["parameters"] = pick(rng.sample(names, rng.randint(1, len(names))), lambda x: m.parameters[x], True)
        self.time, self.scen = "/time", "/scenarios"
        if rng.random() < .2:
            self.time = o["time"] = rng.choice([None, "/meta/t"])
        if rng.random() < .2:
            self.scen = o["scenarios"] = rng.choice([None, "/scenarios", "/meta/s"])
        self.routes = self.rf = None
        if rng.random() < .25:
            self.rf, self.routes = "flows", "/routes"
            o["routes_flows"] = "flows"
            if rng.random() < .4:
                self.routes = o["routes"] = rng.choice([None, "/meta/r"])
            self.ctx.event("routes")
        if rng.random() < .4:
            o["filter_kwds"] = rng.choice([{"complevel": 5, "complib": "zlib"}, {"complevel": 1}, {"complib": "blosc", "complevel": 3, "shuffle": True}, {"complevel": 0}])
        self.meta = {}
        if rng.random() < .3:
            self.meta = o["metadata"] = rng.choice([{"run": "r1"}, {"a": 1, "b": "x"}])
            o["metadata"] = dict(self.meta)
        self.title = None
        if rng.random() < .3:
            self.title = o["title"] = "A title"
        self.legacy = False
        if version == 1 and rng.random() < .3:
            self.legacy = o["use_legacy_attribute_naming"] = True
        self.buffer = 1
        if version == 2:
            r = rng.random()
            if r < .6:
                self.buffer = o["buffer_timesteps"] = rng.choice([1, 2, 3, 5, 7, b.T, b.T - 1 or 1, b.T + 3, max(1, b.T // 2), 1000])
            elif r < .8:
                o["buffer_size"] = rng.choice([100, 1, 1e-4, 1e-3, None])
                self.buffer = "size"
            else:
                self.buffer = "default"
        self.ctx.key("v%d" % version, "nodes" in o, "parameters" in o, self.buffer if isinstance(self.buffer, str) else (self.buffer > 1, b.T % self.buffer == 0), sorted(set(o) - {"nodes", "parameters"}), self.json)
        url = self.url("h5")
        if g.static and not self.json and rng.random() < .3:
            self.handle = tables.open_file(self.path, "w")
            g.handles.append(self.handle)
            url = self.handle
            self.title = None
            o.pop("title", None)
            o.pop("filter_kwds", None)
            self.ctx.event("open files")
        elif rng.random() < .3:
            self.path = os.path.join(g.tmp, f"d{k}", "e", f"f{k}.h5")
            url = os.path.relpath(self.path, g.tmp) if self.json and rng.random() < .5 else self.path
            o["create_directories"] = True
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.rec = self.make(R.TablesRecorder if version == 1 else R.TablesRecorder2, url, **o)

    def shape(self):
        ss = self.m.scenarios.scenarios
        if not ss:
            return (1,)
        if self.b.how == "user":
            return (self.b.S,)
        return tuple(len(range(s.size)[s.slice]) if s.slice is not None else s.size for s in ss)

    def read(self, node):
        return node.read()

    def check(self, spy, n, d):
        ctx, b, m = self.ctx, self.b, self.m
        ctx.event(f"version {self.v} files")
        if self.handle is not None:
            self.handle.flush()
            self.inspect(self.handle, spy, n, d)
        else:
            with tables.open_file(self.path, "r") as fh:
                self.inspect(fh, spy, n, d)
        if self.handle is None and self.rf is None and n and (n == b.T):
            self.frames(spy, n, d)

    def array(self, fh, path, attr, want, n, what, d, typ):
        """want: steps x combinations."""
        ctx = self.ctx
        try:
            ca = fh.get_node(path)
        except tables.NoSuchNodeError:
            ctx.violation("h5-missing", f"no array {path} in the file", d)
            return
        a = ca.read()
        shape = self.shape()
        if not ctx.check(a.shape == (self.g.T,) + shape, "h5-shape", f"{path} has shape {a.shape}, expected {(self.g.T,) + shape}", d):
            return
        keys = ("pywr-attribute", "pywr-type") if self.legacy else ("PYWR_ATTRIBUTE", "PYWR_TYPE")
        at = [ca._v_attrs[k] if k in ca._v_attrs._v_attrnames else None for k in keys]
        ctx.check(at == [attr, typ], "h5-attributes", f"{path} is described as {at}, expected {[attr, typ]}", d)
        want = np.asarray(want)[:n].reshape((n,) + shape)
        ctx.event("values compared", want.size)
        ctx.event("rows compared", n)
        same = (a[:n] == want) | ((a[:n] != a[:n]) & (want != want))
        if not same.all():
            k = np.argwhere(~same)[0].tolist()
            ctx.violation("h5-" + what, f"{path} at {k}: {a[tuple(k)]!r}, simulated {want[tuple(k)]!r} ({n} steps, buffer {self.buffer})", d)

    def inspect(self, fh, spy, n, d):
        ctx, b, m, rng = self.ctx, self.b, self.m, self.rng
        root = fh.root._v_attrs
        ctx.check(root["PYWR_FORMAT"] == self.v and all(root[k] == v for k, v in self.meta.items()), "h5-metadata", "format or metadata missing", d)
        if self.title is not None:
            ctx.check(fh.title == self.title, "h5-title", f"title {fh.title!r}", d)
        for path, x in self.items:
            path = path.replace("//", "/")
            typ = type(x).__name__
            if isinstance(x, IndexParameter):
                self.array(fh, path + ("/parameter_index" if self.v == 2 else ""), "parameter_index" if self.v == 2 else "parameter-index", spy.idx[x], n, "index", d, typ)
            elif isinstance(x, Parameter):
                self.array(fh, path + ("/parameter" if self.v == 2 else ""), "parameter", spy.par[x], n, "parameter", d, typ)
            else:
                st = x in spy.vol1
                a = "volume" if st else "flow"
                self.array(fh, path + ("/" + a if self.v == 2 else ""), a, (spy.vol1 if st else spy.flow)[x], n, a, d, typ)
                if self.v == 2:
                    for side, lim in zip(("min", "max"), self.g.limits(x, spy)):
                        if lim is not None:
                            ctx.event("limits")
                            self.array(fh, f"{path}/{side}_{a}", f"{side}_{a}", lim, n, "limit", d, typ)
        if self.time is not None:
            ctx.event("time tables")
            t = fh.get_node(self.time)
            got = [tuple(int(r[c]) for c in ("index", "year", "month", "day")) for r in t]
            want = [(i, e.year, e.month, e.day) for i, (_, _, e) in enumerate(self.g.dates[:n])]
            ctx.check(got == want, "h5-time", lambda: f"time table {got[:3]}..{got[-2:]} of {len(got)}, expected {want[:3]}..{want[-2:]} of {len(want)}", d)
        ss = m.scenarios.scenarios
        if self.scen is not None:
            ctx.event("scenario tables")
            got = [(r["name"].decode("utf-8"), int(r["size"])) for r in fh.get_node(self.scen)]
            ctx.check(got == [(s.name, s.size) for s in ss], "h5-scenarios", f"scenario table {got}", d)
            group = self.scen.rsplit("/", 1)[0]
            if b.how == "user":
                ctx.event("combinations")
                if self.v == 1:
                    got = [tuple(int(r[s.name]) for s in ss) for r in fh.get_node(group + "/scenario_combinations")]
                else:
                    ca = fh.get_node("/scenario_combinations")
                    got = [tuple(int(x) for x in r) for r in ca.read()]
                    ctx.check(list(ca.attrs.columns) == [s.name for s in ss], "h5-combination-columns", f"{ca.attrs.columns}", d)
                ctx.check(got == b.combos, "h5-combinations", f"combination table {got}, expected {b.combos}", d)
            elif b.how == "slices" and any(s.slice for s in ss):
                ctx.event("slices")
                got = {r["name"].decode(): list(range(dict((s.name, s.size) for s in ss)[r["name"].decode()])[int(r["start"]):int(r["stop"]):int(r["step"])]) for r in fh.get_node(group + "/scenario_slices")}
                want = {s.name: list(range(s.size))[s.slice] for s in ss if s.slice is not None}
                ctx.check(got == want, "h5-slices", f"slices {got}, expected {want}", d)
            if self.v == 2 and ss:
                got = [tuple(x.decode("utf-8") if isinstance(x, bytes) else str(x) for x in r) for r in fh.get_node("/scenario_ensemble_names").read()]
                ctx.check(got == [tuple(str(x) for x in c) for c in b.labels()[1]], "h5-ensemble-names", f"names {got}, expected {b.labels()[1]}", d)
        if self.rf is not None:
            fl = fh.get_node((self.where + "/" + self.rf).replace("//", "/")).read()
            nr = len(m.solver.routes)
            if not ctx.check(fl.shape == (self.g.T, nr) + self.shape(), "h5-routes-shape", f"route flows {fl.shape}", d):
                return
            fl = fl.reshape(self.g.T, nr, -1)
            if self.routes is None:
                ends = [tuple((x.parent or x).name for x in (r[0], r[-1])) for r in m.solver.routes]
            else:
                ends = [(r["start"].decode(), r["end"].decode()) for r in fh.get_node(self.routes)]
            for nm, x in b.n.items():
                if x in spy.vol1 and nm in b.storages:
                    sign = {0: -1, 1: 1}
                elif nm in ("xin", "in0", "in1", "in2"):
                    sign = {0: 1}
                elif nm in ("out0", "out1", "out2", "xout", "xspill"):
                    sign = {1: 1}
                else:
                    continue
                tot = np.zeros((n, b.S))
                for r, e in enumerate(ends):
                    for side, sg in sign.items():
                        if e[side] == nm:
                            tot += sg * fl[:n, r]
                ctx.event("values compared", tot.size)
                ctx.close(tot, np.array(spy.flow[x][:n]).reshape(n, b.S), "h5-routes", f"route flows of {nm}", detail=d)

    def frames(self, spy, n, d):
        """The helper that reads the file back."""
        ctx, b, m = self.ctx, self.b, self.m
        ss = m.scenarios.scenarios
        if self.v == 1 and len({p.rsplit("/", 1)[1] for p, _ in self.items}) < len(self.items):
            return
        ctx.event("frames")
        got = dict(self.rec.generate_dataframes(self.path, time=self.time, scenarios=self.scen))
        for path, x in self.items:
            leaf = path.rsplit("/", 1)[1]
            if isinstance(x, IndexParameter):
                a, want = "parameter_index", spy.idx[x]
            elif isinstance(x, Parameter):
                a, want = "parameter", spy.par[x]
            else:
                a, want = ("volume", spy.vol1[x]) if x in spy.vol1 else ("flow", spy.flow[x])
            key = leaf if self.v == 1 else f"{leaf}.{a}"
            if sum(p.rsplit("/", 1)[1] == leaf for p, _ in self.items) > 1:
                continue
            if not ctx.check(key in got, "frame-missing", f"no frame {key}: {sorted(got)}", d):
                continue
            df = got[key]
            ctx.close(df.values, np.asarray(want, dtype=float)[:n].reshape(n, -1), "frame-values", f"frame {key}", rtol=0, atol=0, detail=d)
            if self.time is not None:
                ctx.check([x.date() for x in df.index] == [e for _, _, e in self.g.dates[:n]], "frame-index", f"frame {key}: index {list(df.index[:3])}", d)
            if self.scen is not None and ss:
                ctx.check(list(df.columns.names) == [s.name for s in ss] and [tuple(c) for c in df.columns] == b.combos, "frame-columns", f"frame {key}: columns {list(df.columns)} {df.columns.names}, expected {b.combos}", d)


class G:
    def __init__(self, ctx, tmp):
        self.ctx, self.rng, self.tmp = ctx, ctx.rng, tmp
        rng = self.rng
        self.handles = []
        self.b = b = RB(rng, nmax=rng.choice([4, 12, 30]))
        self.m = m = b.m
        m.path = tmp
        if rng.random() < .15:
            for s in m.scenarios.scenarios:
                b.ens[s.name] = s.ensemble_names = ["Prés", "näß", "x", "ω"][:s.size]
        self.static = rng.random() < .2
        self.dates, self.T = list(b.cal.steps), b.T
        # a chain with minimum flows
        lo = b.series(P.ArrayIndexedScenarioParameter, 0, 3)
        yin = N.Input(m, "yin", max_flow=rng.choice([10.0, float("inf")]), min_flow=rng.choice([lo, 2.0, 0.0]))
        yout = N.Output(m, "yout", max_flow=b.par(3, 6))
        yin.connect(yout)
        b.n["yin"], b.n["yout"] = yin, yout
        self.bomb = Bomb(m, name="bomb")
        yout.cost = self.bomb
        self.named = {"bomb"}
        for _ in range(rng.randint(0, 3)):
            p = b.par(0, 9)
            if p.name in self.named:
                continue
            new = rng.choice([None, "z" * rng.randint(1, 3) + str(len(self.named)), f"long name {len(self.named)}"])
            if new:
                p.name = new
            self.named.add(p.name)
        for _ in range(rng.randint(0, 2)):
            p, _ = b.idx(scale=rng.choice([1, 1, 1, -1, 50, 20000, 700000000]))
            self.named.add(p.name)
        if rng.random() < .3:
            d = np.array([[rng.choice([0.0, float("nan"), float("inf"), -1e300, 1e-320, 3.5]) for _ in range(b.S)] for _ in range(b.T)])
            self.named.add(Values(m, d, name="odd").name)
        self.spy = Spy(m, flows=True)
        # parameters only seen through the recorders' selections still have to be evaluated for the log
        for x in self.named:
            self.spy.children.add(m.parameters[x])
        self.files = []
        for k in range(rng.randint(1, 3)):
            c = rng.randrange(5)
            self.files.append(CSV(self, k) if c == 0 else H5(self, k, 1 if c < 3 else 2))

    def limits(self, x, spy):
        """(minimum, maximum) of every step and combination, None where not known."""
        b, m = self.b, self.m
        sh = (len(spy.ts), b.S)

        def of(v):
            if isinstance(v, Parameter):
                return np.array(spy.par[v]).reshape(sh)
            return np.full(sh, float(v))
        nm = x.name
        if nm == "agst":
            return (sum(of(b.n[s].min_volume) for s in b.storages), sum(of(b.n[s].max_volume) for s in b.storages))
        if x in spy.vol1:
            return of(x.min_volume), of(x.max_volume)
        if nm == "agn" or (nm == "x" and b.compound != "link"):
            return None, None
        if nm not in b.n:
            return None, None
        return of(x.min_flow), of(x.max_flow)

    def verify(self, n, how):
        d = dict(how=how, steps=n, of=self.T, delta=str(self.b.cal.delta), select=self.b.how, shape=[len(self.m.scenarios.scenarios), self.b.S])
        for f in self.files:
            self.ctx.event("files read")
            f.check(self.spy, n, dict(d, file=type(f).__name__, version=getattr(f, "v", None), buffer=str(getattr(f, "buffer", None))))
            if getattr(f, "buffer", None) not in (None, 1, "size", "default"):
                bf = min(f.buffer, self.T)
                self.ctx.event("residual buffers" if n % bf else "whole buffers")

    def case(self):
        rng, m, ctx = self.rng, self.m, self.ctx
        ran = False
        history = []
        ops = rng.randint(1, 4)
        for k in range(ops):
            r = rng.random()
            if self.static or r < .4 or (k == ops - 1 and r < .75):
                op = "run"
            elif r < .55:
                op = "by hand"
            elif r < .7:
                op = "abandoned"
            elif r < .85:
                op = "interrupted"
            else:
                op = "shortened"
            if op == "shortened" and (self.b.cal.delta == "M" or self.T < 2):
                op = "run"
            history.append(op)
            if op in ("by hand", "abandoned"):
                if m.dirty or m.timestepper.dirty or not ran or rng.random() < .5:
                    m.setup()
                else:
                    m.reset()
                n = self.T if op == "by hand" and rng.random() < .6 else rng.randint(0, self.T)
                for _ in range(n):
                    m.step()
                ran = True
                if op == "abandoned":
                    ctx.event("abandoned before")
                    continue
                m.finish()
                ctx.event("stepped by hand")
                self.verify(n, history)
                continue
            if op == "shortened":
                self.T = rng.randint(1, self.T - 1)
                self.dates = self.dates[:self.T]
                m.timestepper.end = str(self.dates[-1][0])
                self.b.T = self.T
                ctx.event("shortened")
            if op == "interrupted":
                at = rng.randrange(self.T)
                self.bomb.at = at
                try:
                    m.run()
                    ctx.violation("no-fault", "the injected fault did not stop the run", history)
                except Boom:
                    pass
                self.bomb.at = None
                ran = True
                ctx.event("interrupted runs")
                self.verify(at, history)
                continue
            m.run()
            if ran:
                ctx.event("reruns")
            ran = True
            self.verify(self.T, history)


def case(ctx):
    with tempfile.TemporaryDirectory(prefix="pv21-") as tmp:
        g = G(ctx, tmp)
        try:
            g.case()
        finally:
            for h in g.handles:
                if h.isopen:
                    h.close()
            for f in g.files:
                f.rec = None
