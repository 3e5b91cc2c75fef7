"""Builds a model through the programming interface from a document that gen/rich made: the counterpart of Model.load, written independently."""
import copy

import pandas as pd

import pywr.domains.river as river
import pywr.nodes as N
import pywr.parameters as P
import pywr.parameters.control_curves as C
import pywr.parameters.licenses as L
import pywr.recorders as R
from pywr.core import Scenario
from pywr.model import Model


class Unsupported(Exception):
    pass


PARS = {
    "constant": P.ConstantParameter, "monthlyprofile": P.MonthlyProfileParameter, "dailyprofile": P.DailyProfileParameter, "weeklyprofile": P.WeeklyProfileParameter,
    "arrayindexed": P.ArrayIndexedParameter, "constantscenario": P.ConstantScenarioParameter, "arrayindexedscenario": P.ArrayIndexedScenarioParameter,
    "scenariomonthlyprofile": P.ScenarioMonthlyProfileParameter, "scenarioweeklyprofile": P.ScenarioWeeklyProfileParameter,
    "scenariodailyprofile": P.ScenarioDailyProfileParameter, "constantscenarioindex": P.ConstantScenarioIndexParameter,
    "arrayindexedscenariomonthlyfactors": P.ArrayIndexedScenarioMonthlyFactorsParameter, "aggregated": P.AggregatedParameter,
    "aggregatedindex": P.AggregatedIndexParameter, "min": P.MinParameter, "max": P.MaxParameter, "negativemin": P.NegativeMinParameter,
    "negativemax": P.NegativeMaxParameter, "negative": P.NegativeParameter, "division": P.DivisionParameter, "offset": P.OffsetParameter,
    "controlcurve": C.ControlCurveParameter, "controlcurveinterpolated": C.ControlCurveInterpolatedParameter,
    "controlcurvepiecewiseinterpolated": C.ControlCurvePiecewiseInterpolatedParameter, "controlcurveindex": C.ControlCurveIndexParameter,
    "indexedarray": P.IndexedArrayParameter, "storagethreshold": P.StorageThresholdParameter, "nodethreshold": P.NodeThresholdParameter,
    "parameterthreshold": P.ParameterThresholdParameter, "recorderthreshold": P.RecorderThresholdParameter, "currentyearthreshold": P.CurrentYearThresholdParameter,
    "currentordinaldaythreshold": P.CurrentOrdinalDayThresholdParameter, "multiplethresholdindex": P.MultipleThresholdIndexParameter,
    "multiplethresholdparameterindex": P.MultipleThresholdParameterIndexParameter, "rollingmeanflownode": P.RollingMeanFlowNodeParameter, "flow": P.FlowParameter,
    "flowdelay": P.FlowDelayParameter, "deficit": P.DeficitParameter, "storage": P.StorageParameter, "annuallicense": L.AnnualLicense,
    "annualexponentiallicense": L.AnnualExponentialLicense, "annualhyperbolalicense": L.AnnualHyperbolaLicense, "storagelicense": L.StorageLicense,
    "annualharmonicseries": P.AnnualHarmonicSeriesParameter, "rbfprofile": P.RbfProfileParameter, "uniformdrawdownprofile": P.UniformDrawdownProfileParameter,
    "discountfactor": P.DiscountFactorParameter, "piecewiseintegral": P.PiecewiseIntegralParameter, "interpolated": P.InterpolatedParameter,
    "interpolatedvolume": P.InterpolatedVolumeParameter, "interpolatedflow": P.InterpolatedFlowParameter, "polynomial1d": P.Polynomial1DParameter,
    "polynomial2dstorage": P.Polynomial2DStorageParameter, "scaledprofile": P.ScaledProfileParameter, "scenariowrapper": P.ScenarioWrapperParameter,
    "binarystep": P.BinaryStepParameter, "rectifier": P.RectifierParameter, "logistic": P.LogisticParameter, "hydropowertarget": P.HydropowerTargetParameter, "dataframe": P.DataFrameParameter,
}
# arguments that the constructors take by position, in order
FIRST = {"storagethreshold": ["storage_node"], "nodethreshold": ["node"], "parameterthreshold": ["parameter"], "recorderthreshold": ["recorder"]}
NODE = {"node", "storage_node"}
PAR = {"parameter", "index_parameter", "profile", "numerator", "denominator", "target", "water_elevation_parameter"}
MAYBE = {"threshold", "max_flow", "min_flow"}
PARS_LIST = {"parameters", "params"}
MAYBE_LIST = {"control_curves", "thresholds"}
RECS = {
    "numpyarraynode": R.NumpyArrayNodeRecorder, "numpyarraynodedeficit": R.NumpyArrayNodeDeficitRecorder, "numpyarraynodesuppliedratio": R.NumpyArrayNodeSuppliedRatioRecorder,
    "numpyarraynodecurtailmentratio": R.NumpyArrayNodeCurtailmentRatioRecorder, "numpyarraynodecost": R.NumpyArrayNodeCostRecorder, "flowdurationcurve": R.FlowDurationCurveRecorder,
    "seasonalflowdurationcurve": R.SeasonalFlowDurationCurveRecorder, "flowdurationcurvedeviation": R.FlowDurationCurveDeviationRecorder,
    "numpyarraystorage": R.NumpyArrayStorageRecorder, "storagedurationcurve": R.StorageDurationCurveRecorder, "numpyarrayparameter": R.NumpyArrayParameterRecorder,
    "numpyarraydailyprofileparameter": R.NumpyArrayDailyProfileParameterRecorder, "numpyarrayindexparameter": R.NumpyArrayIndexParameterRecorder,
    "rollingwindowparameter": R.RollingWindowParameterRecorder, "rollingmeanflownode": R.RollingMeanFlowNodeRecorder, "totaldeficitnode": R.TotalDeficitNodeRecorder,
    "totalflownode": R.TotalFlowNodeRecorder, "meanflownode": R.MeanFlowNodeRecorder, "deficitfrequencynode": R.DeficitFrequencyNodeRecorder,
    "minimumvolumestorage": R.MinimumVolumeStorageRecorder, "minimumthresholdvolumestorage": R.MinimumThresholdVolumeStorageRecorder,
    "timestepcountindexparameter": R.TimestepCountIndexParameterRecorder, "annualcountindexthreshold": R.AnnualCountIndexThresholdRecorder,
    "annualtotalflow": R.AnnualTotalFlowRecorder, "annualcountindexparameter": R.AnnualCountIndexParameterRecorder, "totalparameter": R.TotalParameterRecorder,
    "meanparameter": R.MeanParameterRecorder, "event": R.EventRecorder, "numpyarraynormalisedstorage": R.NumpyArrayNormalisedStorageRecorder,
    "aggregated": R.AggregatedRecorder,
}
SIMPLE = {"input": N.Input, "output": N.Output, "link": N.Link, "river": river.River, "catchment": river.Catchment, "discharge": river.Discharge}
STORE = {"storage": N.Storage, "reservoir": river.Reservoir}
VIRT = {"virtualstorage": N.VirtualStorage, "annualvirtualstorage": N.AnnualVirtualStorage, "seasonalvirtualstorage": N.SeasonalVirtualStorage,
        "monthlyvirtualstorage": N.MonthlyVirtualStorage, "rollingvirtualstorage": N.RollingVirtualStorage}
COMPOUND = {"piecewiselink": N.PiecewiseLink, "losslink": N.LossLink, "delaynode": N.DelayNode, "breaklink": N.BreakLink, "multisplitlink": N.MultiSplitLink,
            "rivergauge": river.RiverGauge, "riversplit": river.RiverSplit, "riversplitwithgauge": river.RiverSplitWithGauge}
VALUES = {"max_flow", "min_flow", "cost", "flow", "max_volume", "min_volume", "loss_factor", "mrf", "mrf_cost"}
VALUE_LISTS = {"costs", "max_flows", "factors"}


def kind(d):
    t = d["type"].lower()
    return t[:-len("parameter")] if t.endswith("parameter") else t


class Builder:
    def __init__(self, doc, solver=None, rng=None, **args):
        self.doc = copy.deepcopy(doc)
        ts = self.doc["timestepper"]
        kw = dict(start=pd.to_datetime(ts["start"]), end=pd.to_datetime(ts["end"]), timestep=ts["timestep"])
        if solver:
            kw.update(solver=solver, solver_args=args)
        self.m = Model(**kw)
        self.m.metadata = self.doc["metadata"]
        self.n, self.p, self.r, self.s = {}, {}, {}, {}
        self.later = []
        self.busy = set()

    def scen(self):
        for s in self.doc.get("scenarios", []):
            kw = {k: s[k] for k in ("ensemble_names",) if k in s}
            if "slice" in s:
                kw["slice"] = slice(*s["slice"])
            self.s[s["name"]] = Scenario(self.m, s["name"], size=s["size"], **kw)
        if "scenario_combinations" in self.doc:
            self.m.scenarios.user_combinations = self.doc["scenario_combinations"]

    # ---- parameters
    def par(self, ref):
        if isinstance(ref, str):
            if ref not in self.p:
                if ref in self.busy:
                    raise Unsupported("cycle")
                self.busy.add(ref)
                self.p[ref] = self.make(self.doc["parameters"][ref], ref)
                self.busy.discard(ref)
            return self.p[ref]
        if isinstance(ref, (int, float)):
            return P.ConstantParameter(self.m, ref)
        return self.make(ref)

    def maybe(self, ref):
        return self.par(ref) if isinstance(ref, (str, dict)) else ref

    def make(self, d, name=None):
        d = dict(d)
        k = kind(d)
        cls = PARS.get(k)
        if cls is None:
            raise Unsupported(k)
        del d["type"]
        kw = {}
        if k == "dataframe":
            data, col = d.pop("data"), d.pop("column", None)
            assert d.pop("parse_dates")
            df = pd.DataFrame({c: list(x.values()) for c, x in data.items()}, index=pd.period_range(min(next(iter(data.values()))), periods=len(next(iter(data.values()))), freq="D"))
            d["dataframe"] = df if col is None else df[col] if len(name or "") % 2 else df[[col]]
        for key, v in d.items():
            if key in ("comment", "tags"):
                kw[key] = v
            elif key in NODE:
                kw[key] = self.n[v]
            elif key in PAR or (key in MAYBE and k == "hydropowertarget"):
                kw[key] = self.par(v)
            elif key in MAYBE:
                kw[key] = self.maybe(v)
            elif key in PARS_LIST:
                kw[key] = [self.par(x) for x in v]
            elif key in MAYBE_LIST:
                kw[key] = [self.maybe(x) for x in v]
            elif key == "scenario":
                kw[key] = self.s[v]
            elif key == "recorder":
                kw[key] = self.rec(v)
            elif key == "interp_kwargs":
                v = dict(v)
                if "fill_value" in v:
                    v["fill_value"] = tuple(v["fill_value"])
                kw[key] = v
            elif k in ("arrayindexed", "arrayindexedscenario", "arrayindexedscenariomonthlyfactors", "scenariomonthlyprofile", "scenarioweeklyprofile", "scenariodailyprofile",
                       "dailyprofile", "weeklyprofile", "monthlyprofile", "constantscenario", "constantscenarioindex") and key in ("values", "factors"):
                import numpy as np
                kw[key] = np.array(v, dtype=np.int32 if k == "constantscenarioindex" else float)
            else:
                kw[key] = v
        if name:
            kw["name"] = name
        pos = []
        for f in FIRST.get(k, []):
            pos.append(kw.pop(f))
        return cls(self.m, *pos, **kw)

    # ---- recorders
    def rec(self, name):
        if name in self.r:
            return self.r[name]
        d = dict(self.doc["recorders"][name])
        k = d.pop("type").lower()
        if k.endswith("recorder"):
            k = k[:-len("recorder")]
        cls = RECS.get(k)
        if cls is None:
            raise Unsupported(k)
        kw = {}
        for key, v in d.items():
            if key == "node":
                kw[key] = self.n[v]
            elif key == "nodes":
                kw[key] = [self.n[x] for x in v]
            elif key == "parameter":
                kw[key] = self.par(v)
            elif key == "parameters":
                kw[key] = [self.par(x) for x in v]
            elif key == "recorders":
                kw[key] = [self.rec(x) for x in v]
            elif key == "threshold" and k == "event":
                kw[key] = self.maybe(v)
            else:
                kw[key] = v
        first = []
        for f in ("node", "nodes", "parameter", "parameters", "recorders") if k != "event" else ():
            if f in kw:
                first.append(kw.pop(f))
                break
        if k == "annualtotalflow":  # takes its name first
            self.r[name] = cls(self.m, name, *first, **kw)
            return self.r[name]
        self.r[name] = cls(self.m, *first, name=name, **kw)
        return self.r[name]

    # ---- nodes
    def plain(self, d, keep=()):
        """Keyword arguments that are not parameters; the others are set once every node exists."""
        kw, late = {}, {}
        for key, v in d.items():
            if key in ("type", "name", "domain", "conversion_factor"):
                continue
            if key in VALUES and isinstance(v, (str, dict)):
                late[key] = v
            else:
                kw[key] = v
        return kw, late

    def full(self, d):
        kw = {}
        for key, v in d.items():
            if key in ("type", "name", "domain", "conversion_factor"):
                continue
            if key in VALUES:
                kw[key] = self.maybe(v)
            elif key in VALUE_LISTS:
                kw[key] = [self.maybe(x) for x in v]
            elif key == "nodes":
                kw[key] = [self.n[x] for x in v]
            elif key == "storage_nodes":
                kw[key] = [self.n[x] for x in v]
            else:
                kw[key] = v
        return kw

    def build(self):
        m, doc = self.m, self.doc
        self.scen()
        late = []
        for d in doc["nodes"]:
            t = d["type"].lower()
            if t in SIMPLE or t in STORE:
                kw, lt = self.plain(d)
                # a reservoir derives its cost from the constructor's
                if t == "reservoir":
                    if isinstance(d.get("cost"), (str, dict)) and "above_curve_cost" in d:
                        raise Unsupported("reservoir")
                self.n[d["name"]] = (SIMPLE.get(t) or STORE.get(t))(m, d["name"], **kw)
                late.append((d["name"], lt))
        rest = [d for d in doc["nodes"] if d["name"] not in self.n]
        virtual = {**VIRT, "aggregatednode": N.AggregatedNode, "aggregatedstorage": N.AggregatedStorage}
        # groups once their members exist; compound nodes take their parameters at once, so as late as possible
        while rest:
            d = next((d for d in rest if d["type"].lower() in virtual and all(x in self.n for k in ("nodes", "storage_nodes") for x in d.get(k, ()))), None) or \
                next((d for d in rest if d["type"].lower() in COMPOUND), None)
            if d is None:
                raise Unsupported(rest[0]["type"].lower())
            rest.remove(d)
            t = d["type"].lower()
            if t in COMPOUND:
                try:
                    self.n[d["name"]] = COMPOUND[t](m, name=d["name"], **self.full(d))
                except KeyError:
                    raise Unsupported("a parameter of a compound node that needs a later node")
                continue
            kw, lt = self.plain(d)
            for k in ("nodes", "storage_nodes"):
                if k in kw:
                    kw[k] = [self.n[x] for x in kw[k]]
            if t == "aggregatednode":
                for k in ("max_flow", "min_flow", "factors"):
                    if k in kw:
                        lt[k] = kw.pop(k)
            self.n[d["name"]] = virtual[t](m, d["name"], **kw)
            late.append((d["name"], lt))
        for name, lt in late:
            for k, v in lt.items():
                setattr(self.n[name], k, [self.maybe(x) for x in v] if k == "factors" else self.maybe(v))
        for name in doc.get("parameters", {}):
            self.par(name)
        for name in doc.get("recorders", {}):
            self.rec(name)
        for e in doc["edges"]:
            fs, ts = (e[2], e[3]) if len(e) > 2 else (None, None)
            self.n[e[0]].connect(self.n[e[1]], from_slot=fs, to_slot=ts)
        return m


def build(doc, solver=None, **args):
    from pywr._core import Domain
    b = Builder(doc, solver, **args)
    m = b.build()
    objs = {}
    for d in doc["nodes"]:
        if d.get("domain"):
            m.nodes[d["name"]].domain = objs.setdefault(d["domain"], Domain(d["domain"]))
        if "conversion_factor" in d:
            m.nodes[d["name"]].conversion_factor = d["conversion_factor"]
    return m
