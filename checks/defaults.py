"""Documented defaults: a component made without its optional arguments behaves, in every step and
scenario, as one made with the documented default values given.  One table per property; each check
adds its own rows with tasks(prop)."""
import numpy as np
from checks.lib import *
from pywr import parameters as P, recorders as R, nodes as N
from pywr.parameters import _thresholds as PT


class Ctx:
    """A small model with free flows and the inputs the components below need."""

    def __init__(self, env, n=3, start="2015-12-31", storage=False):
        import pandas
        self.env = env
        end = pandas.Timestamp(start) + pandas.Timedelta(days=n - 1)
        free = flows(env, ("in", "link", "out"), 1, 1000)

        def fn(node, t, s):
            if node.name == "sto":
                return env.real("net_%d_%d" % (t, s), -100, 100)
            return free(node, t, s)
        self.m = m = model(env, [2], start=start, end=end, flow=fn)
        self.sto = Storage(m, "sto", max_volume=1000.0, initial_volume=500.0)
        m.nodes["in"].connect(self.sto)
        self.sto.connect(m.nodes["out"])
        self.link, self.out, self.inp = m.nodes["link"], m.nodes["out"], m.nodes["in"]
        self.link.max_flow = 2000.0
        self.out.max_flow = 2000.0

    def var(self, name="p", lo=1, hi=100):
        return Var(self.m, self.env, name, lo, hi)

    def idx(self, name="i", hi=3):
        return IndexVar(self.m, self.env, name, hi)

    def rec(self, name="r"):
        return R.NumpyArrayNodeRecorder(self.m, self.link, name=name)


class Row:
    def __init__(self, prop, cls, args, defaults, given=None, n=3, start="2015-12-31", attrs=None, what="value"):
        self.prop, self.cls, self.args, self.defaults = prop, cls, args, defaults
        self.given, self.n, self.start, self.what = given or (lambda c: {}), n, start, what


def h_defaults(env, row):
    c = Ctx(env, row.n, row.start)
    a_args = row.args(c)
    kw = row.given(c)
    dflt = row.defaults(c) if callable(row.defaults) else row.defaults
    mk = row.cls() if isinstance(row.cls, type(lambda: 0)) else row.cls
    objs = {"none given": mk(c.m, *a_args, name="none", **kw)}
    objs["all given"] = mk(c.m, *a_args, name="all", **dict(kw, **dflt))
    for k in dflt:                      # one given, the rest left out: no argument stands in for another
        if len(dflt) > 1:
            objs["only %s given" % k] = mk(c.m, *a_args, name="only_" + k, **dict(kw, **{k: dflt[k]}))
    ref = objs["all given"]
    isp = isinstance(ref, Parameter)
    for ts in steps(c.m):
        if not isp:
            continue
        for si in c.m.scenarios.combinations:
            for w, o in objs.items():
                if o is ref:
                    continue
                env.eq(o.get_value(si), ref.get_value(si), "value with " + w)
                if isinstance(ref, P.IndexParameter):
                    env.eq(o.get_index(si), ref.get_index(si), "index with " + w)
    if isp:
        return
    c.m.finish()
    for w, o in objs.items():
        if o is ref:
            continue
        if "values" in row.what:
            env.eqs(list(o.values()), list(ref.values()), "values with " + w)
        if "data" in row.what:
            env.eqs([x for r in o.data for x in r], [x for r in ref.data for x in r], "data with " + w)
        if "agg" in row.what:
            env.eq(o.aggregated_value(), ref.aggregated_value(), "aggregate with " + w)


ARRAY = dict(temporal_agg_func="mean", agg_func="mean", ignore_nan=False, factor=1.0)
STOR = dict(temporal_agg_func="mean", agg_func="mean", ignore_nan=False)
HYDRO = dict(turbine_elevation=0.0, efficiency=1.0, density=1000.0, flow_unit_conversion=1.0, energy_unit_conversion=1e-6)
NONE = lambda c: ()
LINK = lambda c: (c.link,)
STO = lambda c: (c.sto,)
PAR = lambda c: (c.var("p", -100, 100),)

ROWS = {
    "constant": Row("C18", P.ConstantParameter, lambda c: (c.env.real("k"),), dict(scale=1.0, offset=0.0)),
    "binary": Row("C18", P.BinaryStepParameter, NONE, dict(value=0.0, output=1.0)),
    "binary-at": Row("C18", P.BinaryStepParameter, lambda c: (c.env.real("k", -1, 1),), dict(output=1.0)),
    "rectifier": Row("C18", P.RectifierParameter, NONE, dict(value=0.0, min_output=0.0, max_output=1.0)),
    "rectifier-at": Row("C18", P.RectifierParameter, lambda c: (c.env.real("k", -1, 1),), dict(min_output=0.0, max_output=1.0)),
    "logistic": Row("C18", P.LogisticParameter, NONE, dict(value=0.0, max_output=1.0, growth_rate=1.0)),
    "logistic-at": Row("C18", P.LogisticParameter, lambda c: (c.env.real("k", -6, 6),), dict(max_output=1.0, growth_rate=1.0)),
    "negative-max": Row("C18", P.NegativeMaxParameter, PAR, dict(threshold=0.0)),
    "negative-min": Row("C18", P.NegativeMinParameter, PAR, dict(threshold=0.0)),
    "max": Row("C18", P.MaxParameter, PAR, dict(threshold=0.0)),
    "min": Row("C18", P.MinParameter, PAR, dict(threshold=0.0)),
    "offset": Row("C18", P.OffsetParameter, PAR, dict(offset=0.0)),
    "polynomial": Row("C18", P.Polynomial1DParameter, lambda c: ([1.0, 2.0, 3.0],), dict(offset=0.0, scale=1.0, use_proportional_volume=False),
                      lambda c: dict(storage_node=c.sto)),
    "polynomial2": Row("C18", P.Polynomial2DStorageParameter, lambda c: ([[1.0, 2.0], [3.0, 4.0]], c.sto, c.var("p", -10, 10)),
                       dict(storage_offset=0.0, storage_scale=1.0, parameter_offset=0.0, parameter_scale=1.0, use_proportional_volume=False)),
    "hydropower-target": Row("C19", P.HydropowerTargetParameter, lambda c: (c.var("p", 1, 100),), dict(HYDRO, min_head=0.0),
                             lambda c: dict(water_elevation_parameter=c.var("w", -10, 100))),
    "hydropower": Row("C19", R.HydropowerRecorder, LINK, HYDRO, lambda c: dict(water_elevation_parameter=c.var("w", -10, 100)),
                      n=2, what="data values agg"),
    "hydro-energy": Row("C19", R.TotalHydroEnergyRecorder, LINK, HYDRO, lambda c: dict(water_elevation_parameter=c.var("w", -10, 100)),
                        n=2, what="values agg"),
    "drawdown": Row("C13", P.UniformDrawdownProfileParameter, NONE, dict(reset_day=1, reset_month=1, residual_days=0)),
    "flow": Row("C17", P.FlowParameter, LINK, dict(initial_value=0.0)),
    "storage": Row("C17", P.StorageParameter, STO, dict(use_proportional_volume=False)),
    "delay": Row("C17", P.FlowDelayParameter, LINK, dict(initial_flow=0.0), lambda c: dict(timesteps=1)),
    "rolling": Row("C17", P.RollingMeanFlowNodeParameter, LINK, dict(initial_flow=0.0), lambda c: dict(timesteps=2)),
    "thr-storage": Row("C16", P.StorageThresholdParameter, lambda c: (c.sto, 500.0), dict(ratchet=False), lambda c: dict(predicate="LT", values=[3.0, 7.0])),
    "thr-node": Row("C16", P.NodeThresholdParameter, lambda c: (c.link, 500.0), dict(ratchet=False), lambda c: dict(predicate="GT", values=[3.0, 7.0])),
    "thr-parameter": Row("C16", P.ParameterThresholdParameter, lambda c: (c.var(), 50.0), dict(ratchet=False), lambda c: dict(predicate="GE", values=[3.0, 7.0])),
    "thr-recorder": Row("C16", P.RecorderThresholdParameter, lambda c: (c.rec(), 500.0), dict(initial_value=1, ratchet=False),
                        lambda c: dict(predicate="GT", values=[3.0, 7.0])),
    "thr-many": Row("C16", P.MultipleThresholdIndexParameter, lambda c: (c.link, [500.0, 100.0]), dict(use_max_flow=False)),
    "piecewise": Row("C15", P.ControlCurvePiecewiseInterpolatedParameter, lambda c: (c.sto, [0.5], [[1.0, 2.0], [3.0, 4.0]]), dict(minimum=0.0, maximum=1.0)),
    "total-flow": Row("C24", R.TotalFlowNodeRecorder, LINK, dict(factor=1.0, agg_func="mean", ignore_nan=False), what="values agg"),
    "mean-flow": Row("C24", R.MeanFlowNodeRecorder, LINK, dict(factor=1.0, agg_func="mean", ignore_nan=False), what="values agg"),
    "total-par": Row("C24", R.TotalParameterRecorder, PAR, dict(factor=1.0, integrate=False, agg_func="mean", ignore_nan=False), what="values agg"),
    "mean-par": Row("C24", R.MeanParameterRecorder, PAR, dict(factor=1.0, agg_func="mean", ignore_nan=False), what="values agg"),
    "annual-total": Row("C24", lambda: annual_total, lambda c: ([c.link, c.out],), dict(temporal_agg_func="sum", factors=[1.0, 1.0], agg_func="mean"), what="values agg"),
    "annual-count": Row("C24", lambda: annual_count, lambda c: ([c.idx("i", 2)],), dict(temporal_agg_func="sum", agg_func="mean"), what="values agg", n=2),
    "array-flow": Row("C23", R.NumpyArrayNodeRecorder, LINK, ARRAY, what="data values agg"),
    "array-deficit": Row("C23", R.NumpyArrayNodeDeficitRecorder, LINK, dict(ARRAY), what="data values agg"),
    "array-supplied": Row("C23", R.NumpyArrayNodeSuppliedRatioRecorder, LINK, dict(STOR), what="data values agg"),
    "array-curtailment": Row("C23", R.NumpyArrayNodeCurtailmentRatioRecorder, LINK, dict(STOR), what="data values agg"),
    "array-storage": Row("C23", R.NumpyArrayStorageRecorder, STO, dict(STOR, proportional=False), what="data values agg"),
    "array-parameter": Row("C23", R.NumpyArrayParameterRecorder, PAR, STOR, what="data values agg"),
    "array-profile": Row("C23", R.NumpyArrayDailyProfileParameterRecorder, PAR, STOR, what="data", n=2),
    "array-index": Row("C23", R.NumpyArrayIndexParameterRecorder, lambda c: (c.idx(),), STOR, what="data"),
    "sum-of-recorders": Row("C25", lambda: R.AggregatedRecorder, lambda c: ([c.rec("r1"), c.rec("r2")],), dict(recorder_agg_func="mean", agg_func="mean"), what="values agg"),
    "follow-agg-func": Row("C25", lambda: R.AggregatedRecorder, lambda c: ([c.rec("r1"), c.rec("r2")],), dict(recorder_agg_func="max"), lambda c: dict(agg_func="max"), what="values agg"),
    "mean-level": Row("C24", R.MinimumVolumeStorageRecorder, STO, dict(agg_func="mean"), what="values agg"),
}


def annual_total(m, nodes, name=None, **kw):
    return R.AnnualTotalFlowRecorder(m, name, nodes, **kw)


def annual_count(m, pars, name=None, **kw):
    return R.AnnualCountIndexThresholdRecorder(m, pars, name, 2, **kw)


VIRTUAL = {
    "virtual": ("C06", "VirtualStorage", dict(factors=[1.0, 1.0], cost=0.0), {}),
    "annual": ("C21", "AnnualVirtualStorage", dict(reset_day=1, reset_month=1, reset_to_initial_volume=False), {}),
    "seasonal": ("C21", "SeasonalVirtualStorage", dict(reset_day=1, reset_month=1, end_day=31, end_month=12, reset_to_initial_volume=False), {}),
    "monthly": ("C21", "MonthlyVirtualStorage", dict(months=1, initial_months=0, reset_to_initial_volume=False), {}),
    "rolling": ("C21", "RollingVirtualStorage", dict(factors=[1.0, 1.0]), dict(timesteps=2)),
}


def h_virtual(env, kind):
    """Licences over the end of December, made with and without their documented defaults."""
    prop, cls, dflt, given = VIRTUAL[kind]
    c = Ctx(env, 4, "2015-12-30")

    def make(name, **kw):
        return getattr(N, cls)(c.m, name=name, nodes=[c.link, c.out], max_volume=4000.0, initial_volume=3000.0, **kw)
    objs = {"none given": make("none", **given), "all given": make("all", **dict(given, **dflt))}
    for k in dflt:
        objs["only %s given" % k] = make("only_" + k, **dict(given, **{k: dflt[k]}))
    objs["nodes given by position"] = getattr(N, cls)(c.m, "position", [c.link, c.out], max_volume=4000.0, initial_volume=3000.0,
                                                      **dict(given, **dflt))
    ref = objs["all given"]
    for ts in steps(c.m):
        for w, o in objs.items():
            env.eqs(list(o.volume), list(ref.volume), "volume with " + w)
            env.eqs(list(o.current_pc), list(ref.current_pc), "fraction with " + w)
            env.check(bool(o.active) == bool(ref.active), "active with " + w)


def tasks(prop):
    return [task(h_named, name="defaults(%s)" % k, params=dict(kind=k)) for k, r in ROWS.items() if r.prop == prop] \
        + [task(h_virtual, name="defaults(%s)" % k, params=dict(kind=k)) for k, r in VIRTUAL.items() if r[0] == prop]


def h_named(env, kind):
    h_defaults(env, ROWS[kind])


def extend(prop, harnesses):
    """The check's own harnesses plus its rows of the table above."""
    return lambda tier: list(harnesses(tier)) + tasks(prop)
