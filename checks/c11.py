"""C11: a reset returns every component to its initial state."""
import datetime
import numpy as np
from checks.lib import *
from pywr.nodes import *
from pywr.nodes import Storage, VirtualStorage
from pywr.parameters import *
from pywr.parameters._thresholds import *
from pywr.parameters.control_curves import *
from pywr.recorders import *
from pywr.recorders.events import *
from pywr.parameters.licenses import *
from pywr.domains.groundwater import KeatingAquifer

BOUNDS = "2 runs of 3 time-steps (other run lengths and start dates where dates matter), 2 scenarios, any flows, parameter " \
         "values and storage volumes in each run, independently"
OUTSIDE = ["changing the scenarios or components between the two runs (that needs a new setup)"]


class World:
    """The values seen in a run depend on the run's number, the time-step and the scenario."""

    def __init__(self, env, run):
        self.env, self.run = env, run

    def real(self, name, t, s, lo=0, hi=50):
        return self.env.real("%s_r%d_%d_%d" % (name, self.run, t, s), lo, hi)

    def int(self, name, t, s, hi=2):
        return self.env.int("%s_r%d_%d_%d" % (name, self.run, t, s), 0, hi)


class WVar(Parameter):
    def __init__(self, model, name, lo=0, hi=50, **kw):
        super().__init__(model, name=name, **kw)
        self.vname, self.lo, self.hi = name, lo, hi

    def value(self, ts, si):
        return self.model.world.real(self.vname, ts.index, si.global_id, self.lo, self.hi)


class WIndex(IndexParameter):
    def __init__(self, model, name, hi=2, **kw):
        super().__init__(model, name=name, **kw)
        self.vname, self.hi = name, hi

    def index(self, ts, si):
        return self.model.world.int(self.vname, ts.index, si.global_id, self.hi)

    def value(self, ts, si):
        return 0.0


class Peek(Parameter):
    """What a parameter sees while it is evaluated: the state before the step's allocation."""

    def value(self, ts, si):
        s = si.global_id
        if s == 0:
            self.seen = []
        for n in self.watch:
            self.seen += [n.prev_flow[s], n.flow[s]]
            if hasattr(n, "volume"):
                self.seen += [n.volume[s], n.current_pc[s]]
        return 0.0


def make(env, case, run, dates, scen):
    """A fresh model of the case, and its observers."""
    start, end, step = dates
    free = []

    def flow(node, t, s):
        if node.name in free or (node.parent is not None and node.name in m.subs):
            return m.world.real("flow_" + m.subs.get(node.name, node.name), t, s)
        return None
    m = model(env, [scen], start=start, end=end, timestep=step, flow=flow)
    m.world = World(env, run)
    m.subs = {}
    free.extend(["in"])
    per_step, at_end = [], []
    CASES[case](m, free, per_step, at_end)
    peek = Peek(m, name="peek")
    peek.watch = [n for n in m.graph.nodes()]
    per_step.append(lambda: peek.seen)
    return m, per_step, at_end


def drive(m, per_step, at_end, n):
    out = []
    for t in range(n):
        m.step()
        out.append([list(f()) for f in per_step])
    m.finish()
    out.append([list(f()) for f in at_end])
    return out


def h_rerun(env, case, dates=("2015-12-30", "2016-01-01", 1), dates1=None, scen=2, how="reset"):
    m, per_step, at_end = make(env, case, 1, dates1 or dates, scen)
    m.run()
    if dates1:
        m.timestepper.start, m.timestepper.end, m.timestepper.delta = dates
    m.world.run = 2
    if how == "reset":
        m.setup() if m.timestepper.dirty else m.reset()
    else:
        m.setup()
    n = len(m.timestepper)
    again = drive(m, per_step, at_end, n)
    f, per_step, at_end = make(env, case, 2, dates, scen)
    f.setup()
    fresh = drive(f, per_step, at_end, len(f.timestepper))
    env.check(len(again) == len(fresh), "the same steps are run")
    for t, (a, b) in enumerate(zip(again, fresh)):
        for x, y in zip(a, b):
            env.check(len(x) == len(y), "the same number of results")
            for u, v in zip(x, y):
                env.eq(u, v, "the second run gives what a first run gives")


# ---------------------------------------------------------------- cases
def vals(p, m):
    return lambda: [p.get_value(si) for si in m.scenarios.combinations]


def inds(p, m):
    return lambda: [p.get_index(si) for si in m.scenarios.combinations]


def flow_of(n):
    return lambda: list(n.flow) + list(n.prev_flow)


def store(n):
    return lambda: list(n.volume) + list(n.flow) + list(n.prev_flow)


def storage(m, name="st", free=None, **kw):
    st = Storage(m, name, **{**dict(max_volume=1000, initial_volume=100), **kw})
    a, b = Input(m, name + "_in"), Output(m, name + "_out")
    a.connect(st)
    st.connect(b)
    m.subs["[output0]"] = name + "_fill"
    m.subs["[input0]"] = name + "_spill"
    return st


def c_storage(m, free, ps, ae):
    st = storage(m)
    ps += [store(st), flow_of(st.inputs[0]), flow_of(st.outputs[0])]
    agg = AggregatedStorage(m, "agg", [st])
    ps.append(store(agg))
    an = AggregatedNode(m, "an", [m.nodes["in"], m.nodes["st_in"]])
    ps.append(flow_of(an))
    ps.append(lambda: list(st.current_pc))


def c_storage_param(m, free, ps, ae):
    mx = WVar(m, "mx", 800, 1000)
    st = storage(m, max_volume=mx, initial_volume=100, initial_volume_pc=0.2)
    ps += [store(st), lambda: list(st.current_pc)]


def c_storage_two(m, free, ps, ae):
    """Two storages whose combined state is watched."""
    st = storage(m)
    s2 = Storage(m, "s2", max_volume=50, initial_volume_pc=0.5)
    free += ["s2"]
    a = Input(m, "i2")
    a.connect(s2)
    s2.connect(Output(m, "o2"))
    agg = AggregatedStorage(m, "agg", [st, s2])
    ps += [store(agg), lambda: list(agg.current_pc)]


def c_agg_pc(m, free, ps, ae):
    """A control curve on an aggregated storage whose members' capacity changes."""
    mx = WVar(m, "mx", 800, 1000)
    st = storage(m, max_volume=mx, initial_volume=100, initial_volume_pc=0.2)
    agg = AggregatedStorage(m, "agg", [st])
    ps += [store(agg), lambda: list(agg.current_pc)]


def vs(cls, **kw):
    def build(m, free, ps, ae):
        v = cls(m, "vs", nodes=[m.nodes["in"]], **{**dict(max_volume=200, initial_volume=150), **kw})
        ps += [store(v), lambda: [int(v.active)]]
    return build


def c_delay(m, free, ps, ae):
    d = DelayNode(m, "delay", timesteps=2, initial_flow=3.0)
    Input(m, "di").connect(d)
    d.connect(Output(m, "do"))
    free += ["delay Output"]
    ps += [flow_of(d), vals(d.delay_param, m)]


def c_compound(m, free, ps, ae):
    b = BreakLink(m, "break")
    Input(m, "bi").connect(b)
    b.connect(Output(m, "bo"))
    l = LossLink(m, "loss", loss_factor=0.1)
    Input(m, "li").connect(l)
    l.connect(Output(m, "lo"))
    p = PiecewiseLink(m, name="pw", nsteps=2, costs=[1, 2], max_flows=[10, None])
    Input(m, "pi").connect(p)
    p.connect(Output(m, "po"))
    free += ["break (link)", "loss Net", "pw Sublink 0", "pw Sublink 1"]
    ps += [flow_of(b), flow_of(l), flow_of(p), flow_of(b.link), flow_of(l.net), flow_of(p.sublinks[0])]


def c_lookback(m, free, ps, ae):
    i = m.nodes["in"]
    i.max_flow = WVar(m, "mf")
    p = [FlowParameter(m, i, initial_value=2.0), FlowDelayParameter(m, i, timesteps=2, initial_flow=1.0),
         RollingMeanFlowNodeParameter(m, i, timesteps=2, initial_flow=4.0), DeficitParameter(m, i),
         DiscountFactorParameter(m, 0.05, 2014)]
    ps += [vals(x, m) for x in p]


def c_volume_params(m, free, ps, ae):
    st = storage(m)
    p = [StorageParameter(m, st), StorageParameter(m, st, use_proportional_volume=True)]
    ps += [vals(x, m) for x in p]


def c_interpolated_volume(m, free, ps, ae):
    st = storage(m)
    ps.append(vals(InterpolatedVolumeParameter(m, st, [0, 500, 1000], [0, 10, 30]), m))


def c_control_curve(m, free, ps, ae):
    st = storage(m)
    ps.append(vals(ControlCurveParameter(m, st, WVar(m, "cc", 0, 1), values=[1.0, 2.0]), m))


def c_thresholds(m, free, ps, ae):
    i = m.nodes["in"]
    st = storage(m)
    w = WVar(m, "w")
    p = [StorageThresholdParameter(m, st, 120, predicate="<", ratchet=True),
         NodeThresholdParameter(m, i, 20, predicate=">", ratchet=True)]
    ps += [inds(x, m) for x in p]


def c_thresholds2(m, free, ps, ae):
    i = m.nodes["in"]
    w = WVar(m, "w")
    r = NumpyArrayNodeRecorder(m, i)
    p = [ParameterThresholdParameter(m, w, 10, predicate=">=", ratchet=True),
         RecorderThresholdParameter(m, r, 10, predicate=">=", ratchet=True, initial_value=0)]
    ps += [inds(x, m) for x in p]


def c_thresholds3(m, free, ps, ae):
    p = [CurrentYearThresholdParameter(m, 2016, predicate="GE", ratchet=True),
         CurrentOrdinalDayThresholdParameter(m, datetime.date(2015, 12, 31).toordinal(), predicate="EQ", ratchet=True)]
    ps += [inds(x, m) for x in p]


def c_thresholds4(m, free, ps, ae):
    ps.append(inds(MultipleThresholdIndexParameter(m, m.nodes["in"], [30.0, 10.0]), m))


def c_thresholds5(m, free, ps, ae):
    ps.append(inds(MultipleThresholdParameterIndexParameter(m, WVar(m, "w"), [30.0, 10.0]), m))


def licence(cls, **kw):
    def build(m, free, ps, ae):
        p = cls(m, m.nodes["in"], **kw)
        ps.append(vals(p, m))
    return build


def c_harmonic(m, free, ps, ae):
    p = AnnualHarmonicSeriesParameter(m, 0.5, [0.25], [0.1])
    u = UniformDrawdownProfileParameter(m, 1, 4, 2)
    mp = MonthlyProfileParameter(m, [float(x) for x in range(12)], interp_day="first")
    ps += [vals(p, m), vals(u, m), vals(mp, m)]


def rec(*make_):
    def build(m, free, ps, ae):
        i = m.nodes["in"]
        i.max_flow = WVar(m, "mf")
        for f in make_:
            r = f(m, i)
            ae.append(lambda r=r: list(r.values()) + [r.aggregated_value()])
            if hasattr(type(r), "data") and not isinstance(r, NumpyArrayDailyProfileParameterRecorder):
                ae.append(lambda r=r: [x for row in r.data for x in row])
            if isinstance(r, NumpyArrayDailyProfileParameterRecorder):
                ae.append(lambda r=r: [x for k in (0, 1, 59, 363, 364, 365) for x in r.data[k]])
    return build


def srec(*make_):
    def build(m, free, ps, ae):
        st = storage(m, level=WVar(m, "lv"), area=WVar(m, "ar"))
        for f in make_:
            r = f(m, st)
            ae.append(lambda r=r: list(r.values()) + [r.aggregated_value()])
            if hasattr(type(r), "data"):
                ae.append(lambda r=r: [x for row in r.data for x in row])
    return build


def prec(*make_, index=False, hasvals=True):
    def build(m, free, ps, ae):
        p = WIndex(m, "ix") if index else WVar(m, "w")
        for f in make_:
            r = f(m, p)
            if hasvals:
                ae.append(lambda r=r: list(r.values()) + [r.aggregated_value()])
            if hasattr(type(r), "data") and not isinstance(r, NumpyArrayDailyProfileParameterRecorder):
                ae.append(lambda r=r: [x for row in r.data for x in row])
            if isinstance(r, NumpyArrayDailyProfileParameterRecorder):
                ae.append(lambda r=r: [x for k in (0, 1, 59, 363, 364, 365) for x in r.data[k]])
    return build


def c_events(m, free, ps, ae):
    ix = WIndex(m, "ix", hi=1)
    w = WVar(m, "w")
    e = EventRecorder(m, ix, tracked_parameter=w)

    def events():
        out = []
        for v in e.events:
            out += [v.scenario_index.global_id, v.start.index, v.end.index] + list(v.values)
        return out
    ae.append(events)


def c_keating(m, free, ps, ae):
    k = KeatingAquifer(m, "aq", num_streams=1, num_additional_inputs=1, stream_flow_levels=[[20, 30]], transmissivity=[1.0, 2.0],
                       coefficient=1, levels=[0, 50, 100], volumes=[0, 500, 2000], initial_volume=1000)
    Input(m, "ai").connect(k)
    k.connect(Output(m, "ao"), from_slot=0)
    k.connect(Output(m, "ap"), from_slot=1)
    m.subs["[output0]"], m.subs["[input0]"] = "fill", "spill"
    ps += [store(k), vals(k.level, m), vals(k.inputs[0].max_flow, m)]


CASES = dict(
    storage=c_storage, storage_param=c_storage_param, storage_two=c_storage_two, agg_pc=c_agg_pc,
    virtual=vs(VirtualStorage), annual=vs(AnnualVirtualStorage, reset_day=1, reset_month=1),
    annual_mid=vs(AnnualVirtualStorage, reset_day=31, reset_month=12, reset_to_initial_volume=True),
    seasonal=vs(SeasonalVirtualStorage, reset_day=30, reset_month=12, end_day=1, end_month=1),
    seasonal_in=vs(SeasonalVirtualStorage, reset_day=1, reset_month=1, end_day=31, end_month=12),
    monthly=vs(MonthlyVirtualStorage, months=1), monthly2=vs(MonthlyVirtualStorage, months=2, initial_months=1),
    rolling=vs(RollingVirtualStorage, timesteps=3), rolling_pc=vs(RollingVirtualStorage, timesteps=2, initial_volume=100, initial_volume_pc=0.5),
    delay=c_delay, compound=c_compound, lookback=c_lookback, volume_params=c_volume_params, interpolated_volume=c_interpolated_volume, control_curve=c_control_curve,
    thresholds=c_thresholds, thresholds2=c_thresholds2, thresholds3=c_thresholds3, thresholds4=c_thresholds4, thresholds5=c_thresholds5, harmonic=c_harmonic,
    timestep_licence=licence(TimestepLicense, amount=20.0), annual_licence=licence(AnnualLicense, amount=400.0),
    hyperbola_licence=licence(AnnualHyperbolaLicense, amount=400.0, value=5.0),
    exponential_licence=licence(AnnualExponentialLicense, amount=400.0, max_value=5.0),
    keating=c_keating, events=c_events,
    rec_array=rec(NumpyArrayNodeRecorder, NumpyArrayNodeDeficitRecorder, NumpyArrayNodeCostRecorder),
    rec_totals=rec(TotalFlowNodeRecorder, MeanFlowNodeRecorder, TotalDeficitNodeRecorder),
    rec_freq=rec(DeficitFrequencyNodeRecorder),
    rec_annual=rec(lambda m, i: AnnualTotalFlowRecorder(m, "atf", [i])),
    rec_fdc=rec(lambda m, i: FlowDurationCurveRecorder(m, i, [0, 50, 100])),
    rec_ratio=rec(NumpyArrayNodeSuppliedRatioRecorder), rec_ratio2=rec(NumpyArrayNodeCurtailmentRatioRecorder),
    rec_node_threshold=rec(lambda m, i: NodeThresholdRecorder(m, i, 20, predicate=">")),
    rec_store=srec(NumpyArrayStorageRecorder, NumpyArrayLevelRecorder, NumpyArrayAreaRecorder,
                   lambda m, s: NumpyArrayStorageRecorder(m, s, proportional=True, name="pc")),
    rec_store_min=srec(MinimumVolumeStorageRecorder, lambda m, s: MinimumThresholdVolumeStorageRecorder(m, s, 110)),
    rec_store_threshold=srec(lambda m, s: StorageThresholdRecorder(m, s, 110, predicate="<")),
    rec_param=prec(NumpyArrayParameterRecorder, TotalParameterRecorder, MeanParameterRecorder),
    rec_profile=prec(NumpyArrayDailyProfileParameterRecorder),
    rec_rolling=prec(lambda m, p: RollingWindowParameterRecorder(m, p, 2), hasvals=False),
    rec_index=prec(NumpyArrayIndexParameterRecorder, index=True, hasvals=False),
    rec_count=prec(lambda m, p: TimestepCountIndexParameterRecorder(m, p, 1), index=True),
    rec_annual_count=prec(lambda m, p: AnnualCountIndexParameterRecorder(m, p, 2), index=True),
    rec_annual_threshold=prec(lambda m, p: AnnualCountIndexThresholdRecorder(m, [p], "act", 1), index=True),
)


def harnesses(tier):
    out = []
    slow = ("rec_ratio", "rec_ratio2", "interpolated_volume", "control_curve", "thresholds4", "thresholds5", "rec_freq", "thresholds", "thresholds2", "thresholds3", "events", "rec_annual_count", "rec_annual_threshold",
            "rec_count", "rec_index", "rec_node_threshold", "rec_store_threshold")
    for c in CASES:
        two = {"dates": ("2015-12-31", "2016-01-01", 1)} if c == "thresholds5" and tier == "quick" else {}
        out.append(task(h_rerun, params=dict(case=c, **two, **({"scen": 1} if c in slow else {}))))
    short, longer = ("2015-12-30", "2015-12-31", 1), ("2015-12-30", "2016-01-02", 1)
    for c in ("storage", "rolling", "delay", "lookback", "annual", "seasonal", "monthly", "rec_array", "rec_totals", "rec_annual", "rec_rolling", "rec_param"):
        out.append(task(h_rerun, params=dict(case=c, dates1=longer, scen=1)))
        out.append(task(h_rerun, params=dict(case=c, dates1=short, scen=1)))
    return out
