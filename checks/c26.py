"""C26: event recorders report exactly the maximal runs of threshold states."""
import math
import numpy as np
import pandas
from checks.lib import *
from checks.c25 import total, isnan
from pywr.nodes import *
from pywr.model import MultiModel
from pywr.parameters import *
from pywr.parameters._thresholds import ParameterThresholdParameter, StorageThresholdParameter
from pywr.recorders import *
from pywr.recorders import load_recorder
from pywr.recorders.events import EventRecorder, EventDurationRecorder, EventStatisticRecorder
from pywr.recorders._thresholds import StorageThresholdRecorder, NodeThresholdRecorder

BOUNDS = ("up to 5 time-steps (6 in the thorough tier) of 1 or 7 days, 1 to 3 scenarios (4 steps in one scenario, 3 in two), minimum lengths "
          "1 to 3; any threshold states, flows, volumes and tracked values; complete runs, runs advanced step by step, restarted or "
          "repeated runs and sub-models of a coupled model")
OUTSIDE = ["time-steps shorter than a day", "documents naming the threshold recorders (these are not registered by pywr)"]


class Active(IndexParameter):
    def __init__(self, model, env, name="trigger", lo=0, hi=2):
        super().__init__(model, name=name)
        self.env, self.lo, self.hi = env, lo, hi

    def index(self, ts, si):
        return self.at(ts.index, si.global_id)

    def value(self, ts, si):
        return 1.0

    def at(self, t, s):
        return self.env.int("i_%d_%d" % (t, s), self.lo, self.hi)


class Given(Recorder):
    """A recorder whose values are arbitrary in every step."""

    def __init__(self, model, env, **kw):
        super().__init__(model, **kw)
        self.env = env

    def setup(self):
        pass

    def after(self):
        self.t = self.model.timestepper.current.index

    def values(self):
        return np.array([self.at(self.t, s) for s in range(nscen(self.model))])

    def at(self, t, s):
        return self.env.real("v_%d_%d" % (t, s), -1, 1)


def trigger(env, m, kind, doc):
    """-> (threshold component, is it active in step t and scenario s?)"""
    if kind == "index":
        p = Active(m, env)
        return p, lambda t, s: p.at(t, s) != 0
    if kind == "parameter":
        p = Var(m, env, "v", -1, 1)
        return p, lambda t, s: p.at(t, s) != 0
    if kind == "recorder":
        r = Given(m, env, name="given")
        return r, lambda t, s: r.at(t, s) != 0
    if kind in ("flow<", "flow>="):
        r = NodeThresholdRecorder(m, m.nodes["in"], 5.0, predicate=kind[4:], name="threshold")
        q = lambda t, s: m.solver.log[("in", t, s)]
        return r, (lambda t, s: q(t, s) < 5.0) if kind == "flow<" else (lambda t, s: q(t, s) >= 5.0)
    if kind == "volume":
        st = Storage(m, "st", max_volume=1000.0, initial_volume=500.0)
        m.nodes["in"].connect(st)
        st.connect(m.nodes["out"])
        base = m.solver.fn
        m.solver.fn = lambda node, t, s: env.real("flow_st_%d_%d" % (t, s), -10, 10) if node.name == "st" else base(node, t, s)
        days = m.timestepper.delta
        vol = lambda t, s: 500.0 + days * total(m.solver.log[("st", k, s)] for k in m.ran if k <= t)
        r = StorageThresholdRecorder(m, st, 500.0, predicate="LT", name="threshold")
        return r, lambda t, s: vol(t, s) < 500.0
    raise KeyError(kind)


def build(env, kind, n, scen, step, doc):
    end = pandas.Timestamp("2015-02-26") + pandas.Timedelta(days=step * (n - 1))
    m = model(env, scen, start="2015-02-26", end=end, timestep=step, flow=flows(env, ["in"], 0, 10))
    m.ran = list(range(n))
    th, on = trigger(env, m, kind, doc)
    return m, th, on


def runs(env, on, ts, nsc, minimum):
    """Maximal runs of active steps: (scenario, first, one past the last), in any order."""
    out = []
    for s in range(nsc):
        first = None
        for t in list(ts) + [None]:
            a = t is not None and env.fork(on(t, s))
            if a and first is None:
                first = t
            if not a and first is not None:
                last = ts[-1] + 1 if t is None else t
                if last - first >= minimum:
                    out.append((s, first, last))
                first = None
    return out


def advance(env, m, how, n, step):
    if how == "run":
        m.run()
    elif how == "steps":
        for _ in steps(m):
            pass
        m.finish()
    elif how == "early":
        m.ran = list(range(n - 1))
        for _ in steps(m, n - 1):
            pass
        m.finish()
    elif how == "twice":
        m.run()
        m.solver.log.clear()
        m.run()
    elif how == "restart":
        m.run()
        m.ran = list(range(1, n))
        m.reset(start=m.timestepper.start + pandas.Timedelta(days=step))
        for t in range(1, n):
            m.step()
        m.finish()
    elif how == "multi":
        other = model(env, [s.size for s in m.scenarios.scenarios], start=m.timestepper.start, end=m.timestepper.end, timestep=step)
        mm = MultiModel()
        mm.add_model("first", other)
        mm.add_model("second", m)
        mm.setup()
        mm.run()
    return m.ran


def date(t, step):
    return pandas.Timestamp("2015-02-26") + pandas.Timedelta(days=step * t)


def h_events(env, kind, n=4, scen=(), minimum=1, how="run", step=1, doc=False):
    m, th, on = build(env, kind, n, scen, step, doc)
    tr = Var(m, env, "tracked", -10, 10)
    if doc:
        r = load_recorder(m, dict(type="event", threshold=th.name, minimum_event_length=minimum, tracked_parameter="tracked", name="r"))
    else:
        r = EventRecorder(m, th, tracked_parameter=tr, name="r", **({} if minimum == 1 else {"minimum_event_length": minimum}))
    env.check(tr in r.children and th in r.children, "evaluated after its threshold and what it tracks")
    ts = advance(env, m, how, n, step)
    want = runs(env, on, ts, nscen(m), minimum)
    got = sorted((e.scenario_index.global_id, e.start.index, e.end.index) for e in r.events)
    env.check(got == sorted(want), "the events are the maximal runs")
    if got != sorted(want):
        return
    for e in r.events:
        a, b = e.start.index, e.end.index
        env.check(e.start.datetime == date(a, step), "date of the start")
        env.check(e.end.datetime == date(b, step), "date of the end")
        env.check(e.duration == (b - a) * step, "duration")
        v = list(e.values)
        env.check(len(v) == b - a, "a tracked value for each step of the event")
        for k in range(a, b):
            env.eq(v[k - a], tr.at(k, e.scenario_index.global_id), "tracked value")
    df = r.to_dataframe()
    env.check(len(df) == len(want), "a row for each event")
    if len(want):
        rows = sorted((int(x), a, b) for x, a, b in zip(df["scenario_id"], df["start"], df["end"]))
        env.check(rows == sorted((s, date(a, step), date(b, step)) for s, a, b in want), "rows of the events")
    env.check("value" not in df.columns, "no statistic was asked for")


def stat(env, name, v):
    return {"mean": lambda: total(v) / len(v), "sum": lambda: total(v), "min": lambda: env.min(*v) if len(v) > 1 else v[0],
            "max": lambda: env.max(*v) if len(v) > 1 else v[0], "median": lambda: env.median(v)}[name]()


def h_durations(env, agg, n=5, scen=(), how="run", step=1, minimum=1, over="max", doc=False):
    """The statistic, over the scenario's events, of their duration in days; missing without events."""
    m, th, on = build(env, "index", n, scen, step, doc)
    r = EventRecorder(m, th, minimum_event_length=minimum, name="r")
    if doc:
        d = load_recorder(m, dict(type="eventduration", event_recorder="r", recorder_agg_func=agg, agg_func=over, name="d"))
    elif agg is None:
        d = EventDurationRecorder(m, r, name="d")
    elif over is None:
        d = EventDurationRecorder(m, r, agg_func=agg, name="d")
    else:
        d = EventDurationRecorder(m, r, recorder_agg_func=agg, agg_func=over, ignore_nan=True, name="d")
    ts = advance(env, m, how, n, step)
    want = runs(env, on, ts, nscen(m), minimum)
    v = list(d.values())
    vals = []
    for s in range(nscen(m)):
        mine = [(b - a) * step for k, a, b in want if k == s]
        if not mine:
            env.check(isnan(float(v[s])), "missing without events")
            continue
        e = float(pandas.Series(mine, dtype=float).agg(agg or "mean"))
        vals.append(e)
        env.eq(v[s], e, "duration of the events")
    if over == "max" and agg and not doc:
        x = d.aggregated_value()
        if vals:
            env.eq(x, max(vals), "over the scenarios with events")
        else:
            env.check(isnan(x), "no event in any scenario")


def h_statistics(env, eagg, ragg, n=4, scen=(), how="run", minimum=1, doc=False, rows=False):
    """Statistic over each event's tracked values, then over the scenario's events."""
    m, th, on = build(env, "index", n, scen, 1, doc)
    tr = Var(m, env, "tracked", -10, 10)
    r = EventRecorder(m, th, minimum_event_length=minimum, tracked_parameter=tr, name="r", event_agg_func=eagg)
    if doc:
        d = load_recorder(m, dict(type="eventstatistic", event_recorder="r", event_agg_func=eagg, recorder_agg_func=ragg, name="d"))
    elif eagg == ragg:
        d = EventStatisticRecorder(m, r, agg_func=eagg, name="d")
    else:
        d = EventStatisticRecorder(m, r, event_agg_func=eagg, recorder_agg_func=ragg, name="d")
    ts = advance(env, m, how, n, 1)
    want = runs(env, on, ts, nscen(m), minimum)
    v = list(d.values())
    each = {(s, a): stat(env, eagg, [tr.at(t, s) for t in range(a, b)]) for s, a, b in want}
    for s in range(nscen(m)):
        mine = [each[k] for k in sorted(each) if k[0] == s]
        if not mine:
            env.check(isinstance(v[s], float) and isnan(v[s]), "missing without events")
        else:
            env.eq(v[s], stat(env, ragg, mine), "statistic of the events")
    if rows and want:
        df = r.to_dataframe()
        for k in range(len(df)):
            s, a = int(df["scenario_id"].iloc[k]), (df["start"].iloc[k] - date(0, 1)).days
            env.check((s, a) in each, "an event")
            env.eq(df["value"].iloc[k], each[(s, a)], "value of the event")


def h_states(env, what, pred):
    """Threshold recorders compare this step's flow or volume."""
    names = {"<": ("<", "LT", "lt"), ">": (">", "GT"), "=": ("=", "EQ"), "<=": ("<=", "LE"), ">=": (">=", "GE"), None: (None,)}[pred]
    f = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "=": lambda a, b: a == b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
         None: lambda a, b: a < b}[pred]
    m = model(env, [2], start="2015-01-01", end="2015-01-02", flow=flows(env, ["in", "st"], -10, 10))
    x = env.real("threshold", -10, 600)
    st = Storage(m, "st", max_volume=1000.0, initial_volume=500.0)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    rs = []
    for k, nm in enumerate(names):
        kw = {} if nm is None else dict(predicate=nm)
        rs.append(NodeThresholdRecorder(m, m.nodes["in"], x, name="r%d" % k, **kw) if what == "flow" else
                  StorageThresholdRecorder(m, st, x, name="r%d" % k, **kw))
    m.setup()
    for r in rs:
        env.check(list(r.values()) == [0.0, 0.0], "not active before the first step")
    vol = [500.0, 500.0]
    for t in range(2):
        m.step()
        for s in range(2):
            vol[s] = vol[s] + m.solver.log[("st", t, s)]
            q = m.solver.log[("in", t, s)] if what == "flow" else vol[s]
            for r in rs:
                env.eq(r.values()[s], env.ite(f(q, x), 1.0, 0.0), "state of the threshold")
    m.reset()
    for r in rs:
        env.check(list(r.values()) == [0.0, 0.0], "not active after a reset")


def h_reject(env):
    m = model(env, [])
    p = Active(m, env)
    env.raises(ValueError, lambda: EventRecorder(m, p, minimum_event_length=0, name="a"), "no length")
    m = model(env, [])
    p = Active(m, env)
    e = EventRecorder(m, p, name="e")
    EventStatisticRecorder(m, e, name="s")
    env.raises(ValueError, m.setup, "nothing is tracked")
    m = model(env, [])
    e = EventRecorder(m, Active(m, env), name="e", minimum_event_length=99)
    m.run()
    env.check(len(e.to_dataframe()) == 0 and e.events == [], "no events")


def harnesses(tier):
    big = tier == "thorough"
    out = [task(h_reject)]
    for kind in ("index", "parameter", "recorder", "flow<", "flow>=", "volume"):
        for how in ("run", "steps", "early", "twice", "restart", "multi"):
            n = 4 if kind == "index" else 3
            out.append(task(h_events, params=dict(kind=kind, how=how, n=n + big)))
        out.append(task(h_events, params=dict(kind=kind, n=3 if kind in ("index", "recorder") else 2, scen=(2,))))
        if kind != "volume":
            out.append(task(h_events, params=dict(kind=kind, n=3, step=7, doc=kind in ("index", "parameter", "recorder"))))
    for mn in (2, 3):
        out.append(task(h_events, params=dict(kind="index", n=6 if big else 5, minimum=mn)))
        out.append(task(h_events, params=dict(kind="index", n=4, minimum=mn, how="steps")))
        out.append(task(h_events, params=dict(kind="flow<", n=3, minimum=mn, how="run", step=7)))
    for agg in ("mean", "sum", "min", "max", "median", "count"):
        out.append(task(h_durations, params=dict(agg=agg, n=6 if big else 5)))
    out += [task(h_durations, params=dict(agg="max", over=None, n=3, scen=(2,))),
            task(h_durations, params=dict(agg="mean", n=3, scen=(2,), step=7)),
            task(h_durations, params=dict(agg="sum", n=4, how="steps")),
            task(h_durations, params=dict(agg="sum", n=4, how="twice")),
            task(h_durations, params=dict(agg="sum", n=4, how="multi")),
            task(h_durations, params=dict(agg="median", n=5, minimum=2)),
            task(h_durations, params=dict(agg=None, n=4)),
            task(h_durations, params=dict(agg="sum", n=4, doc=True))]
    for e, r in (("mean", "sum"), ("max", "min"), ("sum", "max"), ("median", "median"), ("min", "mean"), ("mean", "mean")):
        out.append(task(h_statistics, params=dict(eagg=e, ragg=r, n=4 + big, rows=e != "median")))
    out += [task(h_statistics, params=dict(eagg="max", ragg="sum", n=3, scen=(2,))),
            task(h_statistics, params=dict(eagg="sum", ragg="max", n=4, minimum=2)),
            task(h_statistics, params=dict(eagg="mean", ragg="max", n=3, how="steps")),
            task(h_statistics, params=dict(eagg="mean", ragg="max", n=3, how="twice")),
            task(h_statistics, params=dict(eagg="mean", ragg="max", n=3, how="restart")),
            task(h_statistics, params=dict(eagg="mean", ragg="max", n=3, doc=True))]
    out += sweep(h_states, over=dict(what=["flow", "volume"], pred=["<", ">", "=", "<=", ">=", None]))
    return out
