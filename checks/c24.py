"""C24: running totals, means and counts equal the recorded history's."""
from datetime import timedelta
import numpy as np
import pandas
from checks.lib import *
from checks.c13 import leap
from pywr.nodes import *
from pywr.model import MultiModel
from pywr.parameters import RollingMeanFlowNodeParameter
from pywr.recorders import *
from pywr.recorders import load_recorder

BOUNDS = ("up to 5 time-steps of 1 to 100 days, within a year and across one or two year ends, and any December start date of "
          "2015..2016 (thorough: 1895..2105) for annual totals; 1 to 3 scenarios; any flows, limits, volumes, values and indices (indices -2..3); complete runs, runs "
          "advanced step by step and stopped early, runs restarted at a later date, and sub-models of a coupled model")
OUTSIDE = ["time-steps longer than a year or shorter than a day", "ranges of dates that wrap around the end of a year (undocumented)"]


class Index(IndexVar):
    def at(self, t, s):
        return self.env.int("%s_%d_%d" % (self.vname, t, s), -2, 3)


def total(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


class W:
    pass


def world(env, scen, start, n, step):
    w = W()
    s0 = pandas.Timestamp(start)
    w.m = m = model(env, scen, start=s0, end=s0 + pandas.Timedelta(days=step * (n - 1)), timestep=step,
                    flow=flows(env, ["in", "link", "out"], -10, 100))
    w.lim, w.par = Var(m, env, "lim", 0, 100), Var(m, env, "par")
    m.nodes["in"].max_flow = w.lim
    w.env, w.step, w.start = env, step, s0
    w.date = lambda t: s0 + pandas.Timedelta(days=step * t)
    w.q = lambda name, t, s: env.real("flow_%s_%d_%d" % (name, t, s), -10, 100)
    return w


def make(m, doc, cls, **kw):
    if not doc:
        return cls(m, **kw)
    d = {"type": cls.__name__}
    for k, v in kw.items():
        if k == "param":
            k = "parameter"
        if isinstance(v, list):
            v = [getattr(x, "name", x) for x in v]
        d[k] = getattr(v, "name", v)
    return load_recorder(m, d)


def sums(w, env, doc):
    """Recorders whose value is a sum or mean over the steps."""
    m = w.m
    f = 1.5 if doc else env.real("factor", -10, 10)
    a = m.nodes["in"]
    d = w.step
    q = lambda t, s: w.q("in", t, s)
    mk = lambda cls, **kw: make(m, doc, cls, **kw)
    return [
        ("total deficit", mk(TotalDeficitNodeRecorder, node=a, name="r0"), lambda ts, s: total((w.lim.at(t, s) - q(t, s)) * d for t in ts)),
        ("total flow", mk(TotalFlowNodeRecorder, node=a, name="r1"), lambda ts, s: total(q(t, s) * d for t in ts)),
        ("scaled total flow", mk(TotalFlowNodeRecorder, node=a, factor=f, name="r2"), lambda ts, s: f * total(q(t, s) * d for t in ts)),
        ("mean flow", mk(MeanFlowNodeRecorder, node=a, name="r3"), lambda ts, s: total(q(t, s) for t in ts) / len(ts)),
        ("scaled mean flow", mk(MeanFlowNodeRecorder, node=a, factor=f, name="r4"), lambda ts, s: f * total(q(t, s) for t in ts) / len(ts)),
        ("total", mk(TotalParameterRecorder, param=w.par, name="r5"), lambda ts, s: total(w.par.at(t, s) for t in ts)),
        ("scaled total", mk(TotalParameterRecorder, param=w.par, factor=f, name="r6"), lambda ts, s: f * total(w.par.at(t, s) for t in ts)),
        ("integral", mk(TotalParameterRecorder, param=w.par, factor=f, integrate=True, name="r7"),
         lambda ts, s: f * d * total(w.par.at(t, s) for t in ts)),
        ("mean", mk(MeanParameterRecorder, param=w.par, name="r8"), lambda ts, s: total(w.par.at(t, s) for t in ts) / len(ts)),
        ("scaled mean", mk(MeanParameterRecorder, param=w.par, factor=f, name="r9"), lambda ts, s: f * total(w.par.at(t, s) for t in ts) / len(ts)),
    ]


def counts(w, env, doc):
    """Counts of steps."""
    m, a = w.m, w.m.nodes["in"]
    i = Index(m, env, "idx", 0)
    st = Storage(m, "st", max_volume=1000.0, initial_volume=500.0)
    a.connect(st)
    st.connect(m.nodes["out"])
    base = m.solver.fn
    x = lambda t, s: env.real("flow_st_%d_%d" % (t, s), -1, 1)
    m.solver.fn = lambda node, t, s: x(t, s) if node.name == "st" else base(node, t, s)
    th = 500.0 if doc else env.real("threshold", 0, 1000)
    vol = lambda ts, t, s: 500.0 + w.step * total(x(k, s) for k in ts if k <= t)
    d = w.step

    def freq(ts, s):
        return total(env.ite(env.abs(w.q("in", t, s) - w.lim.at(t, s)) > 1e-6, 1.0, 0.0) for t in ts) / len(ts)

    def cnt(k):
        return lambda ts, s: total(env.ite(i.at(t, s) >= k, 1.0, 0.0) for t in ts)
    mk = lambda cls, **kw: make(m, doc, cls, **kw)
    return {
        "frequency": lambda: ("frequency of failures", mk(DeficitFrequencyNodeRecorder, node=a, name="r0"), freq),
        "steps": lambda: ("steps at or above the threshold", mk(TimestepCountIndexParameterRecorder, parameter=i, threshold=2, name="r1"), cnt(2)),
        "minimum": lambda: ("minimum volume", mk(MinimumVolumeStorageRecorder, node=st, name="r2"),
                            lambda ts, s: env.min(*[vol(ts, t, s) for t in ts]) if len(ts) > 1 else vol(ts, ts[0], s)),
        "threshold": lambda: ("volume at or below the threshold", mk(MinimumThresholdVolumeStorageRecorder, node=st, threshold=th, name="r3"),
                              lambda ts, s: env.ite(env.Or(*[vol(ts, t, s) <= th for t in ts]), 1.0, 0.0)),
    }, i


def advance(w, env, how, n):
    """Run in one of several ways; -> the steps that were run."""
    m = w.m
    if how == "run":
        m.run()
        return list(range(n))
    if how == "steps":
        for _ in steps(m):
            pass
        m.finish()
        return list(range(n))
    if how == "early":
        for _ in steps(m, n - 1):
            pass
        m.finish()
        return list(range(n - 1))
    if how == "twice":
        m.run()
        m.run()
        return list(range(n))
    if how == "restart":
        m.run()
        m.reset(start=w.date(1))
        for t in range(1, n):
            m.step()
        m.finish()
        return list(range(1, n))
    if how == "multi":
        other = model(env, [k for k in w.scen], start=w.start, end=w.date(n - 1), timestep=w.step)
        mm = MultiModel()
        mm.add_model("first", other)
        mm.add_model("second", m)
        mm.setup()
        mm.run()
        return list(range(n))
    raise KeyError(how)


def compare(w, env, recs, ts):
    for what, r, fn in recs:
        v = r.values()
        env.check(len(v) == nscen(w.m), "a value for each scenario")
        for s in range(nscen(w.m)):
            env.eq(v[s], fn(ts, s), what)


def h_sums(env, how, scen=(2,), start="2015-12-30", n=3, step=1, doc=False):
    w = world(env, scen, start, n, step)
    w.scen = scen
    recs = sums(w, env, doc)
    compare(w, env, recs, advance(w, env, how, n))


def h_counts(env, which, how, scen=(2,), start="2015-12-30", n=2, step=1, doc=False):
    w = world(env, scen, start, n, step)
    w.scen = scen
    recs, i = counts(w, env, doc)
    compare(w, env, [recs[which]()], advance(w, env, how, n))


# ---------------------------------------------------------------- annual recorders
RANGES = {
    "all": ({}, lambda d: True),
    "months": (dict(exclude_months=[1, 3]), lambda d: d.month not in (1, 3)),
    "range": (dict(include_from_month=2, include_from_day=10, include_to_month=12, include_to_day=30),
              lambda d: (2, 10) <= (d.month, d.day) <= (12, 30)),
    "from": (dict(include_from_month=12, include_from_day=31), lambda d: (d.month, d.day) >= (12, 31)),
    "to": (dict(include_to_month=1, include_to_day=1), lambda d: (d.month, d.day) <= (1, 1)),
    "feb29": (dict(include_from_month=2, include_from_day=29, include_to_month=3, include_to_day=1),
              lambda d: (2, 29) <= (d.month, d.day) <= (3, 1)),
    "tofeb29": (dict(include_to_month=2, include_to_day=29), lambda d: (d.month, d.day) <= (2, 29)),
    "half": (dict(include_from_month=12, include_to_day=1), lambda d: True),
    "both": (dict(exclude_months=[12], include_from_month=12, include_from_day=31), lambda d: False),
}


def h_annual_threshold(env, rng, start, n, step, npar=1, scen=(), how="run", doc=False):
    """Days per year on which any of the parameters is at or above the threshold, within the range of dates."""
    kw, inside = RANGES[rng]
    w = world(env, scen, start, n, step)
    w.scen = scen
    m = w.m
    ps = [Index(m, env, "i%d" % k, 0) for k in range(npar)]
    r = make(m, doc, AnnualCountIndexThresholdRecorder, parameters=ps, name="r", threshold=1, **kw)
    ts = advance(w, env, how, n)
    y0, y1 = w.date(0).year, w.date(n - 1).year
    d, df = r.data, r.to_dataframe()
    env.check(d.shape == (y1 - y0 + 1, nscen(m)), "a row for each year")
    env.check([p.year for p in df.index] == list(range(y0, y1 + 1)), "years of the data frame")
    for s in range(nscen(m)):
        tot = 0
        for y in range(y0, y1 + 1):
            e = total(env.ite(env.Or(*[p.at(t, s) >= 1 for p in ps]), 1, 0) for t in ts if w.date(t).year == y and inside(w.date(t)))
            env.eq(d[y - y0, s], e, "count of the year")
            env.eq(df.iloc[y - y0, s], e, "count of the year in the data frame")
            tot = tot + e
        env.eq(r.values()[s], tot, "total of the counts")


def h_annual_count(env, start, n, step, threshold, scen=(), how="run", doc=False):
    """Number of years in which the index reaches the threshold."""
    w = world(env, scen, start, n, step)
    w.scen = scen
    m = w.m
    p = Index(m, env, "i", 0)
    r = make(m, doc, AnnualCountIndexParameterRecorder, param=p, threshold=threshold, name="r")
    ts = advance(w, env, how, n)
    ys = sorted({w.date(t).year for t in ts})
    for s in range(nscen(m)):
        e = total(env.ite(env.Or(*[p.at(t, s) >= threshold for t in ts if w.date(t).year == y]), 1.0, 0.0) for y in ys)
        env.eq(r.values()[s], e, "number of years")


def annual_parts(date, step):
    """Days of the step by year."""
    out = {}
    for k in range(step):
        y = (date + pandas.Timedelta(days=k)).year
        out[y] = out.get(y, 0) + 1
    return out


def h_annual_flow(env, start, n, step, scen=(2,), how="run", factors=True, doc=False, agg=None):
    w = world(env, scen, start, n, step)
    w.scen = scen
    m = w.m
    f = [1.5, -2.0] if doc else [env.real("f0", -5, 5), env.real("f1", -5, 5)]
    kw = dict(factors=f) if factors else {}
    if not factors:
        f = [1.0, 1.0]
    if agg:
        kw["temporal_agg_func"] = agg
    r = make(m, doc, AnnualTotalFlowRecorder, name="r", nodes=[m.nodes["in"], m.nodes["link"]], **kw)
    ts = advance(w, env, how, n)
    y0, y1 = w.date(0).year, w.date(n - 1).year
    d, df = r.data, r.to_dataframe()
    env.check(d.shape == (y1 - y0 + 1, nscen(m)), "a row for each year")
    env.check([p.year for p in df.index] == list(range(y0, y1 + 1)), "years of the data frame")
    for s in range(nscen(m)):
        es = []
        for y in range(y0, y1 + 1):
            e = total((w.q("in", t, s) * f[0] + w.q("link", t, s) * f[1]) * annual_parts(w.date(t), step).get(y, 0) for t in ts)
            env.eq(d[y - y0, s], e, "total of the year")
            env.eq(df.iloc[y - y0, s], e, "total of the year in the data frame")
            es.append(e)
        want = total(es)
        if agg == "mean":
            want = want / len(es)
        elif agg == "max":
            want = env.max(*es) if len(es) > 1 else es[0]
        env.eq(r.values()[s], want, "over the years")


def h_annual_flow_any(env, step, y0, y1):
    """Any start date in December: one or two steps, the flow split between the years by days."""
    d = env.date("start", y0, y1)
    env.assume(d.month == 12)
    m = model(env, [2], start=d, end=d + timedelta(days=step), timestep=step, flow=flows(env, ["in"], -10, 100))
    r = AnnualTotalFlowRecorder(m, "r", [m.nodes["in"]])
    m.setup()
    y = d.year
    m.step()
    m.step()
    left = env.ite(leap(env, y), 366, 365) - d.dayofyear + 1     # days left in the first year
    x = r.data
    for s in range(2):
        q0, q1 = (env.real("flow_in_%d_%d" % (t, s), -10, 100) for t in range(2))
        a0, a1 = env.min(left, step), env.max(env.min(left - step, step), 0)
        env.eq(x[0, s], q0 * a0 + q1 * a1, "total of the first year")
        if len(x) > 1:
            env.eq(x[1, s], q0 * (step - a0) + q1 * (step - a1), "total of the second year")


# ---------------------------------------------------------------- rolling means
def h_rolling(env, kind, window, n=5, scen=(2,), how="run", by="timesteps", doc=False):
    w = world(env, scen, "2015-12-30", n, 2)
    w.scen = scen
    m = w.m
    if kind == "parameter":
        r = make(m, doc, RollingWindowParameterRecorder, param=w.par, window=window, name="r")
        v = lambda t, s: w.par.at(t, s)
    elif kind == "sum":
        r = make(m, doc, RollingWindowParameterRecorder, param=w.par, window=window, temporal_agg_func="sum", name="r")
        v = lambda t, s: w.par.at(t, s)
    else:
        kw = dict(days=window * 2 + 1) if by == "days" else dict(timesteps=window)
        r = make(m, doc, RollingMeanFlowNodeRecorder, node=m.nodes["in"], name="r", **kw)
        v = lambda t, s: w.q("in", t, s)
    ts = advance(w, env, how, n)
    d = r.data
    for t in ts:
        last = [k for k in ts if t - window < k <= t]
        for s in range(nscen(m)):
            e = total(v(k, s) for k in last)
            env.eq(d[t, s], e if kind == "sum" else e / len(last), "mean over the last steps")


def h_rolling_parameter(env, window, how, n=4):
    """The rolling mean parameter gives the mean of the flows of the preceding steps of the run."""
    w = world(env, (2,), "2015-12-30", n, 1)
    w.scen = (2,)
    m = w.m
    q0 = env.real("initial", 0, 10)
    p = RollingMeanFlowNodeParameter(m, m.nodes["in"], timesteps=window, initial_flow=q0, name="p")
    r = NumpyArrayParameterRecorder(m, p, name="r")
    ts = advance(w, env, how, n)
    d = r.data
    for t in ts:
        last = [k for k in ts if t - window <= k < t]
        for s in range(2):
            e = total(w.q("in", k, s) for k in last)
            env.eq(d[t, s], e / len(last) if last else q0, "mean over the preceding steps")


def harnesses(tier):
    big = tier == "thorough"
    out = []
    HOW = ["run", "steps", "early", "twice", "restart", "multi"]
    out += sweep(h_sums, over=dict(how=HOW, scen=[(2,)] + ([(2, 2), ()] if big else []), step=[1, 10] if big else [1]))
    out += [task(h_sums, params=dict(how="run", scen=(3,), step=10, n=4)), task(h_sums, params=dict(how="steps", doc=True))]
    for which in ("frequency", "steps", "minimum", "threshold"):
        for how in HOW:
            out.append(task(h_counts, params=dict(which=which, how=how, scen=() if how != "run" else (2,), n=3 if how in ("restart", "early") or big else 2)))
        out.append(task(h_counts, params=dict(which=which, how="run", doc=True, scen=(), n=3, step=10)))
    for rng in RANGES:
        for start, n, step in (("2015-12-30", 4, 1), ("2016-02-28", 4, 1), ("2015-02-27", 4, 1)) + ((("2014-12-20", 5, 100),) if big or rng in ("all", "range") else ()):
            out.append(task(h_annual_threshold, params=dict(rng=rng, start=start, n=n, step=step)))
    out += [task(h_annual_threshold, params=dict(rng="all", start="2015-12-31", n=2, step=1, npar=2, scen=(2,))),
            task(h_annual_threshold, params=dict(rng="all", start="2015-12-30", n=3, step=1, npar=2)),
            task(h_annual_threshold, params=dict(rng="all", start="2015-12-30", n=3, step=1, npar=2, doc=True)),
            task(h_annual_threshold, params=dict(rng="all", start="2015-12-30", n=4, step=1, how="restart")),
            task(h_annual_threshold, params=dict(rng="all", start="2015-12-31", n=3, step=1, how="twice"))]
    for th in (1, 0, -1):
        out += [task(h_annual_count, params=dict(start="2015-12-30", n=4, step=1, threshold=th)),
                task(h_annual_count, params=dict(start="2014-12-20", n=4, step=200, threshold=th))]
    out += [task(h_annual_count, params=dict(start="2015-12-31", n=2, step=1, threshold=2, scen=(2,))),
            task(h_annual_count, params=dict(start="2015-12-30", n=4, step=1, threshold=1, how="restart")),
            task(h_annual_count, params=dict(start="2015-12-31", n=3, step=1, threshold=1, how="twice")),
            task(h_annual_count, params=dict(start="2015-12-31", n=3, step=1, threshold=1, how="steps", doc=True))]
    for start, n, step in (("2015-12-30", 4, 1), ("2015-12-25", 3, 10), ("2014-11-01", 5, 100), ("2015-12-22", 2, 10), ("2016-12-01", 3, 31)):
        out.append(task(h_annual_flow, params=dict(start=start, n=n, step=step)))
    out += [task(h_annual_flow, params=dict(start="2015-12-25", n=3, step=10, how=h)) for h in ("restart", "twice", "early")]
    out += [task(h_annual_flow, params=dict(start="2014-11-01", n=5, step=100, agg=a, scen=())) for a in ("mean", "max")]
    out += [task(h_annual_flow, params=dict(start="2015-12-25", n=3, step=10, factors=False)),
            task(h_annual_flow, params=dict(start="2015-12-25", n=3, step=10, doc=True, scen=(2, 2)))]
    out += [task(h_annual_flow_any, params=dict(step=k, y0=1895 if big else 2015, y1=2105 if big else 2016)) for k in ([1, 10, 40] if big else [10])]
    for kind in ("parameter", "sum", "flow"):
        for window in (1, 2, 3, 7):
            out.append(task(h_rolling, params=dict(kind=kind, window=window)))
        out += [task(h_rolling, params=dict(kind=kind, window=3, how=h)) for h in ("restart", "twice")]
        out.append(task(h_rolling, params=dict(kind=kind, window=2, scen=(2, 2), doc=True)))
    out += sweep(h_rolling_parameter, over=dict(window=[1, 2, 3], how=["run", "restart", "twice"]))
    out.append(task(h_rolling, params=dict(kind="flow", window=2, by="days")))
    out.append(task(h_rolling, params=dict(kind="flow", window=2, by="days", doc=True)))
    return out


from checks import defaults
harnesses = defaults.extend("C24", harnesses)
