"""C25: scenario and temporal aggregation is the named statistic."""
import math
import numpy as np
import pandas
from checks.lib import *
from pywr.nodes import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.recorders import load_recorder

BOUNDS = ("3 time-steps (4 in the thorough tier), 1 to 4 scenarios in one or two dimensions, up to 3 combined recorders; any flows, "
          "volumes and values; missing values in any single place and several others; percentiles 0, 25, 40, 50, 95, 100 and any score")
OUTSIDE = ["missing values in combined recorders", "percentile interpolation methods other than the default"]

NAN = math.nan


def isnan(x):
    return isinstance(x, float) and x != x


def percentile(env, v, q):
    s = env.sorted(v)
    pos = q / 100.0 * (len(s) - 1)
    k = int(math.floor(pos))
    if k + 1 >= len(s):
        return s[len(s) - 1]
    return s[k] + (s[k + 1] - s[k]) * (pos - k)


def score(env, v, x, kind):
    lt = le = 0.0
    for a in v:
        lt = lt + env.ite(a < x, 1.0, 0.0)
        le = le + env.ite(a <= x, 1.0, 0.0)
    n = len(v)
    if kind == "strict":
        return lt * 100.0 / n
    if kind == "weak":
        return le * 100.0 / n
    if kind == "mean":
        return (lt + le) * 50.0 / n
    return (lt + le + env.ite(lt < le, 1.0, 0.0)) * 50.0 / n


def prod(v):
    r = 1.0
    for x in v:
        r = r * x
    return r


def total(v):
    r = 0.0
    for x in v:
        r = r + x
    return r


def spread(v, axis=None):
    """A user's function, as pywr calls it: over all values, or along an axis of a table."""
    return np.max(v, axis=axis) - np.min(v, axis=axis)


def STAT(env):
    one = lambda f: (lambda v: f(*v) if len(v) > 1 else v[0])
    d = {
        "sum": ("sum", total),
        "mean": ("mean", lambda v: total(v) / len(v)),
        "min": ("min", one(env.min)),
        "max": ("max", one(env.max)),
        "median": ("median", env.median),
        "product": ("product", prod),
        "count": ("count_nonzero", lambda v: total([env.ite(x == 0, 0.0, 1.0) for x in v])),
        "upper": ("MAX", one(env.max)),
        "custom": (spread, lambda v: (env.max(*v) - env.min(*v)) if len(v) > 1 else 0.0),
        "dict": ({"func": "median"}, env.median),
        "p50kw": ({"func": "percentile", "kwargs": {"q": 50}}, lambda v: percentile(env, v, 50)),
    }
    for q in (0, 25, 40, 95, 100):
        d["p%d" % q] = ({"func": "percentile", "args": [q]}, lambda v, q=q: percentile(env, v, q))
    for kind in ("rank", "weak", "strict", "mean"):
        d["score-" + kind] = ({"func": "percentileofscore", "kwargs": {"score": 5.0, "kind": kind}}, lambda v, k=kind: score(env, v, 5.0, k))
    d["score"] = ({"func": "percentileofscore", "args": [5.0]}, lambda v: score(env, v, 5.0, "rank"))
    return d


NAMES = ["sum", "mean", "min", "max", "median", "product", "count", "upper", "custom", "dict", "p0", "p25", "p40", "p50kw", "p95", "p100",
         "score", "score-rank", "score-weak", "score-strict", "score-mean"]
MULT = {"product"}   # (few terms: products of many unknowns are hard)


class Table(Parameter):
    """An arbitrary value in each step and scenario; some are missing."""

    def __init__(self, model, env, name, missing=(), lo=-10, hi=10):
        super().__init__(model, name=name)
        self.env, self.vname, self.missing, self.lo, self.hi = env, name, set(missing), lo, hi

    def value(self, ts, si):
        return self.at(ts.index, si.global_id)

    def at(self, t, s):
        if (t, s) in self.missing:
            return NAN
        return self.env.real("%s_%d_%d" % (self.vname, t, s), self.lo, self.hi)


def expect(f, v, ignore):
    """The statistic over the values, or over those not missing."""
    if ignore:
        v = [x for x in v if not isnan(x)]
        if not v:
            return NAN
    elif any(isnan(x) for x in v):
        return NAN
    return f(v)


def same(env, a, b, label):
    if isnan(b):
        env.check(isnan(a), label + " (missing)")
    else:
        env.check(not isnan(a), label + " (not missing)")
        if not isnan(a):
            env.eq(a, b, label)


def tmodel(env, n, scen, combos=None):
    end = pandas.Timestamp("2015-01-01") + pandas.Timedelta(days=n - 1)
    m = model(env, scen, start="2015-01-01", end=end, flow=flows(env, ["in"], -10, 10))
    if combos:
        m.scenarios.user_combinations = combos
    return m


RECS = ["parameter", "flow", "deficit", "volume", "profile"]


def recorder(env, m, kind, **kw):
    """-> (recorder, the recorded value at (t, s))"""
    if kind == "parameter":
        p = Table(m, env, "p")
        return NumpyArrayParameterRecorder(m, p, name="r", **kw), p.at
    if kind == "flow":
        return NumpyArrayNodeRecorder(m, m.nodes["in"], name="r", **kw), lambda t, s: m.solver.log[("in", t, s)]
    if kind == "deficit":
        m.nodes["in"].max_flow = 10.0
        return NumpyArrayNodeDeficitRecorder(m, m.nodes["in"], name="r", **kw), lambda t, s: 10.0 - m.solver.log[("in", t, s)]
    if kind == "cost":
        c = Table(m, env, "c")
        m.nodes["in"].cost = c
        return NumpyArrayNodeCostRecorder(m, m.nodes["in"], name="r", **kw), c.at
    if kind == "volume":
        st = Storage(m, "st", max_volume=1000.0, initial_volume=500.0)
        m.nodes["in"].connect(st)
        st.connect(m.nodes["out"])
        m.solver.fn = lambda node, t, s: env.real("flow_st_%d_%d" % (t, s), -10, 10) if node.name == "st" else None
        return (NumpyArrayStorageRecorder(m, st, name="r", **kw),
                lambda t, s: 500.0 + total(m.solver.log[("st", k, s)] for k in range(t + 1)))
    if kind == "level":
        p = Table(m, env, "l")
        st = Storage(m, "st", max_volume=1000.0, initial_volume=500.0, level=p, area=p)
        m.nodes["in"].connect(st)
        st.connect(m.nodes["out"])
        return NumpyArrayLevelRecorder(m, st, name="r", **kw), p.at
    raise KeyError(kind)


def h_temporal(env, stat, kind="parameter", n=3, scen=(2,), over="mean", set_later=False, doc=False):
    """values() is the statistic over time, the aggregated value the statistic of those over scenarios."""
    S = STAT(env)
    f, fn = S[stat]
    g, gn = S[over]
    m = tmodel(env, n, scen)
    if doc:
        p = Table(m, env, "p")
        r = load_recorder(m, dict(type="numpyarrayparameter", parameter="p", name="r", temporal_agg_func=f, agg_func=g))
        at = p.at
    elif set_later:
        r, at = recorder(env, m, kind)
        r.temporal_agg_func = f
        r.agg_func = g
    else:
        r, at = recorder(env, m, kind, temporal_agg_func=f, agg_func=g)
    for _ in steps(m):
        pass
    nsc = nscen(m)
    want = [fn([at(t, s) for t in range(n)]) for s in range(nsc)]
    got = r.values()
    env.check(len(got) == nsc, "a value for each scenario")
    for s in range(nsc):
        env.eq(got[s], want[s], "over time: " + stat)
    env.eq(r.aggregated_value(), gn(want), "over scenarios: " + over)
    env.eq(r.aggregated_value(), gn(want), "asked a second time")


class Given(Recorder):
    """A recorder with arbitrary values per scenario."""

    def __init__(self, model, env, vname, missing=(), **kw):
        super().__init__(model, name=vname, **kw)
        self.env, self.vname, self.missing = env, vname, set(missing)

    def at(self, s):
        return NAN if s in self.missing else self.env.real("%s_%d" % (self.vname, s), -10, 10)

    def setup(self):
        pass

    def values(self):
        return np.array([self.at(s) for s in range(nscen(self.model))])


def h_scenarios(env, stat, n, missing=(), ignore=False, later=False):
    """The aggregated value over scenarios, with or without missing values."""
    f, fn = STAT(env)[stat]
    m = tmodel(env, 1, (n,))
    if later:
        r = Given(m, env, "v", missing)
        r.agg_func, r.ignore_nan = f, ignore
    else:
        r = Given(m, env, "v", missing, agg_func=f, ignore_nan=ignore)
    m.setup()
    same(env, r.aggregated_value(), expect(fn, [r.at(s) for s in range(n)], ignore), stat)


def h_missing(env, stat, ignore, missing, n=3, nsc=2, over="mean"):
    """Missing values in the history."""
    S = STAT(env)
    f, fn = S[stat]
    g, gn = S[over]
    m = tmodel(env, n, (nsc,))
    p = Table(m, env, "p", missing)
    r = NumpyArrayParameterRecorder(m, p, name="r", temporal_agg_func=f, agg_func=g, ignore_nan=ignore)
    for _ in steps(m):
        pass
    want = [expect(fn, [p.at(t, s) for t in range(n)], ignore) for s in range(nsc)]
    got = r.values()
    env.check(len(got) == nsc, "a value for each scenario")
    for s in range(nsc):
        same(env, got[s], want[s], "over time: " + stat)
    same(env, r.aggregated_value(), expect(gn, want, ignore), "over scenarios: " + over)


def h_combined(env, rstat, sstat, k, nsc=2, how="both", nested=False, doc=False):
    """A recorder combining others scenario by scenario."""
    S = STAT(env)
    m = tmodel(env, 1, (nsc,))
    rs = [Given(m, env, "v%d" % i) for i in range(k)]
    kw = {}
    rfn = sfn = S["mean"][1]
    if how in ("both", "recorder"):
        kw["recorder_agg_func"] = S[rstat][0]
        rfn = S[rstat][1]
    if how in ("both", "scenario"):
        kw["agg_func"] = S[sstat][0]
        sfn = S[sstat][1]
        if how == "scenario":
            rfn = sfn
    if doc:
        r = load_recorder(m, dict(type="aggregated", recorders=[x.name for x in rs], name="r", **kw))
    else:
        r = AggregatedRecorder(m, rs, name="r", **kw)
    want = lambda s: rfn([x.at(s) for x in rs])
    if nested:
        inner, iw = r, want
        r = AggregatedRecorder(m, [inner, rs[0]], agg_func="sum", name="outer")
        want = lambda s: iw(s) + rs[0].at(s)
        sfn = S["sum"][1]
    m.setup()
    v = [want(s) for s in range(nsc)]
    got = r.values()
    for s in range(nsc):
        env.eq(got[s], v[s], "combined in each scenario")
    env.eq(r.aggregated_value(), sfn(v), "over scenarios")
    env.check(all(x in r.children for x in (rs if not nested else [inner, rs[0]])), "depends on the recorders")


def h_order(env, stat):
    """The result does not depend on the order of the scenarios."""
    f, fn = STAT(env)[stat]
    out = []
    for combos in ([[0], [1], [2]], [[2], [0], [1]], [[1], [2], [0]]):
        m = model(env, [3], start="2015-01-01", end="2015-01-02")
        m.scenarios.user_combinations = combos
        p = ByIndex(m, env, "p")
        r = NumpyArrayParameterRecorder(m, p, name="r", temporal_agg_func="mean", agg_func=f)
        for _ in steps(m):
            pass
        out.append(r.aggregated_value())
        want = [(p.of(0, c[0]) + p.of(1, c[0])) / 2 for c in combos]
        for s in range(3):
            env.eq(r.values()[s], want[s], "value of the scenario")
    for o in out[1:]:
        env.eq(o, out[0], "the same in any order")


class ByIndex(Parameter):
    """A value that depends on the scenario chosen, not on its position among the combinations."""

    def __init__(self, model, env, name):
        super().__init__(model, name=name)
        self.env, self.vname = env, name

    def value(self, ts, si):
        return self.of(ts.index, int(si.indices[0]))

    def of(self, t, k):
        return self.env.real("%s_%d_%d" % (self.vname, t, k), -10, 10)


def h_reject(env):
    m = tmodel(env, 1, (2,))
    p = Table(m, env, "p")
    env.raises(KeyError, lambda: NumpyArrayParameterRecorder(m, p, name="a", agg_func="average"), "unknown name")
    env.raises(KeyError, lambda: NumpyArrayParameterRecorder(m, p, name="b", temporal_agg_func="average"), "unknown name over time")
    env.raises(ValueError, lambda: NumpyArrayParameterRecorder(m, p, name="c", agg_func=3), "neither a name nor a function")
    m = tmodel(env, 1, (2,))
    p = Table(m, env, "p")
    r = NumpyArrayParameterRecorder(m, p, name="r")
    env.check(r.agg_func == "mean", "the mean by default")
    for nm in ("sum", "max", "min", "median", "product", "mean", "count_nonzero"):
        r.agg_func = nm
        env.check(r.agg_func == nm, "name read back")
    r.agg_func = spread
    env.check(r.agg_func is spread, "function read back")
    r.agg_func = "sum"
    m.setup()
    m.step()
    env.eq(r.aggregated_value(), p.at(0, 0) + p.at(0, 1), "replaced function")


def harnesses(tier):
    big = tier == "thorough"
    out = [task(h_reject)]
    for st in NAMES:
        out.append(task(h_temporal, params=dict(stat=st, n=(4 if big and st not in MULT else 3), scen=(2,))))
        out.append(task(h_temporal, params=dict(stat="mean" if st in MULT else st, over=st, n=2, scen=(3,))))
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            out.append(task(h_scenarios, params=dict(stat=st, n=n)))
        out.append(task(h_scenarios, params=dict(stat=st, n=3, missing=(1,), ignore=True)))
        out.append(task(h_scenarios, params=dict(stat=st, n=2, missing=(0, 1), ignore=True, later=True)))
        for miss in (((1, 0),), ((0, 0), (2, 1)), ((0, 1), (1, 1), (2, 1))):
            out.append(task(h_missing, params=dict(stat=st, ignore=True, missing=miss)))
    for st in ("sum", "mean", "min", "max", "median", "product"):
        out.append(task(h_missing, params=dict(stat=st, ignore=False, missing=((1, 0),))))
        out.append(task(h_scenarios, params=dict(stat=st, n=3, missing=(1,), ignore=False)))
        out.append(task(h_missing, params=dict(stat=st, ignore=True, missing=((0, 0), (1, 1)), over="max")))
    for kind in ("flow", "deficit", "cost", "volume", "level"):
        for st in ("min", "median", "sum"):
            out.append(task(h_temporal, params=dict(stat=st, kind=kind, over="max")))
        out.append(task(h_temporal, params=dict(stat="max", kind=kind, over="sum", set_later=True, scen=(2, 2), n=2)))
    for st in ("sum", "p25", "count", "score"):
        out.append(task(h_temporal, params=dict(stat=st, over="max", doc=True)))
    for st in NAMES:
        out.append(task(h_combined, params=dict(rstat=st, sstat="max", k=3)))
        if not st.startswith("score"):
            out.append(task(h_combined, params=dict(rstat=st, sstat=st, k=2, how="scenario", nsc=2)))
    for k in (1, 2, 3):
        out.append(task(h_combined, params=dict(rstat=None, sstat=None, k=k, how="default")))
        out.append(task(h_combined, params=dict(rstat="max", sstat=None, k=k, how="recorder", nsc=3)))
    out += [task(h_combined, params=dict(rstat="min", sstat="sum", k=2, nested=True)),
            task(h_combined, params=dict(rstat="median", sstat="sum", k=3, doc=True)),
            task(h_combined, params=dict(rstat="p40", sstat="sum", k=3, doc=True))]
    for st in ("sum", "mean", "min", "max", "median", "p25", "count", "score-weak"):
        out.append(task(h_order, params=dict(stat=st)))
    return out


from checks import defaults
harnesses = defaults.extend("C25", harnesses)
