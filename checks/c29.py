"""C29: statistical recorders return their defining statistic."""
import numpy as np
import pandas as pd
from scipy import stats
from checks.lib import *
from checks.c25 import STAT, Table, percentile, total
from pywr.nodes import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.recorders import load_recorder
from pywr.recorders.calibration import *
from pywr.recorders.kde import GaussianKDEStorageRecorder, NormalisedGaussianKDEStorageRecorder
from pywr.dataframe_tools import ResamplingError

BOUNDS = ("series of 2 to 4 time-steps (12 months for seasonal curves), 1 to 4 scenarios in one or two dimensions; any flows, volumes, "
          "observations and targets; percentiles 0, 25, 40, 50, 95, 100 in any order; observations as one series or one per scenario, "
          "on a finer, equal or coarser step, longer than the run; kernel densities of 2 values, with 2 to 5 points")
OUTSIDE = ["missing values", "seasons without any time-step", "the points at which the normalised density is reported",
           "the normal distribution function itself, and kernels when all values are equal"]
ASSUMPTIONS = ["the kernel density is Scott's one-dimensional Gaussian kernel; the normal distribution is only known to be symmetric"]


def idx(n, freq="D", start="2015-01-01"):
    return pd.period_range(start, periods=n, freq=freq)


def rmodel(env, n, scen, start="2015-01-01", timestep=1, names=("in",), lo=-10, hi=10):
    end = pd.Timestamp(start) + pd.Timedelta(days=(n - 1) * timestep)
    return model(env, scen, start=start, end=end, timestep=timestep, flow=flows(env, list(names), lo, hi))


def grid(env, name, n, k, lo=-10, hi=10):
    return [[env.real("%s_%d_%d" % (name, i, j), lo, hi) for j in range(k)] for i in range(n)]


def frame(cols, index, series=False):
    if series:
        return pd.Series(cols[0], index=index)
    return pd.DataFrame({"c%d" % i: c for i, c in enumerate(cols)}, index=index)


# --------------------------------------------------------------------------- comparison with observations
METRIC = {"rmse": RootMeanSquaredErrorNodeRecorder, "mae": MeanAbsoluteErrorNodeRecorder, "mse": MeanSquareErrorNodeRecorder,
          "pbias": PercentBiasNodeRecorder, "rsr": RMSEStandardDeviationRatioNodeRecorder, "nse": NashSutcliffeEfficiencyNodeRecorder}


def metric(env, kind, got, mod, obs, label):
    """The value reported is the statistic of the two series."""
    n = len(obs)
    d = [o - m for o, m in zip(obs, mod)]
    sq = total([x * x for x in d])
    if kind == "mae":
        return env.eq(got, total([env.abs(x) for x in d]) / n, label)
    if kind == "mse":
        return env.eq(got, sq / n, label)
    if kind == "rmse":
        env.check(got >= 0, label + " (sign)")
        return env.eq(got * got, sq / n, label)
    if kind == "pbias":
        return env.eq(got * total(obs), total(d) * 100, label)
    mean = total(obs) / n
    var = total([(o - mean) * (o - mean) for o in obs])
    if kind == "nse":
        return env.eq((1 - got) * var, sq, label)
    env.check(got >= 0, label + " (sign)")
    return env.eq(got * got * var, sq, label)


def nonzero(env, kind, cols):
    """(the statistic exists: no division by zero)"""
    for o in cols:
        if kind == "pbias":
            env.assume(env.Or(total(o) >= 0.5, total(o) <= -0.5))
        elif kind in ("nse", "rsr"):
            env.assume(env.Or(*[env.Or(a - b >= 0.5, b - a >= 0.5) for a, b in zip(o, o[1:])]))


def h_metric(env, kind, n, scen, shape, freq="equal", agg="mean"):
    """observed: one column per scenario, one column, or a series; on a finer, equal or coarser step; longer than the run."""
    step = 2 if freq == "finer" else 1
    m = rmodel(env, n, scen, timestep=step, start="2015-01-03" if freq == "longer" else "2015-01-01")
    nsc = int(np.prod(scen)) if scen else 1
    k = nsc if shape == "each" else 1
    if freq == "equal":
        v, index = grid(env, "obs", n, k), idx(n)
        at = lambda t, j: v[t][j]
    elif freq == "longer":
        v, index = grid(env, "obs", n + 3, k), idx(n + 3)
        at = lambda t, j: v[t + 2][j]
    elif freq == "finer":
        v, index = grid(env, "obs", 2 * n, k), idx(2 * n)
        at = lambda t, j: (v[2 * t][j] + v[2 * t + 1][j]) / 2
    else:
        v, index = grid(env, "obs", n, k), idx(n, "2D")
        at = lambda t, j: v[t // 2][j]
    obs = [[at(t, j) for t in range(n)] for j in range(k)]
    nonzero(env, kind, obs)
    df = frame([[row[j] for row in v] for j in range(k)], index, shape == "series")
    r = METRIC[kind](m, m.nodes["in"], df, name="r", agg_func=agg)
    for _ in steps(m):
        pass
    got = list(r.values())
    env.check(len(got) == nsc, "a value for each scenario")
    for s in range(nsc):
        mod = [m.solver.log[("in", t, s)] for t in range(n)]
        metric(env, kind, got[s], mod, obs[s if k > 1 else 0], kind)
    env.eq(r.aggregated_value(), STAT(env)[agg][1](got), "over scenarios")


def h_perfect(env, kind):
    """The best value when the model gives the observed flows."""
    m = rmodel(env, 3, (2,))
    df = frame([[env.real("flow_in_%d_%d" % (t, s), -10, 10) for t in range(3)] for s in range(2)], idx(3))
    for s in range(2):
        nonzero(env, kind, [[env.real("flow_in_%d_%d" % (t, s), -10, 10) for t in range(3)]])
    r = METRIC[kind](m, m.nodes["in"], df, name="r")
    for _ in steps(m):
        pass
    for x in r.values():
        env.eq(x, 1.0 if kind == "nse" else 0.0, "the best value")


def h_obs_reject(env, what):
    n = 3
    m = rmodel(env, n, (2,))
    cols = {"short": 1, "late": 1, "columns": 3, "missing": 1}[what]
    v = [[float(i + j) for i in range(n)] for j in range(cols)]
    index = idx(n)
    exc = ValueError
    if what == "short":
        v, index, exc = [c[:2] for c in v], index[:2], ResamplingError
    elif what == "late":
        index, exc = idx(n, start="2015-01-02"), ResamplingError
    elif what == "missing":
        v[0][1] = float("nan")
    m.recorders  # (the recorder registers itself)
    MeanSquareErrorNodeRecorder(m, m.nodes["in"], frame(v, index), name="r")
    env.raises(exc, lambda: m.setup(), "observations that do not fit: " + what)


# --------------------------------------------------------------------------- duration curves
PCTS = [[0, 25, 40], [100, 50, 95], [40], [95, 0, 100, 50]]


def curve(env, v, ps):
    return [percentile(env, v, p) for p in ps]


def same_curve(env, got, want, label):
    env.check(tuple(np.asarray(got).shape) == (len(want[0]), len(want)), "shape of the curve")
    for s, w in enumerate(want):
        for k, x in enumerate(w):
            env.eq(got[k, s], x, label)


def fdc_values(env, r, want, over, agg):
    S = STAT(env)
    got = r.values()
    per = [S[over][1](w) for w in want]
    for s, x in enumerate(per):
        env.eq(got[s], x, "over the percentiles")
    env.eq(r.aggregated_value(), S[agg][1](per), "over scenarios")


def fdc_frame(env, df, ps, want, label):
    env.check([float(x) for x in df.index] == [float(p) for p in ps], "frame: percentiles")
    env.check(df.shape[1] == len(want), "frame: scenarios")
    v = df.values
    for s, w in enumerate(want):
        for k, x in enumerate(w):
            env.eq(v[k, s], x, label)


def h_fdc(env, n, scen, pcts, over="mean", agg="mean", key="temporal_agg_func", doc=False):
    m = rmodel(env, n, scen)
    nsc = nscen_(scen)
    kw = {key: STAT(env)[over][0], "agg_func": STAT(env)[agg][0]}
    if doc:
        r = load_recorder(m, dict(type="flowdurationcurve", node="in", percentiles=list(pcts), name="r", **kw))
    else:
        r = FlowDurationCurveRecorder(m, m.nodes["in"], list(pcts), name="r", **kw)
    m.run()
    want = [curve(env, [m.solver.log[("in", t, s)] for t in range(n)], pcts) for s in range(nsc)]
    same_curve(env, r.fdc, want, "curve")
    fdc_values(env, r, want, over, agg)
    fdc_frame(env, r.to_dataframe(), pcts, want, "frame")


def nscen_(scen):
    k = 1
    for x in scen:
        k *= x
    return k


def h_sdc(env, n, scen, pcts, over="mean", agg="mean", key="temporal_agg_func", proportional=False, doc=False):
    """Volumes at the end of the steps, absolute or relative."""
    m = rmodel(env, n, scen, names=("st",), lo=-5, hi=5)
    nsc = nscen_(scen)
    st = Storage(m, "st", max_volume=200.0, initial_volume=100.0)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    kw = {key: STAT(env)[over][0], "agg_func": STAT(env)[agg][0]}
    if proportional:
        kw["proportional"] = True
    if doc:
        r = load_recorder(m, dict(type="storagedurationcurve", node="st", percentiles=list(pcts), name="r", **kw))
    else:
        r = StorageDurationCurveRecorder(m, st, list(pcts), name="r", **kw)
    m.run()
    f = 200.0 if proportional else 1.0
    want = [curve(env, [(100.0 + total(m.solver.log[("st", k, s)] for k in range(t + 1))) / f for t in range(n)], pcts) for s in range(nsc)]
    same_curve(env, r.sdc, want, "curve")
    fdc_values(env, r, want, over, agg)
    fdc_frame(env, r.to_dataframe(), pcts, want, "frame")


def h_season(env, months, start, timestep, n, scen=(2,), pcts=(0, 40, 100), doc=False):
    """Only the steps that start in one of the months count."""
    m = rmodel(env, n, scen, start=start, timestep=timestep)
    nsc = nscen_(scen)
    if doc:
        r = load_recorder(m, dict(type="seasonalflowdurationcurve", node="in", percentiles=list(pcts), months=list(months), name="r"))
    else:
        r = SeasonalFlowDurationCurveRecorder(m, m.nodes["in"], list(pcts), list(months), name="r")
    m.run()
    dates = [pd.Timestamp(start) + pd.Timedelta(days=timestep * t) for t in range(n)]
    want = [curve(env, [m.solver.log[("in", t, s)] for t in range(n) if dates[t].month in months], pcts) for s in range(nsc)]
    same_curve(env, r.fdc, want, "curve of the season")
    fdc_values(env, r, want, "mean", "mean")


# --------------------------------------------------------------------------- deviation from target curves
def h_deviation(env, n, scen, lower, upper, by=None, over="mean", doc=False, zero=False, pcts=(25, 100), frame_=False):
    """The worse of the relative excess over the upper and the shortfall below the lower target; zero in between.
    lower/upper: None, "one" (for all), "each" (per scenario combination, or per entry of the scenario `by`)."""
    m = rmodel(env, n, scen, lo=0, hi=10)
    nsc = nscen_(scen)
    combos = list(np.ndindex(*scen))[::-1]
    size = nsc if by is None else scen[by]

    def target(name, how):
        if how is None:
            return None, None
        k = size if how == "each" else 1
        v = grid(env, name, len(pcts), k, 0.5, 10)
        if zero:
            v[0][0] = 0.0
        if how == "flat":
            return v, [row[0] for row in v]
        return v, np.array(v)
    lv, la = target("lower", lower)
    uv, ua = target("upper", upper)
    kw = dict(lower_target_fdc=la, upper_target_fdc=ua, name="r", temporal_agg_func=STAT(env)[over][0])
    if doc:
        if by is not None:
            kw["scenario"] = "s%d" % by
        kw = {k: v for k, v in kw.items() if v is not None}
        r = load_recorder(m, dict(type="flowdurationcurvedeviation", node="in", percentiles=list(pcts), **kw))
    else:
        if by is not None:
            kw["scenario"] = m.scenarios["s%d" % by]
        r = FlowDurationCurveDeviationRecorder(m, m.nodes["in"], list(pcts), **kw)
    m.run()
    fdc = [curve(env, [m.solver.log[("in", t, s)] for t in range(n)], pcts) for s in range(nsc)]
    got = r.fdc_deviations
    env.check(tuple(np.asarray(got).shape) == (len(pcts), nsc), "shape of the deviations")
    dev = []
    for s in range(nsc):
        j = s if by is None else combos[s][by]
        row = []
        for k in range(len(pcts)):
            d = [0.0]
            und = False
            for v, sign in ((lv, -1), (uv, 1)):
                if v is None:
                    continue
                tg = v[k][j if len(v[k]) > 1 else 0]
                if isinstance(tg, float) and tg == 0.0:
                    und = True
                else:
                    d.append(sign * (fdc[s][k] - tg) / tg)
            if und:
                x = got[k, s]
                env.check(isinstance(x, float) and x != x, "undefined for a target of zero")
                row.append(None)
            else:
                w = env.max(*d)
                env.eq(got[k, s], w, "deviation")
                row.append(w)
        dev.append(row)
    if not zero:
        fdc_values(env, r, dev, over, "mean")
        fdc_frame(env, r.to_dataframe(), pcts, dev, "frame of deviations")
        a, b = r.to_dataframe(return_fdc=True)
        fdc_frame(env, a, pcts, dev, "frame of deviations")
        fdc_frame(env, b, pcts, fdc, "frame of the curve")
    same_curve(env, r.fdc, fdc, "curve")


def h_dev_reject(env):
    def mk():
        m = rmodel(env, 2, (2, 3))
        return m, m.nodes["in"]
    m, i = mk()
    env.raises(ValueError, lambda: FlowDurationCurveDeviationRecorder(m, i, [25, 50], name="a"), "no target")
    for nm in ("lower_target_fdc", "upper_target_fdc"):
        m, i = mk()
        env.raises(ValueError, lambda: FlowDurationCurveDeviationRecorder(m, i, [25, 50], name="b", **{nm: [1.0, 2.0, 3.0]}), nm + ": length")
        for by, k in ((None, 5), (None, 2), ("s0", 3), ("s1", 2), ("s1", 6)):
            m, i = mk()
            s = m.scenarios[by] if by else None
            FlowDurationCurveDeviationRecorder(m, i, [25, 50], name="c", scenario=s, **{nm: np.ones((2, k))})
            env.raises(ValueError, lambda: m.setup(), "%s: %d targets for %s" % (nm, k, by or "all"))


def h_deprecated(env):
    """Old names of the option are accepted, but not both."""
    m = rmodel(env, 2, (2,))
    env.raises(ValueError, lambda: FlowDurationCurveRecorder(m, m.nodes["in"], [50], name="a", fdc_agg_func="max", temporal_agg_func="min"),
               "ambiguous")
    m = rmodel(env, 2, (2,))
    st = Storage(m, "st", max_volume=10.0, initial_volume=5.0)
    env.raises(ValueError, lambda: StorageDurationCurveRecorder(m, st, [50], name="a", sdc_agg_func="max", temporal_agg_func="min"), "ambiguous")


def h_restart(env):
    """A second run gives its own curve, not one of both."""
    m = rmodel(env, 3, (2,))
    r = FlowDurationCurveRecorder(m, m.nodes["in"], [40], name="r")
    q = MeanSquareErrorNodeRecorder(m, m.nodes["in"], frame([[env.real("o%d" % t, -10, 10) for t in range(3)]], idx(3)), name="q")
    fn = m.solver.fn
    m.run()
    m.solver.fn = lambda node, t, s: env.real("again_%d_%d" % (t, s), -10, 10) if node.name == "in" else None
    m.run()
    for s in range(2):
        v = [m.solver.log[("in", t, s)] for t in range(3)]
        env.eq(r.fdc[0, s], percentile(env, v, 40), "curve of the second run")
        env.eq(q.values()[s], total([(env.real("o%d" % t, -10, 10) - v[t]) * (env.real("o%d" % t, -10, 10) - v[t]) for t in range(3)]) / 3,
               "error of the second run")


# --------------------------------------------------------------------------- kernel densities
def kde(vals, lo, hi, pts):
    k = stats.gaussian_kde(np.array(vals))
    return k.integrate_box_1d(lo, hi), k(np.array(pts))


def spread(env, n, nsc):
    """(no density when all values are equal)"""
    env.assume(env.real("flow_st_%d_0" % (n - 1), -5, 5) >= 0.1)
    if n == 1:
        env.assume(env.real("flow_st_0_1", -5, 5) <= -0.1)


def h_kde(env, n, nsc, reflect, target=0.3, num=3, resample=None, doc=False):
    m = rmodel(env, n, (nsc,), names=("st",), lo=-5, hi=5)
    st = Storage(m, "st", max_volume=200.0, initial_volume=100.0)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    kw = dict(target_volume_pc=target, num_pdf=num)
    if reflect is not None:
        kw["use_reflection"] = reflect
    if resample:
        kw.update(resample_freq="2D", resample_func=resample)
    if doc:
        r = load_recorder(m, dict(type="gaussiankdestorage", node="st", name="r", **kw))
    else:
        r = GaussianKDEStorageRecorder(m, st, name="r", **kw)
    spread(env, n, nsc)
    m.run()
    vol = lambda t, s: (100.0 + total(m.solver.log[("st", k, s)] for k in range(t + 1))) / 200.0
    series = [[vol(t, s) for t in range(n)] for s in range(nsc)]
    if resample:
        f = STAT(env)[resample][1]
        series = [[f(v[t:t + 2]) for t in range(0, n, 2)] for v in series]
    v = [series[s][t] for t in range(len(series[0])) for s in range(nsc)]
    pts = [i / (num - 1.0) for i in range(num)]
    p, d = kde(v, 0.0, target, pts)
    if reflect is not False:
        for w in ([-x for x in v], [2.0 - x for x in v]):
            a, b = kde(w, 0.0, target, pts)
            p, d = p + a, [x + y for x, y in zip(d, b)]
    env.eq(r.aggregated_value(), p, "probability of the target volume")
    df = r.to_dataframe()
    env.check([round(float(x), 9) for x in df.index] == [round(x, 9) for x in pts], "points of the density")
    got = r.values()
    for k in range(num):
        env.eq(got[k][0], d[k], "density")
        env.eq(df.values[k][0], d[k], "density in the frame")


def h_nkde(env, n, nsc, reflect, doc=False, curve=0.25):
    """Volumes relative to a control curve: -1 empty, 0 on the curve, 1 full."""
    m = rmodel(env, n, (nsc,), names=("st",), lo=-5, hi=5)
    st = Storage(m, "st", max_volume=200.0, initial_volume=100.0)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    cc = ConstantParameter(m, curve, name="cc")
    kw = dict(num_pdf=2)
    if reflect is not None:
        kw["use_reflection"] = reflect
    if doc:
        r = load_recorder(m, dict(type="normalisedgaussiankdestorage", node="st", parameter="cc", name="r", **kw))
    else:
        r = NormalisedGaussianKDEStorageRecorder(m, st, parameter=cc, name="r", **kw)
    spread(env, n, nsc)
    m.run()
    vol = lambda t, s: (100.0 + total(m.solver.log[("st", k, s)] for k in range(t + 1))) / 200.0
    norm = (lambda x: x / curve - 1.0) if curve > 0.5 else (lambda x: (x - curve) / (1.0 - curve))
    v = [norm(vol(t, s)) for t in range(n) for s in range(nsc)]
    p, d = kde(v, -1.0, 0.0, [0.5])
    if reflect is not False:
        for w in ([-2.0 - x for x in v], [2.0 - x for x in v]):
            p = p + kde(w, -1.0, 0.0, [0.5])[0]
    env.eq(r.aggregated_value(), p, "probability of being below the curve")


def harnesses(tier):
    deep = tier != "quick"
    out = []
    kinds = list(METRIC)
    out += sweep(h_metric, over=dict(kind=kinds, n=[3], scen=[(2,)], shape=["each", "one"]))
    out += sweep(h_metric, over=dict(kind=kinds, n=[2], scen=[(1,), (2, 2)], shape=["each"]))
    out += sweep(h_metric, over=dict(kind=kinds, n=[2], scen=[(2,)], shape=["series"]))
    out += sweep(h_metric, over=dict(kind=["mse", "pbias", "nse"] if not deep else kinds, n=[2], scen=[(2,)], shape=["each", "one"],
                                     freq=["finer", "longer"]))
    out += sweep(h_metric, over=dict(kind=["mae", "mse"], n=[3], scen=[()], shape=["one"], freq=["coarser"]))
    out += sweep(h_metric, over=dict(kind=["mae"], n=[2], scen=[(3,)], shape=["each"], agg=["max", "sum", "median"]))
    out += sweep(h_perfect, over=dict(kind=kinds))
    out += sweep(h_obs_reject, over=dict(what=["short", "late", "columns", "missing"]))
    if deep:
        out += sweep(h_metric, over=dict(kind=kinds, n=[4], scen=[(3,)], shape=["each", "one", "series"]))
    for p in PCTS:
        out += [task(h_fdc, params=dict(n=3, scen=(2,), pcts=p)), task(h_sdc, params=dict(n=3, scen=(2,), pcts=p))]
    for f in ("max", "min", "sum", "median"):
        out += [task(h_fdc, params=dict(n=2, scen=(2,), pcts=PCTS[0], over=f)), task(h_sdc, params=dict(n=2, scen=(2,), pcts=PCTS[0], over=f)),
                task(h_fdc, params=dict(n=2, scen=(3,), pcts=PCTS[2], agg=f))]
    out += [task(h_fdc, params=dict(n=2, scen=(2, 2), pcts=PCTS[1], doc=True)),
            task(h_fdc, params=dict(n=2, scen=(2,), pcts=PCTS[1], key="fdc_agg_func", over="max")),
            task(h_sdc, params=dict(n=2, scen=(2,), pcts=PCTS[1], key="sdc_agg_func", over="max")),
            task(h_sdc, params=dict(n=2, scen=(2,), pcts=PCTS[1], proportional=True)),
            task(h_sdc, params=dict(n=2, scen=(2, 2), pcts=PCTS[1], doc=True)),
            task(h_fdc, params=dict(n=4, scen=(1,), pcts=PCTS[0])), task(h_sdc, params=dict(n=4, scen=(1,), pcts=PCTS[1]))]
    if deep:
        out += [task(h_fdc, params=dict(n=5, scen=(1,), pcts=p)) for p in PCTS]
    out += [task(h_season, params=dict(months=[2], start="2015-01-29", timestep=1, n=6)),
            task(h_season, params=dict(months=[1, 3], start="2015-01-20", timestep=10, n=6, scen=(), doc=True)),
            task(h_season, params=dict(months=[12, 1], start="2014-11-25", timestep=14, n=6, scen=())),
            task(h_season, params=dict(months=[2], start="2016-02-25", timestep=2, n=5))]
    for lo, up in (("one", None), (None, "one"), ("each", "each"), ("one", "each"), ("flat", "flat"), (None, "each"), ("each", None)):
        out += [task(h_deviation, params=dict(n=2, scen=(2,), lower=lo, upper=up)),
                task(h_deviation, params=dict(n=2, scen=(2,), lower=lo, upper=up, doc=True))]
    for by in (0, 1):
        for doc in (False, True):
            out += [task(h_deviation, params=dict(n=2, scen=(2, 3), lower="each", upper="each", by=by, pcts=(50,), doc=doc)),
                    task(h_deviation, params=dict(n=2, scen=(2, 3), lower="one", upper="each", by=by, pcts=(50,), doc=doc)),
                    task(h_deviation, params=dict(n=2, scen=(3, 2), lower="each", upper=None, by=by, pcts=(50,), doc=doc))]
    out += sweep(h_deviation, over=dict(n=[2], scen=[(2,)], lower=["one"], upper=["one"], over=["max", "sum"]))
    out += sweep(h_deviation, over=dict(n=[2], scen=[(2,)], lower=["each"], upper=[None, "each"], zero=[True]))
    out += [task(h_dev_reject), task(h_deprecated), task(h_restart)]
    out += sweep(h_kde, over=dict(n=[2], nsc=[1], reflect=[None, True, False]))
    out += sweep(h_kde, over=dict(n=[1], nsc=[2], reflect=[None, False]))
    out += [task(h_kde, params=dict(n=2, nsc=1, reflect=True, target=0.75, num=5, doc=True)),
            task(h_kde, params=dict(n=4, nsc=1, reflect=True, resample="min")), task(h_kde, params=dict(n=4, nsc=1, reflect=False, resample="mean"))]
    out += sweep(h_nkde, over=dict(n=[2], nsc=[1], reflect=[None, False], curve=[0.25, 0.75]))
    out += sweep(h_nkde, over=dict(n=[1], nsc=[2], reflect=[None]))
    out += [task(h_nkde, params=dict(n=2, nsc=1, reflect=True, doc=True))]
    return out
