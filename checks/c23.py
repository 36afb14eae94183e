"""C23: array recorders hold exactly what happened in each step and scenario."""
import numpy as np
import pandas
from checks.lib import *
from datetime import timedelta
from checks.c13 import dmodel, idoy
from pywr.nodes import *
from pywr.nodes import VirtualStorage
from pywr.parameters import ConstantParameter, InterpolatedVolumeParameter
from pywr.recorders import *
from pywr.recorders import load_recorder

BOUNDS = ("3 time-steps (4 in the thorough tier) of 1 or 10 days, 1 to 4 scenarios in one or two dimensions, also a selection of "
          "combinations in another order; any flows, limits, costs, volumes, indices and parameter values; a second run over another "
          "period; daily profiles starting in the last days of February or of any year 1895..2105")
OUTSIDE = ["sub-daily time-steps"]

LIM = "a limit of zero supplies everything and curtails nothing"


def sflows(env, names=("in", "link", "st")):
    """Arbitrary flows; a storage's flow is its net inflow."""
    def fn(node, t, s):
        if node.name in names:
            return env.real("flow_%s_%d_%d" % (node.name, t, s), -50, 50 if isinstance(node, Storage) else 100)
        return None
    return fn


class World:
    """A model in which every recorded quantity is arbitrary."""

    def __init__(self, env, scen, start, end, step, combos):
        self.env = env
        self.fl = sflows(env)
        m = self.m = model(env, scen, start=start, end=end, timestep=step, flow=self.fl)
        if combos:
            m.scenarios.user_combinations = combos
        self.lim = Var(m, env, "lim", 0, 100)
        self.cost = Var(m, env, "cost")
        self.par = Var(m, env, "par")
        self.idx = IndexVar(m, env, "idx", 5)
        self.cc = Var(m, env, "cc", 0, 1)
        self.level, self.area = Var(m, env, "level"), Var(m, env, "area")
        self.node = m.nodes["in"]
        self.node.max_flow, self.node.cost = self.lim, self.cost
        self.v0 = env.real("v0", 0, 1000)
        self.st = Storage(m, "st", max_volume=1000.0, initial_volume=self.v0, level=self.level, area=self.area)
        m.nodes["in"].connect(self.st)
        self.st.connect(m.nodes["out"])
        self.flow = {}

    # what happened in step t, scenario s
    def flow_in(self, t, s):
        return self.m.solver.log[("in", t, s)]


def rec(doc, m, cls, **kw):
    """The recorder built by its constructor, or from a description."""
    if not doc:
        return cls(m, **kw)
    d = {"type": cls.__name__.replace("Recorder", "") if doc == "short" else cls.__name__}
    for k, v in kw.items():
        if k == "param":
            k = "parameter"
        if hasattr(v, "name"):
            v = v.name
        d[k] = v
    return load_recorder(m, d)


def labels(m, df, n, nsc, index=None):
    """Row and column labels of a data frame."""
    want = index if index is not None else [m.timestepper.start + i * pandas.Timedelta(days=m.timestepper.delta) for i in range(n)]
    ok = [str(x)[:10] for x in df.index] == [str(x)[:10] for x in want]
    cols = [tuple(int(x) for x in si.indices) for si in m.scenarios.combinations]
    have = [tuple(int(x) for x in (c if isinstance(c, tuple) else (c,))) for c in df.columns]
    return ok and have == cols


def build(w, env, kind, doc):
    """-> (recorder, expected value in step t and scenario s given the facts)"""
    m, node, st = w.m, w.node, w.st
    v = lambda p: (lambda t, s: p.at(t, s))
    nm = "r " + kind
    if kind == "flow":
        return rec(doc, m, NumpyArrayNodeRecorder, node=node, name=nm), w.flow_in
    if kind == "factor":
        f = 2.5 if doc else env.real("factor", -10, 10)
        return rec(doc, m, NumpyArrayNodeRecorder, node=node, factor=f, name=nm), lambda t, s: f * w.flow_in(t, s)
    if kind == "storageflow":
        return rec(doc, m, NumpyArrayNodeRecorder, node=st, name=nm), lambda t, s: w.facts["stflow"][t][s]
    if kind == "deficit":
        return rec(doc, m, NumpyArrayNodeDeficitRecorder, node=node, name=nm), lambda t, s: w.lim.at(t, s) - w.flow_in(t, s)
    if kind == "supplied":
        return (rec(doc, m, NumpyArrayNodeSuppliedRatioRecorder, node=node, name=nm),
                lambda t, s: ratio(env, w.flow_in(t, s), w.lim.at(t, s), 1.0, False))
    if kind == "curtailment":
        return (rec(doc, m, NumpyArrayNodeCurtailmentRatioRecorder, node=node, name=nm),
                lambda t, s: ratio(env, w.flow_in(t, s), w.lim.at(t, s), 0.0, True))
    if kind == "cost":
        return rec(doc, m, NumpyArrayNodeCostRecorder, node=node, name=nm), v(w.cost)
    if kind == "volume":
        return rec(doc, m, NumpyArrayStorageRecorder, node=st, name=nm), lambda t, s: w.facts["vol"][t][s]
    if kind == "proportion":
        return (rec(doc, m, NumpyArrayStorageRecorder, node=st, proportional=True, name=nm),
                lambda t, s: w.facts["vol"][t][s] / 1000.0)
    if kind == "normalised":
        def e(t, s):
            p, c = w.facts["vol"][t][s] / 1000.0, w.cc.at(t, s)
            if env.fork(p < c):
                return p / c - 1.0
            if env.fork(c == 1.0):
                return 1.0       # full
            return (p - c) / (1.0 - c)
        return rec(doc, m, NumpyArrayNormalisedStorageRecorder, node=st, parameter=w.cc, name=nm), e
    if kind == "level":
        return rec(doc, m, NumpyArrayLevelRecorder, node=st, name=nm), v(w.level)
    if kind == "area":
        return rec(doc, m, NumpyArrayAreaRecorder, node=st, name=nm), v(w.area)
    if kind == "parameter":
        return rec(doc, m, NumpyArrayParameterRecorder, param=w.par, name=nm), v(w.par)
    if kind == "index":
        return rec(doc, m, NumpyArrayIndexParameterRecorder, param=w.idx, name=nm), v(w.idx)
    raise KeyError(kind)


def ratio(env, q, x, other, invert):
    if env.fork(x == 0):
        return other
    return 1.0 - q / x if invert else q / x


KINDS = ["flow", "factor", "storageflow", "deficit", "supplied", "curtailment", "cost", "volume", "proportion", "normalised",
         "level", "area", "parameter", "index"]


def run_all(w, env, recs, start=0):
    """Run the model; keep what happened."""
    m = w.m
    n, nsc = len(m.timestepper), nscen(m)
    days = float(m.timestepper.delta)
    w.facts = dict(vol=[], stflow=[])
    vol = [w.v0] * nsc
    for t in range(n):
        if w.bounded:
            # volumes stay inside the storage, as the solvers guarantee
            for s in range(nsc):
                v = vol[s] + env.real("flow_st_%d_%d" % (t, s), -50, 50) * days
                # (clear of the ends, where the last 1e-6 are rounded to empty or full)
                env.assume(v >= (0 if w.bounded == "snap" else 1))
                env.assume(v <= (1000 if w.bounded == "snap" else 999))
        m.step()
        lf = [m.solver.log[("st", t, s)] for s in range(nsc)]
        vol = [vol[s] + lf[s] * days for s in range(nsc)] if w.bounded != "snap" else [x for x in w.st.volume]
        w.facts["vol"].append(vol)
        w.facts["stflow"].append(lf)
        yield t
    m.finish()


def verify(w, env, r, fn, n, nsc, what, full=True):
    d = r.data
    env.check(d.shape == (n, nsc), "one row per step, one column per scenario")
    want = [[fn(t, s) for s in range(nsc)] for t in range(n)]
    for t in range(n):
        for s in range(nsc):
            env.eq(d[t, s], want[t][s], what)
    df = r.to_dataframe()
    env.check(labels(w.m, df, n, nsc), "labels of the data frame")
    env.check(df.shape == (n, nsc), "shape of the data frame")
    for t in range(n):
        for s in range(nsc):
            env.eq(df.iloc[t, s], want[t][s], what + " in the data frame")
    # the data handed out is a copy
    d[0, 0] = d[0, 0] + 1
    env.eq(r.data[0, 0], want[0][0], "the record cannot be changed through its copy")
    return want


def h_record(env, kinds, scen=(2,), start="2015-02-27", n=3, step=1, combos=None, doc=False, again=False):
    kinds = kinds.split("+")
    end = pandas.Timestamp(start) + pandas.Timedelta(days=step * (n - 1))
    w = World(env, scen, start, end, step, combos)
    w.bounded = any(k in ("volume", "proportion", "normalised", "storageflow", "level", "area") for k in kinds)
    if "normalised" in kinds:
        w.bounded = "snap"
    m = w.m
    rs = [build(w, env, k, doc) for k in kinds]
    m.setup()
    nsc = nscen(m)
    for t in run_all(w, env, rs):
        for (r, fn), k in zip(rs, kinds):
            if t + 1 < n and k not in ("normalised", "supplied", "curtailment"):
                d = r.data
                for s in range(nsc):
                    env.eq(d[t, s], fn(t, s), k + " as it is recorded")
    for (r, fn), k in zip(rs, kinds):
        verify(w, env, r, fn, n, nsc, k)
    if again:
        # fewer steps, from another day: nothing of the first run remains
        s0 = pandas.Timestamp(start) + pandas.Timedelta(days=2)
        m.timestepper.start, m.timestepper.end = s0, s0 + pandas.Timedelta(days=step * (n - 2))
        m.solver.log.clear()
        m.setup()
        for t in run_all(w, env, rs):
            pass
        for (r, fn), k in zip(rs, kinds):
            verify(w, env, r, fn, n - 1, nsc, k)


def h_profile(env, n, delta, around):
    """Any year, around the end of February or of the year."""
    m, d = dmodel(env, n, delta)
    a, b = {"february": (2, 3), "year": (12, 1)}[around]
    env.assume(env.Or(env.And(d.month == a, d.day >= 27), env.And(d.month == b, d.day <= 1)))
    p = Var(m, env, "p")
    r = NumpyArrayDailyProfileParameterRecorder(m, p, name="r")
    m.setup()
    days = [idoy(env, d + timedelta(days=t * delta)) for t in range(n)]
    for t in range(n):
        m.step()
    x = r.data
    env.check(x.shape == (366, 2), "one row per day of the year")
    near = set(range(56, 66)) if around == "february" else set(range(8)) | set(range(358, 366))
    for s in range(2):
        env.check(all(k in near or float(x[k, s]) == 0.0 for k in range(366)), "other days of the year")
        for k in sorted(near):
            e = 0.0
            for t in range(n):
                e = env.ite(days[t] == k, p.at(t, s), e)
            env.eq(x[k, s], e, "value last seen on that day of the year")


def h_profile_dates(env, start, delta, n, leap):
    """Fixed dates over several years, with arbitrary values."""
    s0 = pandas.Timestamp(start)
    m = model(env, [2], start=start, end=s0 + pandas.Timedelta(days=delta * (n - 1)), timestep=delta)
    p = Var(m, env, "p")
    r = NumpyArrayDailyProfileParameterRecorder(m, p, name="r")
    for _ in steps(m):
        pass
    want = {}
    for t in range(n):
        day = s0 + pandas.Timedelta(days=delta * t)
        k = (pandas.Timestamp(2016, day.month, day.day) - pandas.Timestamp(2016, 1, 1)).days
        want[k] = t
    df = r.to_dataframe()
    env.check(labels(m, df, 366, 2, index=range(1, 367)), "labels of the data frame")
    for k in range(366):
        for s in range(2):
            e = p.at(want[k], s) if k in want else 0.0
            env.eq(r.data[k, s], e, "value last seen on that day of the year")
            env.eq(df.iloc[k, s], e, "value last seen on that day of the year, in the data frame")


def h_derived(env, kind):
    """Recorders on nodes whose state is derived from other nodes."""
    fl = flows(env, ["in", "link", "out"], 0, 100)
    m = model(env, [2], flow=fl)
    a, l = m.nodes["in"], m.nodes["link"]
    rs = []
    if kind == "aggregated":
        n = AggregatedNode(m, "agg", [a, l])
        rs.append((NumpyArrayNodeRecorder(m, n, factor=3.0, name="r"), lambda t, s: 3.0 * (q("in", t, s) + q("link", t, s))))
    elif kind == "virtual":
        n = VirtualStorage(m, "vs", [a, l], factors=[1.0, 2.0], max_volume=1e6, initial_volume=5e5)
        used = lambda t, s: q("in", t, s) + 2.0 * q("link", t, s)
        rs.append((NumpyArrayStorageRecorder(m, n, name="r"), lambda t, s: 5e5 - sum(used(i, s) for i in range(t + 1))))
        rs.append((NumpyArrayStorageRecorder(m, n, proportional=True, name="r2"),
                   lambda t, s: (5e5 - sum(used(i, s) for i in range(t + 1))) / 1e6))
    elif kind == "aggstorage":
        st = []
        for k, (mx, ini) in enumerate([(100.0, 50.0), (300.0, 100.0)]):
            x = Storage(m, "st%d" % k, max_volume=mx, initial_volume=ini)
            i = Input(m, "i%d" % k)
            i.connect(x)
            o = Output(m, "o%d" % k)
            x.connect(o)
            st.append(x)
        n = AggregatedStorage(m, "as", st)
        m.solver.fn = lambda node, t, s: env.real("flow_%s_%d_%d" % (node.name, t, s), -10, 10) if node.name in ("st0", "st1") else None
        vol = lambda t, s: 150.0 + sum(q("st%d" % k, i, s) for k in range(2) for i in range(t + 1))
        rs.append((NumpyArrayStorageRecorder(m, n, name="r"), vol))
        rs.append((NumpyArrayStorageRecorder(m, n, proportional=True, name="r2"), lambda t, s: vol(t, s) / 400.0))
    q = lambda name, t, s: m.solver.log[(name, t, s)]
    for _ in steps(m):
        pass
    for r, fn in rs:
        for t in range(3):
            for s in range(2):
                env.eq(r.data[t, s], fn(t, s), kind)


def h_level(env, kind):
    """The level or area is the one the storage has in that step: on the curve at the volume the step starts from."""
    fl = flows(env, ["st"], -5, 10)
    m = model(env, [2], nodes=False, flow=fl)
    a, st, o = Input(m, "in"), Storage(m, "st", max_volume=100.0, initial_volume=20.0), Output(m, "out")
    a.connect(st)
    st.connect(o)
    p = InterpolatedVolumeParameter(m, st, [0.0, 100.0], [5.0, 15.0], name="curve")
    setattr(st, kind, p)
    r = dict(level=NumpyArrayLevelRecorder, area=NumpyArrayAreaRecorder)[kind](m, st, name="r")
    c = Storage(m, "c", max_volume=10.0, initial_volume=5.0)
    setattr(c, kind, 7.5)
    rc = dict(level=NumpyArrayLevelRecorder, area=NumpyArrayAreaRecorder)[kind](m, c, name="rc")
    i2 = Input(m, "i2")
    i2.connect(c)
    c.connect(o)
    vol = [20.0, 20.0]
    m.setup()
    for t in range(3):
        m.step()
        for s in range(2):
            env.eq(r.data[t, s], 5.0 + vol[s] / 10.0, kind + " on the curve", tol=1e-6)
            env.eq(rc.data[t, s], 7.5, "constant " + kind)
            vol[s] = vol[s] + m.solver.log[("st", t, s)]


def harnesses(tier):
    big = tier == "thorough"
    out = []
    easy = "+".join(k for k in KINDS if k not in ("normalised", "supplied", "curtailment"))
    for scen, combos in (((2,), None), ((2, 2), None), ((), None), ((2, 3), [[1, 2], [0, 1], [1, 0]])):
        out.append(task(h_record, name="h_record(easy,%s%s)" % ("x".join(map(str, scen)), ",chosen" if combos else ""),
                        params=dict(kinds=easy, scen=scen, combos=combos, n=4 if big else 3)))
        for k in ("normalised", "supplied", "curtailment"):
            out.append(task(h_record, name="h_record(%s,%s%s)" % (k, "x".join(map(str, scen)), ",chosen" if combos else ""),
                            params=dict(kinds=k, scen=scen, combos=combos, n=2 if len(scen) < 2 and big else 1)))
    out += [task(h_record, name="h_record(easy,step=10)", params=dict(kinds=easy, step=10, start="2015-12-20")),
            task(h_record, name="h_record(easy,document)", params=dict(kinds=easy, doc=True)),
            task(h_record, name="h_record(easy,short document)", params=dict(kinds=easy, doc="short")),
            task(h_record, name="h_record(easy,again)", params=dict(kinds=easy, again=True)),
            task(h_record, name="h_record(ratios,document)", params=dict(kinds="supplied+curtailment", doc=True, n=1, scen=())),
            task(h_record, name="h_record(normalised,document)", params=dict(kinds="normalised", doc=True, n=1, scen=()))]
    out += sweep(h_profile, over=dict(around=["february", "year"], n=[2, 3] if big else [2], delta=[1, 366] if big else [1]))
    for start, delta, n in (("2015-02-27", 1, 4), ("2016-02-28", 1, 3), ("2014-12-30", 366, 3), ("2013-03-01", 365, 4)):
        out.append(task(h_profile_dates, name="h_profile_dates(%s,%d,%d)" % (start, delta, n), params=dict(start=start, delta=delta, n=n, leap=None)))
    out += sweep(h_derived, over=dict(kind=["aggregated", "virtual", "aggstorage"]))
    out += sweep(h_level, over=dict(kind=["level", "area"]))
    return out


from checks import defaults
harnesses = defaults.extend("C23", harnesses)
