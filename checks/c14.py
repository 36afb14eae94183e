"""C14: time-series and array parameters return the right step and scenario."""
import warnings
import numpy as np
import pandas as pd
import tables
from checks.lib import *
from pywr.parameters import *
from pywr.parameters import load_parameter
from pywr.dataframe_tools import ResamplingError

BOUNDS = "arbitrary data; runs of up to 6 time-steps (40 daily rows when months are involved) for 13 pairs of data and model frequencies; " \
         "scenarios of size up to 4, sliced or with user combinations; look-up offsets -7..7"
OUTSIDE = ["decoding of CSV, Excel, HDF5 and RData files by pandas and PyTables (data are given as frames, embedded dictionaries or a "
           "stand-in HDF5 file)", "data sets with missing values"]


# ------------------------------------------------------------------ scenarios
def case(m, kind):
    """Scenarios s0 (size 3) and s1 (size 2), selected in different ways; returns their index pairs."""
    a, b = Scenario(m, "a", size=3), Scenario(m, "b", size=2)
    pairs = [(i, j) for i in range(3) for j in range(2)]
    if kind == "slice":
        a.slice = slice(1, None)
        pairs = [p for p in pairs if p[0] >= 1]
    elif kind == "slice2":
        a.slice, b.slice = slice(None, None, 2), slice(1, 2)
        pairs = [(0, 1), (2, 1)]
    elif kind == "negative":
        a.slice = slice(-1, None)
        pairs = [(2, 0), (2, 1)]
    elif kind == "user":
        pairs = [(2, 1), (0, 0), (2, 0)]
        m.scenarios.user_combinations = pairs
    elif kind == "one":
        pairs = [(1, 1)]
        m.scenarios.user_combinations = pairs
    return a, b, pairs


KINDS = ["all", "slice", "slice2", "negative", "user", "one"]


def expect(env, m, p, want, pairs, n, index=None, runs=1):
    m.setup()
    env.check(len(m.scenarios.combinations) == len(pairs), "combinations")
    for r in range(runs):
        for t in range(n):
            m.step()
            for si, (i, j) in zip(m.scenarios.combinations, pairs):
                env.eq(p.get_value(si), want(t, i, j), "value of the step and scenario")
                if index is not None:
                    env.eq(p.get_index(si), index(t, i, j), "index of the step and scenario")
        if runs > 1:
            m.reset()


def grid(env, name, n, k, lo=-100, hi=100):
    return [[env.real("%s_%d_%d" % (name, i, j), lo, hi) for j in range(k)] for i in range(n)]


def h_array(env, kind):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    v = env.reals("v", 3, -100, 100)
    expect(env, m, ArrayIndexedParameter(m, v, name="p"), lambda t, i, j: v[t], pairs, 3, runs=2)


def h_array_scenario(env, kind, which):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    v = grid(env, "v", 3, [3, 2][which])
    p = ArrayIndexedScenarioParameter(m, [a, b][which], v, name="p")
    expect(env, m, p, lambda t, i, j: v[t][[i, j][which]], pairs, 3, runs=2)


def h_constant_scenario(env, kind, which):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    v = env.reals("v", [3, 2][which], -100, 100)
    p = ConstantScenarioParameter(m, [a, b][which], v, name="p")
    expect(env, m, p, lambda t, i, j: v[[i, j][which]], pairs, 2)


def h_constant_scenario_index(env, kind, which):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    v = [env.int("v%d" % k, -5, 5) for k in range([3, 2][which])]
    p = ConstantScenarioIndexParameter(m, [a, b][which], v, name="p")
    m.setup()
    for t in range(2):
        m.step()
        for si, ij in zip(m.scenarios.combinations, pairs):
            env.eq(p.get_index(si), v[ij[which]], "index of the scenario")


def h_factors(env, kind, which):
    m = model(env, [], start="2015-11-30", end="2016-01-30", timestep=31)
    a, b, pairs = case(m, kind)
    n = [3, 2][which]
    v = env.reals("v", 3, -100, 100)
    f = grid(env, "f", n, 12, -3, 3)
    p = ArrayIndexedScenarioMonthlyFactorsParameter(m, [a, b][which], v, f, name="p")
    # the factor is a linear form for fixed values: take the values one at a time
    sel = [[env.real("f_%d_%d" % (k, mth)) for mth in range(12)] for k in range(n)]
    month = [10, 11, 0]
    m.setup()
    for t in range(2 if m.timestepper.datetime_index.shape[0] == 2 else 3):
        m.step()
        for si, ij in zip(m.scenarios.combinations, pairs):
            env.eq(p.get_value(si), v[t] * sel[ij[which]][month[t]], "value times the month's factor of the scenario")


def h_bad_shape(env):
    m = model(env, [])
    a, b, pairs = case(m, "all")
    n = env.int("n", 1, 4)
    k = int(n)
    row = [[0.5] * k for _ in range(3)]
    if k == 3:
        ArrayIndexedScenarioParameter(m, a, row)
        ConstantScenarioParameter(m, a, row[0])
        ConstantScenarioIndexParameter(m, a, [1] * k)
        ArrayIndexedScenarioMonthlyFactorsParameter(m, a, [1.0] * 3, [[1.0] * 12] * k)
    else:
        env.raises(ValueError, lambda: ArrayIndexedScenarioParameter(m, a, row), "wrong number of columns")
        env.raises(ValueError, lambda: ConstantScenarioParameter(m, a, row[0]), "wrong number of values")
        env.raises(ValueError, lambda: ConstantScenarioIndexParameter(m, a, [1] * k), "wrong number of values")
        env.raises(ValueError, lambda: ArrayIndexedScenarioMonthlyFactorsParameter(m, a, [1.0] * 3, [[1.0] * 12] * k),
                   "wrong number of rows")
    env.raises(ValueError, lambda: ArrayIndexedScenarioMonthlyFactorsParameter(m, a, [1.0] * 3, [[1.0] * 11] * 3), "eleven months")


# ------------------------------------------------------------------ data frames
def frame(env, name, index, k):
    cols = [[env.real("%s_%d_%d" % (name, r, c), -100, 100) for r in range(len(index))] for c in range(k)]
    if k == 1:
        return pd.DataFrame({"c0": cols[0]}, index=index), cols
    return pd.DataFrame({"c%d" % c: cols[c] for c in range(k)}, index=index), cols


def resampled(index, col, periods):
    """The mean of the data falling in each step, or the datum whose period contains the step's start."""
    out = []
    for p in periods:
        rows = [r for r, q in enumerate(index) if p.start_time <= q.start_time <= p.end_time]
        inside = [r for r, q in enumerate(index) if q.start_time <= p.start_time and p.end_time <= q.end_time]
        if inside:
            out.append(col[inside[0]])
        else:
            # weighted by each datum's length inside the step when the data are coarser than a day
            tot, days = 0.0, 0
            for r, q in enumerate(index):
                lo, hi = max(q.start_time, p.start_time), min(q.end_time, p.end_time)
                if hi > lo:
                    d = ((hi - lo).total_seconds() + 1) // 3600
                    tot = tot + col[r] * (d / 24)
                    days += d / 24
            out.append(tot / days)
    return out


FREQS = [  # data frequency, data start, rows, model start, model end, model step
    ("D", "2015-01-01", 5, "2015-01-01", "2015-01-05", 1),
    ("D", "2014-12-30", 9, "2015-01-01", "2015-01-04", 1),
    ("D", "2015-01-01", 6, "2015-01-01", "2015-01-06", 2),
    ("D", "2014-12-30", 12, "2015-01-01", "2015-01-06", 3),
    ("2D", "2015-01-01", 3, "2015-01-01", "2015-01-06", 1),
    ("7D", "2015-01-01", 4, "2015-01-01", "2015-01-15", 7),
    ("6h", "2015-01-01", 12, "2015-01-01", "2015-01-03", 1),
    ("D", "2015-01-01", 2, "2015-01-01", "2015-01-02", "6h"),
    ("M", "2015-01-01", 3, "2015-01-30", "2015-02-02", 1),
    ("M", "2014-12-01", 4, "2015-01-29", "2015-02-03", 2),
    ("M", "2014-12-01", 4, "2015-01-01", "2015-02-28", "M"),
    ("D", "2016-02-01", 60, "2016-02-01", "2016-03-31", "M"),
    ("A", "2015-01-01", 2, "2015-12-31", "2016-01-02", 1),
]


def h_frame(env, f, stamps=False, offset=0):
    freq, dstart, rows, start, end, step = FREQS[f]
    m = model(env, [2], start=start, end=end, timestep=step)
    index = pd.period_range(dstart, periods=rows, freq=freq)
    df, cols = frame(env, "d", index, 1)
    if stamps:
        df = df.copy()
        df.index = pd.date_range(dstart, periods=rows, freq={"M": "MS", "A": "YS"}.get(freq, freq))
    p = DataFrameParameter(m, df, name="p", timestep_offset=offset)
    want = resampled(list(index), cols[0], list(m.timestepper.datetime_index))
    m.setup()
    n = len(m.timestepper)
    env.check(n == len(want), "steps")
    for t in range(n):
        m.step()
        u = min(max(t + offset, 0), n - 1)
        for v in values(p, m):
            env.eq(v, want[u], "the datum of the step")


def h_series(env):
    m = model(env, [2])
    v = env.reals("v", 3, -100, 100)
    p = DataFrameParameter(m, pd.Series(list(v), index=pd.period_range("2015-01-01", periods=3, freq="D")), name="p")
    m.setup()
    for t in range(3):
        m.step()
        for x in values(p, m):
            env.eq(x, v[t], "the datum of the step")


def h_frame_scenario(env, kind, which, offset=0, rerun=False):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    k = [3, 2][which]
    df, cols = frame(env, "d", pd.period_range("2014-12-31", periods=6, freq="D"), k)
    p = DataFrameParameter(m, df, scenario=[a, b][which], timestep_offset=offset, name="p")

    def want(t, i, j):
        return cols[[i, j][which]][1 + min(max(t + offset, 0), 2)]
    expect(env, m, p, want, pairs, 3)
    if rerun:
        # a longer run period needs the data again
        m.timestepper.end = "2015-01-05"
        m.setup()
        for t in range(5):
            m.step()
            for si, ij in zip(m.scenarios.combinations, pairs):
                env.eq(p.get_value(si), cols[ij[which]][1 + t], "value after extending the run")


def h_frame_cover(env):
    """Data that do not cover the run are rejected."""
    lo, n = env.int("lo", 0, 3), env.int("n", 1, 6)
    lo, n = int(lo), int(n)
    m = model(env, [2], start="2015-01-03", end="2015-01-05")
    df = pd.DataFrame({"c": [float(i) for i in range(n)]}, index=pd.period_range("2015-01-%02d" % (1 + lo), periods=n, freq="D"))
    p = DataFrameParameter(m, df, name="p")
    if lo <= 2 and lo + n >= 5:
        m.setup()
        for t in range(3):
            m.step()
            for v in values(p, m):
                env.eq(v, float(2 - lo + t), "covered")
    else:
        env.raises((ValueError, ResamplingError), m.setup, "data that do not cover the run")


def h_frame_columns(env):
    n = int(env.int("n", 1, 4))
    sc = int(env.int("sc", 0, 1))
    m = model(env, [])
    a, b, pairs = case(m, "all")
    df = pd.DataFrame({"c%d" % c: [1.0, 2.0, 3.0] for c in range(n)}, index=pd.period_range("2015-01-01", periods=3, freq="D"))
    DataFrameParameter(m, df, name="p", scenario=a if sc else None)
    if (sc and n == 3) or (not sc and n == 1):
        m.setup()
    elif n > 1:
        env.raises(ValueError, m.setup, "columns that do not match the scenario")


def h_frame_load(env, by):
    m = model(env, [])
    a, b, pairs = case(m, "user")
    dates = ["2015-01-01", "2015-01-02", "2015-01-03"]
    v = grid(env, "v", 3, 4)
    data = {"type": "dataframe", "parse_dates": True}
    cols = ["u", "v", "w", "x"]
    if by == "column":
        data["data"] = {c: {d: v[r][k] for r, d in enumerate(dates)} for k, c in enumerate(cols)}
        data["column"] = "w"
        want = lambda t, i, j: v[t][2]
    elif by == "columns":
        data["data"] = {c: {d: v[r][k] for r, d in enumerate(dates)} for k, c in enumerate(cols)}
        data["columns"] = ["x", "u", "v"]
        data["scenario"] = "a"
        want = lambda t, i, j: v[t][[3, 0, 1][i]]
    else:
        data["data"] = {c: {d: v[r][k] for r, d in enumerate(dates)} for k, c in enumerate(cols[:2])}
        data["scenario"] = "b"
        data["timestep_offset"] = -1
        want = lambda t, i, j: v[max(t - 1, 0)][j]
    p = load_parameter(m, data)
    expect(env, m, p, want, pairs, 3)


def h_load(env, kind):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    v, w, c = grid(env, "v", 3, 2), env.reals("w", 3, -100, 100), env.reals("c", 3, -100, 100)
    ix = [env.int("ix%d" % k, 0, 4) for k in range(2)]
    f = grid(env, "f", 2, 12, -3, 3)
    ps = [(load_parameter(m, {"type": "arrayindexed", "values": list(w)}), lambda t, i, j: w[t]),
          (load_parameter(m, {"type": "arrayindexedscenario", "scenario": "b", "values": v}), lambda t, i, j: v[t][j]),
          (load_parameter(m, {"type": "constantscenario", "scenario": "a", "values": list(c)}), lambda t, i, j: c[i]),
          (load_parameter(m, {"type": "arrayindexedscenariomonthlyfactors", "scenario": "b", "values": [2.0, 3.0, 4.0], "factors": f}),
           lambda t, i, j: (2.0 + t) * f[j][0])]
    q = load_parameter(m, {"type": "constantscenarioindex", "scenario": "b", "values": ix})
    m.setup()
    for t in range(3):
        m.step()
        for si, (i, j) in zip(m.scenarios.combinations, pairs):
            for p, want in ps:
                env.eq(p.get_value(si), want(t, i, j), "value of a loaded %s" % type(p).__name__)
            env.eq(q.get_index(si), ix[j], "index of a loaded parameter")


# ------------------------------------------------------------------ tables
class FakeNode:
    """A PyTables array node of given contents."""

    def __init__(self, a, dtype):
        self.a, self.dtype, self.shape = a, np.dtype(dtype), a.shape
        self._v_file, self._v_pathname = self, "/node"
        self.filename = "fake.h5"

    def read(self):
        return self.a.copy()

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and not isinstance(ix[1], slice):
            return self.a[ix[0], list(ix[1])] if not isinstance(ix[0], slice) else \
                np.array([[row[j] for j in ix[1]] for row in self.a[ix[0]]])
        return self.a[ix]


class FakeFile(tables.File):
    def __init__(self, node):
        self.fake, self.isopen, self.filename = node, 1, "fake.h5"

    def get_node(self, where, name=None, classname=None):
        return self.fake

    def __str__(self):
        return "fake.h5"

    __repr__ = __str__

    def close(self):
        pass


def h_tables(env, kind, which, ints, rows=3, extra=0, offset=0):
    m = model(env, [])
    a, b, pairs = case(m, kind)
    k = [3, 2][which] + extra
    if ints:
        v = [[env.int("v_%d_%d" % (r, c), -9, 9) for c in range(k)] for r in range(rows)]
    else:
        v = grid(env, "v", rows, k, 0, 100)
    arr = np.array(v, dtype=np.int32 if ints else np.float64)
    p = TablesArrayParameter(m, FakeFile(FakeNode(arr, np.int32 if ints else np.float64)), "node", scenario=[a, b][which],
                             timestep_offset=offset, name="p")
    last = rows - 1
    if kind != "all":
        last = min(last, 2)   # only the rows of the run are loaded
    want = lambda t, i, j: v[min(max(t + offset, 0), last)][[i, j][which]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expect(env, m, p, want, pairs, 3, index=want if ints else None)


def h_tables_plain(env, ints, offset=0):
    m = model(env, [2])
    v = [[env.int("v_%d_%d" % (r, c), -9, 9) if ints else env.real("v_%d_%d" % (r, c), 0, 100) for c in range(2)] for r in range(3)]
    arr = np.array(v, dtype=np.int32 if ints else np.float64)
    p = TablesArrayParameter(m, FakeFile(FakeNode(arr, np.int32 if ints else np.float64)), "node", timestep_offset=offset, name="p")
    expect(env, m, p, lambda t, i, j: v[min(max(t + offset, 0), 2)][0], [(0, 0), (1, 0)], 3)


def h_tables_cover(env):
    m = model(env, [])
    a, b, pairs = case(m, "all")
    r, c = int(env.int("r", 1, 4)), int(env.int("c", 1, 4))
    arr = np.array([[float(i + 10 * j) for j in range(c)] for i in range(r)], dtype=np.float64)
    TablesArrayParameter(m, FakeFile(FakeNode(arr, np.float64)), "node", scenario=a, name="p")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if r < 3 or c < 3:
            env.raises(IndexError, m.setup, "data that cover neither the run nor the scenario")
        else:
            m.setup()


def harnesses(tier):
    out = sweep(h_array, over={"kind": ["all", "user"]})
    for fn in (h_array_scenario, h_constant_scenario, h_constant_scenario_index, h_factors, h_frame_scenario):
        out += sweep(fn, over={"kind": KINDS, "which": [0, 1]})
    out += [task(h_bad_shape), task(h_frame_cover), task(h_frame_columns), task(h_tables_cover), task(h_series)]
    for f in range(len(FREQS)):
        out.append(task(h_frame, params=dict(f=f)))
        if FREQS[f][0] not in ("2D", "7D"):
            out.append(task(h_frame, params=dict(f=f, stamps=True)))
    for o in (-7, -1, 2, 7):
        out.append(task(h_frame, params=dict(f=1, offset=o)))
        out.append(task(h_frame_scenario, params=dict(kind="user", which=1, offset=o)))
        out.append(task(h_tables_plain, params=dict(ints=o % 2 == 0, offset=o)))
        out.append(task(h_tables, params=dict(kind="slice", which=0, ints=o % 2 == 1, offset=o)))
    out += sweep(h_frame_scenario, over={"kind": ["slice", "all", "user"], "which": [0], "rerun": [True]})
    out += sweep(h_frame_load, over={"by": ["column", "columns", "scenario"]})
    out += sweep(h_load, over={"kind": ["all", "user", "slice2"]})
    out += sweep(h_tables, over={"kind": KINDS, "which": [0, 1], "ints": [False, True]})
    out.append(task(h_tables, params=dict(kind="user", which=0, ints=False, rows=5, extra=1)))
    out.append(task(h_tables, params=dict(kind="all", which=0, ints=False, rows=5, extra=1, offset=1)))
    return out
