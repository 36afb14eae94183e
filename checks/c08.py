"""C08: scenario combinations enumerate exactly what was asked for."""
import numpy as np
from checks.lib import *
from pywr.recorders import NumpyArrayParameterRecorder

BOUNDS = "up to 3 scenarios of size 1..4, slices with start/stop/step in -4..5 or absent, up to 3 user-defined combinations over any integers"
OUTSIDE = []


def expected(ranges):
    """Row-major product, computed without itertools."""
    out = [[]]
    for r in ranges:
        out = [p + [i] for p in out for i in r]
    return out


def verify(env, m, exp, names, ens=None):
    sc = m.scenarios
    combos = sc.combinations
    env.check(len(combos) == len(exp), "number of combinations")
    for k, (c, e) in enumerate(zip(combos, exp)):
        env.check(c.global_id == k, "consecutive identifiers")
        env.check(len(c.indices) == len(e), "one index per scenario")
        for a, b in zip(c.indices, e):
            env.check(a == b, "combination %d" % k)
    got = list(sc.combination_names)
    env.check(got == ["-".join("%s.%03d" % (n, int(i)) for n, i in zip(names, e)) for e in exp], "combination names")
    mi = sc.multiindex
    env.check(len(mi) == len(exp), "columns")
    env.check(list(mi.names) == list(names), "column level names")
    for row, e in zip(mi, exp):
        for j, i in enumerate(e):
            i = int(i)
            env.check(row[j] == (ens[j][i] if ens and ens[j] else i), "column label")


def pyslice(n, start, stop, step):
    """Python's slicing of range(n), written out."""
    step = 1 if step is None else step
    if step > 0:
        lo, hi = 0, n
    else:
        lo, hi = -1, n - 1

    def norm(v, dflt):
        if v is None:
            return dflt
        if v < 0:
            v = v + n
        return min(max(v, lo), hi)
    a, b = (norm(start, lo), norm(stop, hi)) if step > 0 else (norm(start, hi), norm(stop, lo))
    out = []
    while (a < b) if step > 0 else (a > b):
        out.append(a)
        a = a + step
    return out


def h_product(env, k, names):
    m = model(env)
    sizes = [env.int("size%d" % i, 1, 3 if k > 2 else 4) for i in range(k)]
    ens = [None] * k
    for i, n in enumerate(sizes):
        n = int(n)
        if names and i % 2 == 0:
            ens[i] = ["e%d_%d" % (i, j) for j in range(n)]
        Scenario(m, "s%d" % i, size=n, ensemble_names=ens[i])
        env.check(list(m.scenarios["s%d" % i].ensemble_names) == (ens[i] or list(range(n))), "ensemble names")
    m.setup()
    exp = expected([range(int(n)) for n in sizes])
    verify(env, m, exp, ["s%d" % i for i in range(k)], ens)
    env.check(tuple(m.scenarios.shape) == tuple(int(n) for n in sizes), "shape")
    for c in m.scenarios.combinations:
        env.check(m.scenarios.ravel_indices(np.array(c.indices, dtype=np.int32)) == c.global_id, "position of the combination")


def h_none(env):
    m = model(env)
    m.setup()
    c = m.scenarios.combinations
    env.check(len(c) == 1 and c[0].global_id == 0 and list(c[0].indices) == [0], "one implicit combination")
    env.check(tuple(m.scenarios.shape) == (1,) and len(m.scenarios.multiindex) == 1 and len(m.scenarios) == 0, "implicit shape")
    env.check(m.scenarios.ravel_indices(None) == 0, "position without indices")
    env.check(m.scenarios.ravel_indices(np.zeros(0, dtype=np.int32)) == 0, "position of the implicit combination")


def h_slice(env, given, second):
    """A sliced scenario (and possibly a second one, sliced or not)."""
    m = model(env)
    n = int(env.int("n", 1, 4))
    lo, hi = -4, 5
    a = int(env.int("start", lo, hi)) if "a" in given else None
    b = int(env.int("stop", lo, hi)) if "b" in given else None
    c = int(env.int("step", -2, 3)) if "c" in given else None
    env.assume(c != 0)
    Scenario(m, "s0", size=n, slice=slice(a, b, c))
    rs = [pyslice(n, a, b, c)]
    if second:
        Scenario(m, "s1", size=2, slice=slice(1, None) if second == 2 else None)
        rs.append([1] if second == 2 else [0, 1])
    exp = expected(rs)
    env.check(tuple(m.scenarios.shape) == tuple(len(r) for r in rs), "shape")
    if not exp:
        env.raises(ValueError, m.setup, "an empty selection is rejected")
        return
    m.setup()
    verify(env, m, exp, ["s0", "s1"][:len(rs)])


def h_user(env, k, n):
    """User combinations: accepted exactly when in range, and then run exactly as listed."""
    m = model(env)
    sizes = [2, 3, 1][:k]
    for i, z in enumerate(sizes):
        # slices are superseded by user combinations
        Scenario(m, "s%d" % i, size=z, slice=slice(0, 1) if i == 1 else None)
    v = [[env.int("c%d_%d" % (r, i), -3, 5) for i in range(k)] for r in range(n)]
    ok = env.And(*[env.And(x >= 0, x < sizes[i]) for row in v for i, x in enumerate(row)])

    def put():
        m.scenarios.user_combinations = v
    if env.fork(ok):
        put()
        m.setup()
        verify(env, m, [[int(x) for x in row] for row in v], ["s%d" % i for i in range(k)])
        env.check(tuple(m.scenarios.shape) == (n,), "shape")
        m.scenarios.user_combinations = None
        m.setup()
        verify(env, m, expected([range(sizes[i]) if i != 1 else [0] for i in range(k)]), ["s%d" % i for i in range(k)])
    else:
        env.raises(ValueError, put, "out of range combinations are rejected")
        m.setup()
        env.check(m.scenarios.user_combinations is None, "a rejected definition leaves no trace")


def h_reject(env):
    m = model(env)
    s = Scenario(m, "s0", size=2)
    n = env.int("n", -2, 3)

    def mk():
        Scenario(m, "s1", size=int(n), ensemble_names=["a"] * 2)
    if env.fork(n == 2):
        mk()
        env.check(len(m.scenarios) == 2, "accepted")
    else:
        env.raises(ValueError, mk, "size below one, or names that do not match the size, are rejected")
        env.check(len(m.scenarios) == 1, "a rejected scenario is not added")
    env.raises(ValueError, lambda: m.scenarios.add_scenario(s), "adding a scenario twice is rejected")
    k = len(m.scenarios)
    for bad in ([0, 1], [[0] * (k + 1)], [[[0] * k]]):
        def put():
            m.scenarios.user_combinations = bad
        env.raises(ValueError, put, "wrongly shaped combinations are rejected")
    env.raises(KeyError, lambda: m.scenarios["nope"], "unknown scenario")
    env.check(m.scenarios["s0"] is s and m.scenarios.get_scenario_index(s) == 0, "look-up")


def h_seen(env, user):
    """What parameters are asked for and recorders report is the same enumeration."""
    m = model(env, start="2015-01-01", end="2015-01-01")
    a, b = int(env.int("a", 1, 3)), int(env.int("b", 1, 2))
    Scenario(m, "A", size=a)
    Scenario(m, "B", size=b, slice=slice(b - 1, None))
    if user:
        i, j = int(env.int("i", 0, a - 1)), int(env.int("j", 0, b - 1))
        m.scenarios.user_combinations = [[i, j], [a - 1, 0], [i, j]]
        exp = [[i, j], [a - 1, 0], [i, j]]
    else:
        exp = expected([range(a), [b - 1]])
    seen = []

    class P(Parameter):
        def value(self, ts, si):
            seen.append((si.global_id, [int(x) for x in si.indices]))
            return 0.0
    p = P(m, name="p")
    m.setup()
    m.step()
    env.check(seen == [(k, e) for k, e in enumerate(exp)], "each combination once, in order")


EDITS = ["slice", "unslice", "user", "other", "none", "add", "names"]


def h_rerun(env, edit):
    """Scenarios edited after a run: the next run executes, and reports, the edited enumeration."""
    m = model(env, start="2015-01-01", end="2015-01-01")
    n = int(env.int("n", 2, 3))
    a = Scenario(m, "A", size=n, slice=slice(0, 1) if edit == "unslice" else None)
    seen = []

    class P(Parameter):
        def value(self, ts, si):
            seen.append([int(x) for x in si.indices])
            return float(si.global_id)
    P(m, name="p")
    r = NumpyArrayParameterRecorder(m, m.parameters["p"], name="rec")
    i, j = env.int("i", 0, 1), env.int("j", 0, 1)
    if edit in ("other", "none"):
        m.scenarios.user_combinations = [[0], [1]]
    m.run()
    env.check(seen == ([[0], [1]] if edit in ("other", "none") else [[0]] if edit == "unslice" else [[k] for k in range(n)]), "first run")
    ens = None
    exp = [[k] for k in range(n)]
    if edit == "slice":
        a.slice = slice(1, None)
        exp = exp[1:]
    elif edit == "unslice":
        a.slice = None
    elif edit in ("user", "other"):
        exp = [[int(i)], [int(j)]]
        m.scenarios.user_combinations = exp
    elif edit == "none":
        m.scenarios.user_combinations = None
    elif edit == "add":
        b = Scenario(m, "B")
        env.check(b.size == 1, "a scenario has one ensemble unless it says otherwise")
        Scenario(m, "C", size=2)
        exp = [[k, 0, c] for k in range(n) for c in range(2)]
    else:
        a.ensemble_names = ens = ["e%d" % k for k in range(n)]
    del seen[:]
    m.run()
    env.check(seen == exp, "the edited enumeration is run")
    df = r.to_dataframe()
    env.check(df.shape == (1, len(exp)), "one column per combination")
    env.check([tuple(x) for x in df.columns] == [tuple(ens[k] if ens else k for k in e) for e in exp], "columns of the edited enumeration")
    if ens:
        a.ensemble_names = None
        env.check(list(a.ensemble_names) == list(range(n)), "names can be withdrawn")


def h_load(env, user):
    a, b = int(env.int("a", 1, 4)), int(env.int("b", 1, 3))
    lo, step = int(env.int("lo", 0, 3)), int(env.int("step", 1, 2))
    env.assume(lo < a)
    d = {"metadata": {"title": "t", "minimum_version": "0.1"},
         "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
         "solver": {"name": "null"},
         "scenarios": [{"name": "A", "size": a, "slice": [lo, None, step], "ensemble_names": ["x%d" % i for i in range(a)]},
                       {"name": "B", "size": b}],
         "nodes": [{"name": "in", "type": "input"}, {"name": "out", "type": "output"}], "edges": [["in", "out"]]}
    exp = expected([range(lo, a, step), range(b)])
    if user:
        exp = [[a - 1, b - 1], [0, b - 1]]
        d["scenario_combinations"] = exp
    m = Model.load(d)
    m.setup()
    verify(env, m, exp, ["A", "B"], [["x%d" % i for i in range(a)], None])


def harnesses(tier):
    B = [False, True]
    T = tier == "thorough"
    out = sweep(h_product, over=dict(k=[1, 2, 3], names=B)) + [task(h_none), task(h_reject)]
    out += sweep(h_slice, over=dict(given=["a", "b", "c", "ab", "ac", "bc"] + (["abc"] if T else []), second=[0, 1, 2] if T else [0, 2]))
    out += sweep(h_user, over=dict(k=[1, 2, 3], n=[1, 2] + ([3] if T else [])))
    out += sweep(h_rerun, over=dict(edit=EDITS))
    out += sweep(h_seen, over=dict(user=B)) + sweep(h_load, over=dict(user=B))
    return out
