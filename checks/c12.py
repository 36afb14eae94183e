"""C12: aggregated parameters combine their members as named."""
from checks.lib import *
from pywr.parameters import *
from pywr.parameters import load_parameter

BOUNDS = "up to 4 members (5 in the thorough tier), 2 time-steps, 2 scenarios, member values in [-100, 100], indices in [0, 3]"
OUTSIDE = ["not-a-number members"]


def agg(env, f, v):
    v = list(v)
    if f == "sum":
        return env.sum(v)
    if f == "mean":
        return env.sum(v) / len(v)
    if f == "min":
        return env.min(v)
    if f == "max":
        return env.max(v)
    if f == "median":
        return env.median(v)
    if f == "product":
        r = 1.0
        for x in v:
            r = r * x
        return r
    if f == "custom":
        return 2 * v[0] - v[-1]
    raise ValueError(f)


def user(values):
    return 2 * values[0] - values[-1]


def func(f):
    return user if f == "custom" else f


FUNCS = ["sum", "mean", "min", "max", "median", "product", "custom"]


def h_value(env, f, n):
    m = model(env, [2])
    late = f in ("sum", "max")
    if late:
        # the aggregate is created first, its members are added afterwards
        p = AggregatedParameter(m, [], agg_func=func(f), name="p")
        ms = [Var(m, env, "x%d" % i) for i in range(n)]
        for x in ms:
            p.add(x)
    else:
        ms = [Var(m, env, "x%d" % i) for i in range(n)]
        p = AggregatedParameter(m, ms, agg_func=func(f), name="p")
    env.check(len(p) == n, "number of members")
    env.check(p.agg_func == func(f), "agg_func reads back")
    for ts in steps(m, 2):
        for si in m.scenarios.combinations:
            env.eq(p.get_value(si), agg(env, f, [x.at(ts.index, si.global_id) for x in ms]), f)


def h_reuse(env, f):
    """Members may repeat, be constants, or be aggregates; the function may be changed between steps."""
    m = model(env, [2])
    x, y = Var(m, env, "x"), Var(m, env, "y")
    c = ConstantParameter(m, env.real("c", -100, 100))
    q = AggregatedParameter(m, [x, y], agg_func="max", name="q")
    p = AggregatedParameter(m, [x, c, q, x], agg_func="sum", name="p")
    m.setup()
    m.step()

    def spec(si, t, f):
        s = si.global_id
        return agg(env, f, [x.at(t, s), c.get_constant_value(), env.max(x.at(t, s), y.at(t, s)), x.at(t, s)])
    for si in m.scenarios.combinations:
        env.eq(p.get_value(si), spec(si, 0, "sum"), "sum")
    p.agg_func = func(f)
    m.step()
    for si in m.scenarios.combinations:
        env.eq(p.get_value(si), spec(si, 1, f), "changed function")


def h_remove(env, dup):
    m = model(env, [2])
    p = AggregatedParameter(m, [], agg_func="sum", name="p")
    x, y, z = Var(m, env, "x"), Var(m, env, "y"), Var(m, env, "z")
    for k in ([x, y, x] if dup else [x, y, z]):
        p.add(k)
    p.remove(x)
    left = [y, x] if dup else [y, z]
    env.check(p in left[0].parents and p in left[1].parents, "members stay linked")
    env.check(set(p.children) == set(left), "children are the members")
    for ts in steps(m, 2):
        for si in m.scenarios.combinations:
            env.eq(p.get_value(si), env.sum(k.at(ts.index, si.global_id) for k in left), "after removal")


def h_division(env):
    """A divisor and dividend that share a parameter, one of them replaced."""
    m = model(env, [2])
    d0 = ConstantParameter(m, 1.0)
    p = DivisionParameter(m, d0, d0, name="p")
    x, y = Var(m, env, "x", 1, 10), Var(m, env, "y", 1, 10)
    p.numerator = x
    p.denominator = x
    p.numerator = y
    env.check(set(p.children) == {x, y}, "children are the current parameters")
    for ts in steps(m, 2):
        for si in m.scenarios.combinations:
            t, s = ts.index, si.global_id
            env.eq(p.get_value(si) * x.at(t, s), y.at(t, s), "division", 1e-4)


IFUNCS = ["sum", "min", "max", "any", "all", "product", "custom"]


def iagg(env, f, v):
    if f == "any":
        return env.ite(env.Or(*[a != 0 for a in v]), 1, 0)
    if f == "all":
        return env.ite(env.And(*[a != 0 for a in v]), 1, 0)
    if f == "product":
        r = 1
        for a in v:
            r = r * a
        return r
    if f == "sum":
        r = 0
        for a in v:
            r = r + a
        return r
    return agg(env, f, v)


def h_index(env, f, n):
    m = model(env, [2])
    p = AggregatedIndexParameter(m, [], agg_func=func(f), name="p")
    ms = [IndexVar(m, env, "i%d" % i, 3) for i in range(n)]
    for x in ms:
        p.add(x)
    env.check(len(p) == n, "number of members")
    for ts in steps(m, 2):
        for si in m.scenarios.combinations:
            e = iagg(env, f, [x.at(ts.index, si.global_id) for x in ms])
            env.eq(p.get_index(si), e, "index")
            env.eq(p.get_value(si), e, "value is the index")


def h_load(env, index):
    """The same from a document, with inline and named members."""
    m = model(env, [2])
    fs = IFUNCS[:-1] if index else FUNCS[:-1]
    ps = []
    if index:
        ms = [IndexVar(m, env, "a", 3), IndexVar(m, env, "b", 3)]
    else:
        ms = [Var(m, env, "a"), Var(m, env, "b")]
    for f in fs:
        members = ["a", "b"] if index else ["a", 4.0, "b", {"type": "constant", "value": -2.5}]
        ps.append(load_parameter(m, {"type": "aggregatedindex" if index else "aggregated", "agg_func": f.upper() if f == "max" else f,
                                     "parameters": members, "name": "p" + f}))
    for ts in steps(m, 1):
        for si in m.scenarios.combinations:
            a, b = [x.at(ts.index, si.global_id) for x in ms]
            for f, p in zip(fs, ps):
                if index:
                    env.eq(p.get_index(si), iagg(env, f, [a, b]), f)
                else:
                    env.eq(p.get_value(si), agg(env, f, [a, 4.0, b, -2.5]), f)


def h_reject(env):
    m = model(env, [2])
    x = Var(m, env, "x")
    env.raises((ValueError, KeyError), lambda: AggregatedParameter(m, [x], agg_func="largest"), "unknown function")
    env.raises((ValueError, KeyError), lambda: AggregatedParameter(m, [x]), "no function")
    env.raises((ValueError, KeyError), lambda: AggregatedIndexParameter(m, [x], agg_func="largest"), "unknown index function")
    m = model(env, [2])
    x = Var(m, env, "x")
    AggregatedParameter(m, [x], agg_func="any")
    env.raises(ValueError, lambda: m.run(), "a function for indices only")


def harnesses(tier):
    big = tier == "thorough"
    out = sweep(h_value, over=dict(f=FUNCS, n=[1, 2, 3, 4] + ([5] if big else [])))
    out += sweep(h_reuse, over=dict(f=FUNCS[1:]))
    out += sweep(h_remove, over=dict(dup=[False, True]))
    out += sweep(h_index, over=dict(f=IFUNCS, n=[1, 2, 3] + ([4] if big else [])))
    out += sweep(h_load, over=dict(index=[False, True]))
    out += [task(h_division), task(h_reject)]
    return out
