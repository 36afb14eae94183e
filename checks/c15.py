"""C15: control curve parameters select the band the storage is in."""
import numpy as np
from checks.lib import *
from pywr.parameters import *
from pywr.parameters.control_curves import *
from pywr.parameters import load_parameter
from pywr.nodes import VirtualStorage

BOUNDS = "up to 3 control curves (4 in the thorough tier) that vary by time-step and scenario, 2 time-steps, 2 scenarios, any volume"
OUTSIDE = ["interpolating parameters with control curves out of order or outside [0, 1]"]
MAXV = 8.0


def net(env, scen=(2,), maxv=MAXV):
    m = model(env, scen, flow=flows(env, ["in", "out"], 0, 2))
    st = Storage(m, "st", max_volume=maxv, initial_volume=env.real("v0", 0, MAXV))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    return m, st


def pcs(m, st, maxv=MAXV):
    """volume fraction per scenario before the step"""
    return [st.volume[i] / maxv for i in range(nscen(m))]


def run(env, m, st, n=2):
    m.setup()
    for t in range(n):
        f = pcs(m, st)
        for s, x in enumerate(f):
            env.assume(x <= 1)
            env.assume(x >= 0)
        m.step()
        for si in m.scenarios.combinations:
            yield t, si.global_id, si, f[si.global_id]


def curves(env, m, n, ordered=False):
    cs = [Var(m, env, "c%d" % i, 0, 1) for i in range(n)]
    if ordered:
        for t in range(2):
            for s in range(2):
                for a, b in zip(cs, cs[1:]):
                    env.assume(a.at(t, s) >= b.at(t, s))
    return cs


def band(env, pc, cv):
    """Index of the first curve the level is at or above."""
    r = len(cv)
    for i in reversed(range(len(cv))):
        r = env.ite(pc >= cv[i], i, r)
    return r


def pick(env, i, v):
    r = v[-1]
    for k in range(len(v) - 1):
        r = env.ite(i == k, v[k], r)
    return r


def h_index(env, n):
    m, st = net(env)
    p = ControlCurveIndexParameter(m, st, [], name="p")
    cs = curves(env, m, n)
    p.control_curves = cs if n != 1 else cs[0]
    for t, s, si, pc in run(env, m, st):
        e = band(env, pc, [c.at(t, s) for c in cs])
        env.eq(p.get_index(si), e, "band")
        env.eq(p.get_value(si), e, "value is the band")


def h_value(env, n, kind):
    m, st = net(env)
    cs = curves(env, m, n)
    if kind == "values":
        v = env.reals("v", n + 1, -100, 100)
        p = ControlCurveParameter(m, st, cs, values=v, name="p")
    elif kind == "parameters":
        # created after the control curve parameter's own inputs but evaluated first
        vs = [Var(m, env, "w%d" % i) for i in range(n + 1)]
        p = ControlCurveParameter(m, st, cs, parameters=vs, name="p")
    else:
        p = ControlCurveParameter(m, st, cs, name="p")
    for t, s, si, pc in run(env, m, st):
        i = band(env, pc, [c.at(t, s) for c in cs])
        if kind == "parameters":
            vv = [x.at(t, s) for x in vs]
        else:
            vv = v if kind == "values" else list(range(n + 1))
        env.eq(p.get_value(si), pick(env, i, vv), "value of the band")


def h_replaced(env):
    """Control curves given as numbers, and replaced later."""
    m, st = net(env)
    a, b = env.real("a", 0, 1), env.real("b", 0, 1)
    x = Var(m, env, "x", 0, 1)
    v = env.reals("v", 3, -100, 100)
    p = ControlCurveParameter(m, st, [x, x], values=v, name="p") if False else ControlCurveParameter(m, st, [0.75, x], values=v, name="p")
    q = ControlCurveIndexParameter(m, st, [x, 0.25], name="q")
    y = Var(m, env, "y", 0, 1)
    p.control_curves = [y, 0.5]
    q.control_curves = y
    env.check(x not in p.children and x not in q.children and y in p.children and y in q.children, "links follow the curves")
    for t, s, si, pc in run(env, m, st):
        env.eq(p.get_value(si), pick(env, band(env, pc, [y.at(t, s), 0.5]), v), "value")
        env.eq(q.get_index(si), band(env, pc, [y.at(t, s)]), "band")


def close(env, a, b):
    return env.And(a - b < 1e-9, b - a < 1e-9)


def check_line(env, got, pc, hi, lo, vhi, vlo, label):
    """got lies on the line through (hi, vhi) and (lo, vlo) at pc"""
    env.eq((got - vlo) * (hi - lo), (vhi - vlo) * (pc - lo), label, 1e-4)


def h_interp(env, n, kind):
    m, st = net(env)
    cs = curves(env, m, n, True)
    if kind == "parameters":
        vs = [Var(m, env, "w%d" % i) for i in range(n + 2)]
        p = ControlCurveInterpolatedParameter(m, st, cs, parameters=vs, name="p")
    else:
        v = env.reals("v", n + 2, -100, 100)
        p = ControlCurveInterpolatedParameter(m, st, cs, values=v, name="p")
    for t, s, si, pc in run(env, m, st, 1):
        cv = [1.0] + [c.at(t, s) for c in cs] + [0.0]
        vv = [x.at(t, s) for x in vs] if kind == "parameters" else v
        got = p.get_value(si)
        k = n
        for j in range(n):
            if env.fork(pc >= cv[j + 1]):
                k = j
                break
        hi, lo = cv[k], cv[k + 1]
        if env.fork(hi == lo):
            env.eq(got, vv[k + 1] if k < n else vv[n], "between coinciding curves")
        else:
            check_line(env, got, pc, hi, lo, vv[k], vv[k + 1], "interpolated")


def h_piecewise(env, n, bounds, free=False):
    m, st = net(env)
    lo0, hi0 = (0.0, 1.0) if not bounds else (env.real("minimum", 0, 1), env.real("maximum", 0, 1))
    cs = curves(env, m, n, True)
    for s in range(2):
        for c in cs:
            if not free:
                env.assume(env.And(c.at(0, s) <= hi0, c.at(0, s) >= lo0))
    v = [env.reals("v%d_" % i, 2, -100, 100) for i in range(n + 1)]
    kw = dict(minimum=lo0, maximum=hi0) if bounds else {}
    p = ControlCurvePiecewiseInterpolatedParameter(m, st, cs, values=v, name="p", **kw)
    for t, s, si, pc in run(env, m, st, 1):
        cv = [hi0] + [c.at(t, s) for c in cs] + [lo0]
        got = p.get_value(si)
        k = n
        for j in range(n):
            if env.fork(pc >= cv[j + 1]):
                k = j
                break
        hi, lo = cv[k], cv[k + 1]
        a, b = v[k]
        if env.fork(pc > hi):
            env.eq(got, a, "above the highest level")
        elif env.fork(pc < lo):
            env.eq(got, b, "below the lowest level")
        elif env.fork(hi == lo):
            env.eq(got, b, "between coinciding levels")
        else:
            check_line(env, got, pc, hi, lo, a, b, "interpolated")


def h_max(env):
    """The level is relative to the storage's own maximum volume, also when that is a parameter."""
    m = model(env, [2], flow=flows(env, ["in", "out"], 0, 2))
    mx = Var(m, env, "mx", 4, 20)
    st = Storage(m, "st", max_volume=mx, initial_volume=env.real("v0", 0, 4), initial_volume_pc=0.5)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    p = ControlCurveIndexParameter(m, st, [0.75, 0.25], name="p")
    mx.parents.add(p)
    m.setup()
    for t in range(2):
        vol = [st.volume[s] for s in range(2)]
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            if t == 0:
                env.eq(p.get_index(si), 1, "the stated initial level")
            else:
                h = mx.at(t - 1, s)
                env.eq(p.get_index(si), band(env, vol[s], [0.75 * h, 0.25 * h]), "level at the end of the step before")


def h_virtual(env):
    """Virtual and aggregated storages count like real ones."""
    m = model(env, [2], flow=flows(env, ["in", "out"], 0, 2))
    st = [Storage(m, "st%d" % i, max_volume=8.0 * (i + 1), initial_volume=env.real("v%d" % i, 0, 8.0 * (i + 1))) for i in range(2)]
    for x in st:
        m.nodes["in"].connect(x)
        x.connect(m.nodes["out"])
    vs = VirtualStorage(m, "lic", [m.nodes["in"]], max_volume=16.0, initial_volume=env.real("vl", 0, 16))
    from pywr.core import AggregatedStorage
    ag = AggregatedStorage(m, "ag", storage_nodes=st)
    c = Var(m, env, "c", 0, 1)
    p = ControlCurveIndexParameter(m, vs, [c], name="p")
    q = ControlCurveParameter(m, ag, [c], values=[3.0, 7.0], name="q")
    m.step()
    for si in m.scenarios.combinations:
        s = si.global_id
        env.eq(p.get_index(si), env.ite(env.real("vl", 0, 16) >= 16 * c.at(0, s), 0, 1), "virtual storage")
        env.eq(q.get_value(si), env.ite(env.real("v0") + env.real("v1") >= 24 * c.at(0, s), 3.0, 7.0), "aggregated storage")


def h_load(env):
    m, st = net(env)
    a, b = curves(env, m, 2, True)
    v = [5.0, -1.0, 2.0]
    w = [5.0, -1.0, 2.0, 9.0]
    x = Var(m, env, "x")
    ps = {
        "i": load_parameter(m, {"type": "controlcurveindex", "storage_node": "st", "control_curves": ["c0", "c1"], "name": "i"}),
        "v": load_parameter(m, {"type": "controlcurve", "storage_node": "st", "control_curves": ["c0", "c1"], "values": v, "name": "v"}),
        "1": load_parameter(m, {"type": "controlcurve", "storage_node": "st", "control_curve": "c0", "values": v[:2], "name": "1"}),
        "p": load_parameter(m, {"type": "controlcurve", "storage_node": "st", "control_curves": [0.5, 0.25], "parameters": [{"type": "constant", "value": 1.0}, "x", {"type": "constant", "value": 4.0}], "name": "p"}),
        "n": load_parameter(m, {"type": "controlcurveinterpolated", "storage_node": "st", "control_curves": [0.75, 0.25], "values": w, "name": "n"}),
        "np": load_parameter(m, {"type": "controlcurveinterpolated", "storage_node": "st", "control_curve": 0.5, "parameters": ["x", {"type": "constant", "value": 2.0}, {"type": "constant", "value": 4.0}], "name": "np"}),
        "w": load_parameter(m, {"type": "controlcurvepiecewiseinterpolated", "storage_node": "st", "control_curve": 0.5, "values": [[4.0, 2.0], [2.0, 1.0]], "minimum": 0.25, "name": "w"}),
    }
    for t, s, si, pc in run(env, m, st, 1):
        i = band(env, pc, [a.at(t, s), b.at(t, s)])
        env.eq(ps["i"].get_index(si), i, "index")
        env.eq(ps["v"].get_value(si), pick(env, i, v), "values")
        env.eq(ps["1"].get_value(si), env.ite(pc >= a.at(t, s), v[0], v[1]), "one curve")
        env.eq(ps["p"].get_value(si), pick(env, band(env, pc, [0.5, 0.25]), [1.0, x.at(t, s), 4.0]), "parameters")
        e = env.ite(pc >= 0.75, -1.0 + 6.0 * (pc - 0.75) * 4, env.ite(pc >= 0.25, 2.0 - 3.0 * (pc - 0.25) * 2, 9.0 - 7.0 * pc * 4))
        env.eq(ps["n"].get_value(si), e, "interpolated")
        xv = x.at(t, s)
        env.eq(ps["np"].get_value(si), env.ite(pc >= 0.5, 2.0 + (xv - 2.0) * (pc - 0.5) * 2, 4.0 - 2.0 * pc * 2), "interpolated between parameters")
        e = env.ite(pc >= 0.5, 2.0 + 2.0 * (pc - 0.5) * 2, env.ite(pc >= 0.25, 1.0 + 1.0 * (pc - 0.25) * 4, 1.0))
        env.eq(ps["w"].get_value(si), e, "piecewise")


def h_weighted(env, maxp, order=(0, 1, 2)):
    """Average of daily profiles weighted by storage size."""
    import datetime as dt
    m = model(env, [2], start="2015-02-27", end="2015-03-02")
    mx = [env.real("m%d" % i, 1, 50) for i in range(3)]
    sts = [Storage(m, "st%d" % i, max_volume=ConstantParameter(m, mx[i]) if maxp else mx[i], initial_volume=1.0, initial_volume_pc=0.5)
           for i in range(3)]
    mon = env.reals("mon", 12, 0, 1)
    day = [float(i % 97) / 97 for i in range(366)]
    c = env.real("c", 0, 1)
    ps = [MonthlyProfileParameter(m, mon), DailyProfileParameter(m, day), ConstantParameter(m, c)]
    p = WeightedAverageProfileParameter(m, [sts[i] for i in order], [ps[i] for i in order], name="p")
    env.check(all(x in p.children for x in ps), "depends on the profiles")
    for x in sts:
        m.nodes["in"].connect(x)
        x.connect(m.nodes["out"])
    m.setup()
    idx = [57, 58, 60, 61]
    for t in range(4):
        m.step()
        for si in m.scenarios.combinations:
            e = mx[0] * mon[1 if t < 2 else 2] + mx[1] * day[idx[t]] + mx[2] * c
            env.eq(p.get_value(si) * (mx[0] + mx[1] + mx[2]), e, "weighted average", 1e-4)


def h_reject(env):
    m, st = net(env)
    R = lambda f, l: env.raises(ValueError, f, l)
    R(lambda: ControlCurveParameter(m, st, [0.5], values=[1.0]), "too few values")
    R(lambda: ControlCurveParameter(m, st, [0.5], values=[1.0, 2.0, 3.0]), "too many values")
    R(lambda: ControlCurveParameter(m, st, [0.5], parameters=[Var(m, env, "x")]), "too few parameters")
    R(lambda: ControlCurveInterpolatedParameter(m, st, [0.5], values=[1.0, 2.0]), "too few interpolated values")
    R(lambda: ControlCurveInterpolatedParameter(m, st, [0.5]), "no interpolated values")
    R(lambda: ControlCurvePiecewiseInterpolatedParameter(m, st, [0.5], values=[[1.0, 2.0]]), "too few pieces")
    R(lambda: ControlCurvePiecewiseInterpolatedParameter(m, st, [0.5], values=[[1.0], [2.0]]), "not pairs")
    R(lambda: ControlCurvePiecewiseInterpolatedParameter(m, st, [0.5], values=[[1.0], [2.0, 3.0]]), "not a pair")
    R(lambda: ControlCurveParameter(m, st, [0.5], values=[1.0, 2.0], upper_bounds=[3.0]), "upper bounds of nothing")
    R(lambda: ControlCurveParameter(m, st, [0.5], values=[1.0, 2.0], lower_bounds=[0.0]), "lower bounds of nothing")


def harnesses(tier):
    big = tier == "thorough"
    ns = [1, 2, 3] + ([4] if big else [])
    out = sweep(h_index, over=dict(n=[0] + ns))
    out += sweep(h_value, over=dict(n=ns, kind=["values", "parameters", "default"]))
    out += sweep(h_interp, over=dict(n=[0] + ns[:-1], kind=["values", "parameters"]))
    out += sweep(h_piecewise, over=dict(n=ns[:-1], bounds=[False, True]))
    out += sweep(h_piecewise, over=dict(n=ns[:-1], bounds=[True], free=[True]))
    out += sweep(h_weighted, over=dict(maxp=[False, True]))
    out += sweep(h_weighted, over=dict(maxp=[False], order=[(1, 0, 2), (2, 1, 0), (1, 2, 0)]))
    out += [task(h_max), task(h_virtual), task(h_load), task(h_replaced), task(h_reject)]
    return out


from checks import defaults
harnesses = defaults.extend("C15", harnesses)
