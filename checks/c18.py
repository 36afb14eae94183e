"""C18: arithmetic transform parameters compute their documented function."""
import math
from checks.lib import *
from pywr.parameters import *
from pywr.parameters.parameters import (InterpolatedQuadratureParameter, InterpolatedParameter, ScaledProfileParameter,
                                        InterpolatedVolumeParameter, InterpolatedFlowParameter, FunctionParameter,
                                        ScenarioWrapperParameter)

BOUNDS = "2 time-steps, 2 scenarios (2x2 for the array ones), values in [-100, 100], data of up to 4 points, polynomials up to degree 3"
OUTSIDE = ["interpolation kinds other than linear", "exp and cos are uninterpreted functions"]
SI = lambda m: m.scenarios.combinations


def run(m, n=2):
    for ts in steps(m, n):
        for si in SI(m):
            yield ts.index, si.global_id, si


def h_bounds2(env, cls, neg, big):
    m = model(env, [2])
    x = Var(m, env, "x")
    c = env.real("c", -100, 100)
    p = cls(m, x, c, name="p")
    q = cls(m, x, name="q")
    for t, s, si in run(m):
        v = -x.at(t, s) if neg else x.at(t, s)
        f = env.max if big else env.min
        env.eq(p.get_value(si), f(v, c), "value")
        env.eq(q.get_value(si), f(v, 0.0), "default threshold")


def h_simple(env):
    m = model(env, [2])
    x, y = Var(m, env, "x"), Var(m, env, "y", 0.125, 100)
    c, sc, of = env.real("c", -100, 100), env.real("scale", -10, 10), env.real("offset", -100, 100)
    n = NegativeParameter(m, x, name="neg")
    o = OffsetParameter(m, x, offset=c, name="off")
    d = DivisionParameter(m, x, y, name="div")
    k = ConstantParameter(m, c, scale=sc, offset=of, name="const")
    k0 = ConstantParameter(m, c, name="const0")
    sp = ScaledProfileParameter(m, sc, x, name="scaled")
    fp = FunctionParameter(m, m.nodes["in"], lambda parent, ts, si: 2 * x.at(ts.index, si.global_id) + 1, name="func")
    for t, s, si in run(m):
        v, w = x.at(t, s), y.at(t, s)
        env.eq(n.get_value(si), -v, "negative")
        env.eq(o.get_value(si), v + c, "offset")
        env.eq(d.get_value(si) * w, v, "division", 1e-4)
        env.eq(k.get_value(si), c * sc + of, "constant")
        env.eq(k.get_constant_value(), c * sc + of, "constant value")
        env.eq(k0.get_value(si), c, "plain constant")
        env.eq(sp.get_value(si), sc * v, "scaled profile")
        env.eq(fp.get_value(si), 2 * v + 1, "function")


def h_division(env):
    """Numerator and denominator may be swapped, shared or replaced."""
    m = model(env, [2])
    x, y, z = Var(m, env, "x"), Var(m, env, "y", 0.125, 100), Var(m, env, "z", -100, -0.125)
    d = DivisionParameter(m, x, y, name="div")
    e = DivisionParameter(m, y, y, name="same")
    f = DivisionParameter(m, x, y, name="other")
    f.denominator = z
    for t, s, si in run(m):
        env.eq(d.get_value(si) * y.at(t, s), x.at(t, s), "division", 1e-4)
        env.eq(e.get_value(si), 1.0, "a value divided by itself")
        env.eq(f.get_value(si) * z.at(t, s), x.at(t, s), "replaced denominator", 1e-4)


def h_div0(env):
    m = model(env, [2])
    x, y = Var(m, env, "x"), Var(m, env, "y")
    DivisionParameter(m, x, y, name="div")
    m.setup()
    zero = env.Or(y.at(0, 0) == 0, y.at(0, 1) == 0)
    try:
        m.step()
    except ZeroDivisionError:
        env.check(zero, "only a zero denominator is an error")
        return
    env.check(env.Not(zero), "a zero denominator is an error")


def integral(env, v, x, y):
    r, prev = 0.0, 0.0
    for a, b in zip(x, y):
        r = r + b * env.max(env.min(v, a) - prev, 0)
        prev = a
    return r


def h_piecewise(env, n):
    m = model(env, [2])
    v = Var(m, env, "v")
    x = env.increasing("x", n, 0, 50, 0)
    y = env.reals("y", n, -10, 10)
    p = PiecewiseIntegralParameter(m, v, x, y, name="p")
    for t, s, si in run(m, 1):
        env.eq(p.get_value(si), integral(env, v.at(t, s), x, y), "integral")


def h_piecewise_bad(env):
    m = model(env, [2])
    v = Var(m, env, "v")
    x = env.reals("x", 3, -10, 50)
    p = PiecewiseIntegralParameter(m, v, x, [1.0, 2.0, 3.0])
    bad = env.Or(x[1] < x[0], x[2] < x[1])
    try:
        m.setup()
    except ValueError:
        env.check(bad, "only unordered data are rejected")
        return
    env.check(env.Not(bad), "unordered data are rejected")


def interp(env, v, x, y):
    r = None
    for i in reversed(range(len(x) - 1)):
        t = y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])
        r = t if r is None else env.ite(v <= x[i + 1], t, r)
    return r


XS = [0.0, 4.0, 5.0, 20.0]


def h_interp(env, kw, shuffle=False):
    m = model(env, [2])
    v = Var(m, env, "v", -5, 30)
    y = env.reals("y", 4, -100, 100)
    order = [2, 0, 3, 1] if shuffle else range(4)
    p = InterpolatedParameter(m, v, [XS[i] for i in order], [y[i] for i in order], interp_kwargs=dict(kw) if kw else None, name="p")
    m.setup()
    out = env.Or(*[env.Or(v.at(0, s) < 0, v.at(0, s) > 20) for s in range(2)])
    try:
        m.step()
    except ValueError:
        env.check(env.And(out, not kw), "only values outside the data are an error, and only by default")
        return
    if not kw:
        env.check(env.Not(out), "values outside the data are an error by default")
    for si in SI(m):
        w = v.at(0, si.global_id)
        e = interp(env, w, XS, y)
        if kw and "fill_value" in kw and kw["fill_value"] != "extrapolate":
            e = env.ite(w < 0, kw["fill_value"][0], env.ite(w > 20, kw["fill_value"][1], e))
        env.eq(p.get_value(si), e, "interpolated")


def h_interp_nodes(env):
    """Interpolation of the current volume and of the previous flow."""
    m = model(env, [2], flow=flows(env, ["link"], 0, 20))
    st = Storage(m, "st", max_volume=20.0, initial_volume=env.real("v0", 0, 20))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    y = env.reals("y", 4, -100, 100)
    z = env.reals("z", 4, -100, 100)
    p = InterpolatedVolumeParameter(m, st, XS, y, name="p")
    q = InterpolatedFlowParameter(m, m.nodes["link"], XS, z, name="q")
    m.setup()
    for t in range(2):
        vol = [st.volume[s] for s in range(2)]
        m.step()
        for si in SI(m):
            s = si.global_id
            env.eq(p.get_value(si), interp(env, vol[s], XS, y), "volume")
            f = m.solver.log[("link", t - 1, s)] if t else 0.0
            env.eq(q.get_value(si), interp(env, f, XS, z), "previous flow")


def h_quadrature(env):
    m = model(env, [2])
    a, b = Var(m, env, "a", 0, 20), Var(m, env, "b", 0, 20)
    y = env.reals("y", 3, -10, 10)
    x = [0.0, 8.0, 20.0]
    p = InterpolatedQuadratureParameter(m, b, x, y, lower_parameter=a, name="p")
    q = InterpolatedQuadratureParameter(m, b, x, y, name="q")

    def prim(v):
        r = 0.0
        for i in range(2):
            d = env.max(env.min(v, x[i + 1]) - x[i], 0)
            r = r + y[i] * d + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * d * d / 2
        return r
    for t, s, si in run(m, 1):
        lo, hi = a.at(t, s), b.at(t, s)
        env.eq(p.get_value(si), prim(hi) - prim(lo), "integral", 1e-4)
        env.eq(q.get_value(si), prim(hi), "integral from zero", 1e-4)


def poly(env, c, x):
    r = 0.0
    for k in reversed(c):
        r = r * x + k
    return r


def h_poly1(env, src, deg):
    m = model(env, [2], flow=flows(env, ["link"], 0, 20))
    c = env.reals("c", deg + 1, -5, 5)
    kw = {}
    if src == "default":
        pass
    else:
        kw = dict(scale=env.real("scale", -3, 3), offset=env.real("offset", -10, 10))
    st = Storage(m, "st", max_volume=40.0, initial_volume=env.real("v0", 0, 40))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    x = Var(m, env, "x", -10, 10)
    if src == "node":
        kw["node"] = m.nodes["link"]
    elif src == "storage":
        kw["storage_node"] = st
    elif src == "pc":
        kw.update(storage_node=st, use_proportional_volume=True)
    else:
        kw["parameter"] = x
    p = Polynomial1DParameter(m, c, name="p", **kw)
    m.setup()
    for t in range(2):
        vol = [st.volume[s] for s in range(2)]
        m.step()
        for si in SI(m):
            s = si.global_id
            if src == "node":
                v = m.solver.log[("link", t - 1, s)] if t else 0.0
            elif src == "storage":
                v = vol[s]
            elif src == "pc":
                v = vol[s] / 40.0
            else:
                v = x.at(t, s)
            v = v * kw.get("scale", 1.0) + kw.get("offset", 0.0)
            env.eq(p.get_value(si), poly(env, c, v), "polynomial", 1e-4)


def h_poly2(env, pc):
    m = model(env, [2])
    st = Storage(m, "st", max_volume=40.0, initial_volume=env.real("v0", 0, 40))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    x = Var(m, env, "x", -10, 10)
    c = [env.reals("c%d_" % i, 3, -5, 5) for i in range(2)]
    kw = {k: env.real(k, -3, 3) for k in ("storage_scale", "storage_offset", "parameter_scale", "parameter_offset")}
    if pc:
        kw["use_proportional_volume"] = True
    p = Polynomial2DStorageParameter(m, c, st, x, name="p", **kw)
    m.setup()
    vol = [st.volume[s] for s in range(2)]
    m.step()
    for si in SI(m):
        s = si.global_id
        v = (vol[s] / 40.0 if pc else vol[s]) * kw["storage_scale"] + kw["storage_offset"]
        w = x.at(0, s) * kw["parameter_scale"] + kw["parameter_offset"]
        env.eq(p.get_value(si), poly(env, [poly(env, r, w) for r in c], v), "polynomial", 1e-3)


def h_activation(env):
    m = model(env, [2])
    v, out = env.real("v", -10, 10), env.real("out", -50, 50)
    lo, hi = env.real("lo", -50, 50), env.real("hi", -50, 50)
    ub, g = env.real("ub", 0.125, 20), env.real("g", -4, 4)
    b = BinaryStepParameter(m, v, output=out, name="b")
    r = RectifierParameter(m, v, lower_bounds=-1.0, upper_bounds=ub, min_output=lo, max_output=hi, name="r")
    l = LogisticParameter(m, v, max_output=out, growth_rate=g, name="l")
    for t, s, si in run(m, 1):
        env.eq(b.get_value(si), env.ite(v > 0, out, 0.0), "binary step")
        env.eq(r.get_value(si), env.ite(v > 0, lo + (hi - lo) * v / ub, 0.0), "rectifier", 1e-4)
        e = env.fn("exp", -g * v)
        env.assume(e > 0)
        env.eq(l.get_value(si), out / (1 + e), "logistic", 1e-4)
        for p in (b, r, l):
            env.eq(p.get_constant_value(), p.get_value(si), "constant value")


def h_indexed(env):
    m = model(env, [2])
    ix = IndexVar(m, env, "ix", 2)
    a, b = Var(m, env, "a"), Var(m, env, "b")
    c = env.real("c", -100, 100)
    p = IndexedArrayParameter(m, ix, [a, c, b], name="p")
    for t, s, si in run(m):
        i = ix.at(t, s)
        env.eq(p.get_value(si), env.ite(i == 0, a.at(t, s), env.ite(i == 1, c, b.at(t, s))), "indexed value")


def h_wrapper(env):
    m = model(env, [2, 3])
    ps = [Var(m, env, "p%d" % i) for i in range(3)]
    w = ScenarioWrapperParameter(m, m.scenarios["s1"], ps, name="w")
    u = ScenarioWrapperParameter(m, m.scenarios["s0"], ps[:2], name="u")
    for t, s, si in run(m):
        env.eq(w.get_value(si), ps[int(si.indices[1])].at(t, s), "wrapper")
        env.eq(u.get_value(si), ps[int(si.indices[0])].at(t, s), "wrapper of the other scenario")
    env.raises(ValueError, lambda: ScenarioWrapperParameter(m, m.scenarios["s1"], ps[:2]), "wrong number of parameters")


def h_poly_reject(env):
    """A polynomial has one input."""
    for given in (("node", "storage_node"), ("node", "parameter"), ("storage_node", "parameter"), ("node", "storage_node", "parameter")):
        m = model(env, [2])
        st = Storage(m, "st", max_volume=10.0, initial_volume=5.0)
        kw = dict(node=m.nodes["link"], storage_node=st, parameter=Var(m, env, "x"))
        env.raises(ValueError, lambda: Polynomial1DParameter(m, [1.0, 2.0], **{k: kw[k] for k in given}), "several inputs: " + ", ".join(given))


def harnesses(tier):
    big = tier == "thorough"
    out = []
    for cls, neg, bg in ((MaxParameter, 0, 1), (MinParameter, 0, 0), (NegativeMaxParameter, 1, 1), (NegativeMinParameter, 1, 0)):
        out.append(task(h_bounds2, params=dict(cls=cls, neg=neg, big=bg), name=cls.__name__))
    out += [task(h_simple), task(h_division), task(h_div0), task(h_piecewise_bad), task(h_activation), task(h_indexed),
            task(h_wrapper), task(h_interp_nodes), task(h_quadrature)]
    out += sweep(h_piecewise, over=dict(n=[1, 2, 3, 4] + ([5] if big else [])))
    out += sweep(h_interp, over=dict(kw=[None, dict(bounds_error=False, fill_value="extrapolate"),
                                         dict(bounds_error=False, fill_value=[7.0, -3.0])], shuffle=[False, True]))
    out += sweep(h_poly1, over=dict(src=["node", "storage", "pc", "parameter", "default"], deg=[0, 2] + ([3] if big else [])))
    out += sweep(h_poly2, over=dict(pc=[False, True]))
    return out + [task(h_poly_reject)]


from checks import defaults
harnesses = defaults.extend("C18", harnesses)
