"""C19: hydropower target and production calculations are mutually inverse."""
import math
from checks.lib import *
from pywr.parameters import *
from pywr.parameters import load_parameter
from pywr.recorders import HydropowerRecorder, TotalHydroEnergyRecorder, load_recorder
from pywr.recorders import hydropower_calculation
from pywr.parameters._hydropower import inverse_hydropower_calculation

BOUNDS = "2 time-steps of 1 or 7 days, 2 scenarios, target 0..1000, levels and turbine elevations -100..200, efficiency 0.1..1, density 900..1100, " \
         "unit conversions within 1/100..100, any flows and limits"
OUTSIDE = ["zero or negative efficiency, density and unit conversions"]


def consts(env, full):
    """Efficiency, density and unit conversions."""
    if not full:
        return dict(efficiency=0.85, density=1000.0, flow_unit_conversion=4.0, energy_unit_conversion=0.5)
    return dict(efficiency=env.real("eff", 0.1, 1), density=env.real("rho", 900, 1100), flow_unit_conversion=env.real("fc", 0.01, 100),
                energy_unit_conversion=env.real("ec", 0.01, 100))


def k(c):
    return 9.81 * c["density"] * c["efficiency"] * c["flow_unit_conversion"] * c["energy_unit_conversion"]


def h_inverse(env, default):
    """The two calculations on their own."""
    p, q = env.real("p", 0, 1000), env.real("q", 0, 1000)
    w, te = env.real("w", -100, 200), env.real("te", -100, 200)
    eff = env.real("eff", 0.1, 1)
    c = {} if default else {x: y for x, y in consts(env, True).items() if x != "efficiency"}
    a = dict(flow_unit_conversion=1.0, energy_unit_conversion=1e-6, density=1000.0, efficiency=eff)
    a.update(c)
    head = env.max(w - te, 0)
    env.eq(hydropower_calculation(q, w, te, eff, **c), k(a) * head * q, "production")
    if env.fork(w - te >= 1):
        f = inverse_hydropower_calculation(p, w, te, eff, **c)
        env.eq(hydropower_calculation(f, w, te, eff, **c), p, "the flow for a target produces it")
        env.check(f >= 0, "flow is not negative")
        back = inverse_hydropower_calculation(hydropower_calculation(q, w, te, eff, **c), w, te, eff, **c)
        env.eq(back, q, "the flow that produces a production is that flow")
    elif env.fork(w - te <= 0):
        f = inverse_hydropower_calculation(p, w, te, eff, **c)
        env.check(f == float("inf"), "no flow is enough without any head")


def hmodel(env, delta, level, kind):
    m = model(env, [2], end="2015-01-%02d" % (2 * delta), timestep=delta)
    w = Var(m, env, "w", -100, 200) if level else None
    return m, w


def h_round(env, level, delta, full, load):
    """A node that passes the target flow produces the target."""
    m, w = hmodel(env, delta, level, None)
    tg = Var(m, env, "p", 0, 1000)
    te = env.real("te", -100, 200)
    c = consts(env, full)
    node = m.nodes["link"]
    kw = dict(turbine_elevation=te, **c)
    if load:
        d = dict(kw, **({"water_elevation_parameter": "w"} if level else {}))
        p = load_parameter(m, dict(d, type="hydropowertarget", target="p"))
        h = load_recorder(m, dict(d, type="hydropower", node="link"))
        e = load_recorder(m, dict(d, type="totalhydroenergy", node="link"))
    else:
        if level:
            kw["water_elevation_parameter"] = w
        p = HydropowerTargetParameter(m, tg, name="target", **kw)
        h = HydropowerRecorder(m, node, name="h", **kw)
        e = TotalHydroEnergyRecorder(m, node, name="e", **kw)
    m.solver.fn = lambda n, t, s: p.get_value(m.scenarios.combinations[s]) if n is node else None

    def head(t, s):
        return env.max((w.at(t, s) - te) if level else te, 0)
    for t in range(2):
        for s in range(2):
            env.assume(head(t, s) >= 0.125)
    m.setup()
    tot = [0, 0]
    for t in range(2):
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            q = p.get_value(si)
            env.eq(q * k(c) * head(t, s), tg.at(t, s), "the flow that gives the target")
            env.eq(h.data[t, s], tg.at(t, s), "recorded power is the target")
            tot[s] = tot[s] + tg.at(t, s) * delta
            env.eq(e.values()[s], tot[s], "energy so far")


def h_recorded(env, level, delta, full):
    """Power and energy of any flow, with any head."""
    m, w = hmodel(env, delta, level, None)
    m.solver.fn = flows(env, ["link"])
    te = env.real("te", -100, 200)
    c = consts(env, full)
    kw = dict(turbine_elevation=te, **c)
    if level:
        kw["water_elevation_parameter"] = w
    h = HydropowerRecorder(m, m.nodes["link"], name="h", **kw)
    e = TotalHydroEnergyRecorder(m, m.nodes["link"], name="e", **kw)
    m.setup()
    for run in range(2):
        tot = [0, 0]
        for t in range(2):
            m.step()
            for s in range(2):
                q = env.real("flow_link_%d_%d" % (t, s), 0, 1000)
                hd = env.max((w.at(t, s) - te) if level else te, 0)
                pw = k(c) * hd * q
                env.eq(h.data[t, s], pw, "power")
                tot[s] = tot[s] + pw * delta
                env.eq(e.values()[s], tot[s], "energy")
        m.reset()
        if full:
            break


def h_limits(env, lo, hi, level, late):
    """Limits on flow and head."""
    m, w = hmodel(env, 1, level, None)
    tg = Var(m, env, "p", 0, 1000)
    te = env.real("te", -100, 200)
    mh = env.real("mh", 0, 50)
    c = consts(env, False)
    kw = dict(turbine_elevation=te, min_head=mh, **c)
    if level:
        kw["water_elevation_parameter"] = w
    a = Var(m, env, "lo", 0, 50) if lo else None
    b = Var(m, env, "hi", 0, 100) if hi else None
    p = HydropowerTargetParameter(m, tg, name="target", min_flow=None if late else a, max_flow=None if late else b, **kw)
    if late:
        # limits set afterwards, replacing others
        old = Var(m, env, "old", 0, 50)
        if lo:
            p.min_flow = old
            p.min_flow = a
        if hi:
            p.max_flow = old
            p.max_flow = b
        env.check(old not in p.children, "links follow the limits")
    env.check((a is None or a in p.children) and (b is None or b in p.children), "limits are evaluated first")
    m.setup()
    for t in range(2):
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            hd = env.max((w.at(t, s) - te) if level else te, 0)
            v = p.get_value(si)
            if env.fork(hd < mh):
                env.eq(v, 0, "no flow below the minimum head")
                continue
            if env.fork(hd < 1e-3):
                # no flow is enough: only the limits remain
                if hi and env.fork(hd <= 0):
                    env.eq(v, env.max(b.at(t, s), a.at(t, s)) if lo else b.at(t, s), "all the flow allowed without any head")
                continue
            q = env.real("q_%d_%d" % (t, s), 0)
            env.assume(q * (k(c) * hd) == tg.at(t, s))
            e = q
            if hi:
                e = env.min(e, b.at(t, s))
            if lo:
                e = env.max(e, a.at(t, s))
            env.eq(v, e, "limited flow")
            if not lo and not hi:
                env.eq(v * k(c) * hd, tg.at(t, s), "unlimited flow gives the target")
        if lo or hi:
            break


def h_load_limits(env):
    """A document's limits are those of the parameter."""
    m, w = hmodel(env, 1, True, None)
    tg, a, b = Var(m, env, "p", 0, 1000), Var(m, env, "lo", 0, 50), Var(m, env, "hi", 50, 100)
    kw = dict(turbine_elevation=1.0, min_head=2.0, density=900.0, efficiency=0.5, flow_unit_conversion=2.0, energy_unit_conversion=0.125)
    d = dict(kw, type="hydropowertarget", target="p", water_elevation_parameter="w", min_flow="lo", max_flow="hi")
    p = load_parameter(m, d)
    q = HydropowerTargetParameter(m, tg, water_elevation_parameter=w, min_flow=a, max_flow=b, name="q", **kw)
    env.check(all(x in p.children for x in (tg, a, b, w)), "its inputs are evaluated first")
    m.step()
    for si in m.scenarios.combinations:
        env.eq(p.get_value(si), q.get_value(si), "as described")


def harnesses(tier):
    out = sweep(h_inverse, over={"default": [False, True]})
    out += [task(h_round, params=dict(level=a, delta=b, full=f, load=l)) for a, b, f, l in
            [(True, 1, False, False), (False, 1, False, True), (True, 7, False, True), (True, 1, True, False), (False, 7, True, False)]]
    out += [task(h_recorded, params=dict(level=a, delta=b, full=f)) for a, b, f in
            [(True, 1, False), (False, 1, False), (True, 7, False), (True, 1, True), (False, 7, True)]]
    out += [task(h_limits, params=dict(lo=a, hi=b, level=c, late=d)) for a, b, c, d in
            [(True, True, True, False), (True, False, True, False), (False, True, True, True), (True, True, False, True), (False, False, True, False)]]
    return out + [task(h_load_limits)]


from checks import defaults
harnesses = defaults.extend("C19", harnesses)
