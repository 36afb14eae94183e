"""C33: level and area relations, the Keating relation and catchment flows lie on the relation they are defined by."""
import copy
import numpy as np
from checks.lib import *
from checks.c22 import document
from checks.c30 import doc, names
from pywr.parameters import ConstantParameter, InterpolatedVolumeParameter, AggregatedParameter
from pywr.parameters.groundwater import KeatingStreamFlowParameter
from pywr.domains.groundwater import KeatingAquifer
from pywr.domains.river import Catchment, Discharge, Reservoir, River
from pywr.core import Model

BOUNDS = ("relations of up to 4 points, any volume between (and at) their ends; up to 3 stream levels, 2 streams and 2 further outflows; any levels, "
          "transmissivities, coefficient, areas and flows; 2 scenarios, 2-3 time-steps")
OUTSIDE = ["volumes outside the relation", "interpolation other than linear"]


def line(env, x, xs, ys):
    """The piecewise linear relation through the points, within their range."""
    r = ys[-1]
    for i in reversed(range(len(xs) - 1)):
        r = env.ite(x <= xs[i + 1], ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i]), r)
    return r


XS = [0.0, 10.0, 40.0, 100.0]


def relation(env, m, node, kind, what):
    """(what to give the node, its value per time-step, scenario and volume before the step)"""
    if kind == "number":
        x = env.real(what, -100, 100)
        return x, lambda t, s, v: x
    if kind == "none":
        return None, lambda t, s, v: 0.0
    if kind == "constant":
        x = env.real(what, -100, 100)
        return ConstantParameter(m, x, name=what), lambda t, s, v: x
    if kind == "parameter":
        p = Var(m, env, what, -100, 100)
        return p, lambda t, s, v: p.at(t, s)
    ys = [env.real("%s_%d" % (what, i), -100, 100) for i in range(len(XS))]
    p = InterpolatedVolumeParameter(m, node, XS, ys, name=what)
    return p, lambda t, s, v: line(env, v, XS, ys)


def h_relation(env, level, area, n=2, cls=Storage):
    """The level and the area of a storage lie on their relations to the volume at the start of the time-step."""
    m = model(env, [2], flow=flows(env, ["in", "out"], 0, 30))
    v0 = env.real("v0", 0, 100)
    st = cls(m, "st", max_volume=100.0, initial_volume=v0)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    st.level, lv = relation(env, m, st, level, "level")
    st.area, ar = relation(env, m, st, area, "area")
    m.setup()
    for t in range(n):
        v = [st.volume[s] for s in range(2)]
        for s in range(2):
            env.assume(v[s] >= 0)
            env.assume(v[s] <= 100)
        m.step()
        for s, si in enumerate(m.scenarios.combinations):
            env.eq(st.get_level(si), lv(t, s, v[s]), "level")
            env.eq(st.get_area(si), ar(t, s, v[s]), "area")


def h_attributes(env):
    """What is given as the level or area of a storage replaces what was there."""
    m = model(env, [])
    st = Storage(m, "st", max_volume=100.0, initial_volume=10.0, level=env.real("l0", -9, 9), area=Var(m, env, "a0", -9, 9))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    si = None
    for t in steps(m, 3):
        si = m.scenarios.combinations[0]
        if t.index == 0:
            env.eq(st.get_level(si), env.real("l0", -9, 9), "given level")
            env.eq(st.level, env.real("l0", -9, 9), "level attribute")
            env.eq(st.get_area(si), st.area.at(0, 0), "given area")
            p, q = env.real("l1", -9, 9), env.real("a1", -9, 9)
            st.level = None
            env.eq(st.get_level(si), 0.0, "no level")
            st.level, st.area = p, q
        elif t.index == 1:
            env.eq(st.get_level(si), p, "changed level")
            env.eq(st.get_area(si), q, "changed area")
            env.eq(st.area, q, "area attribute")
            st.area = None
            env.eq(st.get_area(si), 0.0, "no area")


# ------------------------------------------------------------------ Keating
def keating(env, level, ls, T, C):
    q = 0.0
    for l, k in zip(ls, T):
        q = q + 2 * k * C * env.max(level - l, 0.0)
    return q


def h_stream(env, n, sym, level="parameter"):
    """The stream flow is 2 T C (level - stream level) summed over the stream levels the groundwater is above."""
    m = model(env, [2], flow=flows(env, ["in", "out"], 0, 30))
    st = Storage(m, "st", max_volume=100.0, initial_volume=env.real("v0", 0, 100))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    st.level, lv = relation(env, m, st, level, "level")
    ls = [env.real("l%d" % i, -50, 50) for i in range(n)]
    T = [env.real("T%d" % i, 0, 10) if sym in ("T", "both") else 1.5 + i for i in range(n)]
    C = env.real("C", 0, 3) if sym in ("C", "both") else 0.75
    k = KeatingStreamFlowParameter(m, st, ls, T, C, name="k") if sym != "default" else KeatingStreamFlowParameter(m, st, ls, T, name="k")
    if sym == "default":
        C = 1.0
    m.setup()
    for t in range(2):
        v = [st.volume[s] for s in range(2)]
        for s in range(2):
            env.assume(v[s] >= 0)
            env.assume(v[s] <= 100)
        m.step()
        for s, si in enumerate(m.scenarios.combinations):
            env.eq(k.get_value(si), keating(env, lv(t, s, v[s]), ls, T, C), "stream flow")


def h_aquifer(env, streams, extra, relation, doc=False, n=2):
    """An aquifer's streams take exactly the Keating flow, its further outflows are free, and its level follows the volume."""
    m = model(env, [2], start="2015-01-01", end="2015-01-04")
    lv = [0.0, 20.0, 50.0]
    sl = [[env.real("l%d_%d" % (i, j), -5, 60) for j in range(2)] for i in range(streams)]
    T = [env.real("T%d" % j, 0, 1) for j in range(2)]
    C = 0.5
    data = dict(name="aq", num_streams=streams, num_additional_inputs=extra, stream_flow_levels=sl, transmissivity=T, coefficient=C, levels=lv)
    if relation == "volumes":
        vols = [1.0, 30.0, 100.0]
        data["volumes"] = vols
    else:
        data["area"], data["storativity"] = 4000.0, [0.25, 0.5]
        vols = [0.0, 20.0, 80.0]
    v0 = env.real("v0", 0, 100)
    env.assume(v0 >= vols[0])
    env.assume(v0 <= vols[-1])
    data["initial_volume"] = v0
    aq = document(m, None, KeatingAquifer, **data) if doc else KeatingAquifer(m, **data)
    env.eq(len(aq.inputs), streams + extra, "number of outflows")
    env.eqs(list(aq._volumes), vols, "volumes of the levels")
    env.eq(aq.max_volume, vols[-1], "maximum volume")
    env.eq(aq.min_volume, vols[0], "minimum volume")
    Input(m, "ai").connect(aq)
    for i in range(streams + extra):
        aq.connect(Output(m, "ao%d" % i), from_slot=i)

    def fn(node, t, s):
        if node is aq:
            return env.real("net_%d_%d" % (t, s), -8, 8)
        return None
    m.solver = FreeFlow(fn)
    m.setup()
    for t in range(n):
        v = [aq.volume[s] for s in range(2)]
        for s in range(2):
            env.assume(v[s] >= vols[0])
            env.assume(v[s] <= vols[-1])
        m.step()
        for s, si in enumerate(m.scenarios.combinations):
            level = line(env, v[s], vols, lv)
            env.eq(aq.get_level(si), level, "level of the aquifer")
            for i, x in enumerate(aq.inputs):
                if i < streams:
                    q = keating(env, level, sl[i], T, C)
                    env.eq(x.get_max_flow(si), q, "flow of stream %d" % i)
                    env.eq(x.get_min_flow(si), q, "flow of stream %d" % i)
                else:
                    env.eq(x.get_min_flow(si), 0.0, "least further outflow")
                    env.eq(x.get_max_flow(si), float("inf"), "largest further outflow")


def h_volumes(env, n, doc=False):
    """The volumes of an aquifer follow from its area and storativities."""
    m = model(env, [])
    lv = [env.real("h0", -10, 10)]
    for i in range(n):
        lv.append(lv[-1] + env.real("d%d" % i, 0.5, 10))
    area = env.real("area", 1000, 5000)
    S = [env.real("S%d" % i, 0.1, 1) for i in range(n)]
    data = dict(name="aq", num_streams=1, num_additional_inputs=0, stream_flow_levels=[[0.0]], transmissivity=[1.0], coefficient=1.0, levels=lv, area=area, storativity=S, initial_volume=0.0)
    aq = document(m, None, KeatingAquifer, **data) if doc else KeatingAquifer(m, **data)
    want = [0.0]
    for i in range(n):
        want.append(want[-1] + area * S[i] * (lv[i + 1] - lv[i]) * 0.001)
    env.eqs(list(aq._volumes), want, "volumes")
    env.eq(aq.max_volume, want[-1], "maximum volume")
    env.eq(aq.min_volume, 0.0, "minimum volume")
    env.eq(aq.area, area, "area")


def h_initial(env, relation):
    """The initial level and the initial volume of an aquifer are two views of one thing."""
    m = model(env, [])
    lv = [0.0, 20.0, 50.0]
    data = dict(volumes=[1.0, 30.0, 100.0]) if relation == "volumes" else dict(area=4000.0, storativity=[0.25, 0.5])
    vols = [1.0, 30.0, 100.0] if relation == "volumes" else [0.0, 20.0, 80.0]
    aq = KeatingAquifer(m, "aq", 1, 1, [[10.0]], [0.5], 1.0, lv, **data)
    Input(m, "ai").connect(aq)
    for i in range(2):
        aq.connect(Output(m, "ao%d" % i), from_slot=i)
    l = env.real("level", 0, 50)
    aq.initial_level = l
    env.eq(aq.initial_volume, line(env, l, lv, vols), "initial volume")
    env.eq(aq.initial_level, l, "initial level")
    m.setup()
    env.eq(aq.volume[0], line(env, l, lv, vols), "volume at the start")
    m.step()
    env.eq(aq.get_level(m.scenarios.combinations[0]), l, "level of the first step")
    env.eq(aq.inputs[0].get_max_flow(m.scenarios.combinations[0]), env.max(l - 10.0, 0.0), "flow of the first step")
    v = env.real("volume", 0, 100)
    env.assume(v >= vols[0])
    env.assume(v <= vols[-1])
    aq.initial_volume = v
    env.eq(aq.initial_level, line(env, v, vols, lv), "level of the initial volume")


def h_reject(env):
    k = 0

    def R(what, **kw):
        nonlocal k
        k += 1
        m = model(env, [])
        d = dict(num_streams=2, num_additional_inputs=1, stream_flow_levels=[[0.0, 1.0], [2.0, 3.0]], transmissivity=[1.0, 2.0], coefficient=1.0,
                 levels=[0.0, 1.0, 2.0], volumes=[0.0, 2.0, 5.0])
        d.update(kw)
        d = {a: b for a, b in d.items() if b is not KeyError}
        env.raises(ValueError, lambda: KeatingAquifer(m, "aq", **d), what)
    R("no streams", num_streams=0, stream_flow_levels=[])
    R("too few streams", stream_flow_levels=[[0.0, 1.0]])
    R("too many streams", stream_flow_levels=[[0.0, 1.0]] * 3)
    R("a stream with one level", stream_flow_levels=[[0.0, 1.0], [2.0]])
    R("one transmissivity", transmissivity=[1.0])
    R("several coefficients", coefficient=[1.0, 2.0])
    R("too few volumes", volumes=[0.0, 2.0])
    R("too many volumes", volumes=[0.0, 2.0, 3.0, 4.0])
    R("neither volumes nor area", volumes=None)
    R("too few storativities", volumes=None, area=10.0, storativity=[0.1])
    R("too many storativities", volumes=None, area=10.0, storativity=[0.1, 0.1, 0.1])
    R("several areas", volumes=None, area=[10.0, 1.0], storativity=[0.1, 0.1])
    m = model(env, [])
    st = Storage(m, "st", max_volume=10, initial_volume=1, level=ConstantParameter(m, 1.0))
    env.raises(ValueError, lambda: KeatingStreamFlowParameter(m, st, [1.0, 2.0], [1.0]), "levels without a transmissivity")


# ------------------------------------------------------------------ catchments
def h_catchment(env, cls, kind, doc=False):
    """A catchment supplies exactly its flow: neither less nor more, also after the flow is changed."""
    m = model(env, [2], nodes=False, end="2015-01-04")

    def given(name):
        if kind == "number":
            x = env.real(name, 0, 100)
            return x, lambda t, s: x
        if kind == "constant":
            x = env.real(name, 0, 100)
            return ConstantParameter(m, x, name=name), lambda t, s: x
        p = Var(m, env, name, 0, 100)
        return p, p.at
    f, at = given("f")
    g, at2 = given("g")
    kw = dict(name="c", flow=f, cost=env.real("cost", -10, 10))
    c = document(m, None, cls, **kw) if doc else cls(m, **kw)
    d = document(m, None, cls, name="d") if doc else cls(m, name="d")
    o = Output(m, "o")
    r = River(m, "r")
    c.connect(r)
    d.connect(r)
    r.connect(o)
    for t in steps(m, 3):
        for s, si in enumerate(m.scenarios.combinations):
            e = at(t.index, s) if t.index < 2 else at2(t.index, s)
            env.eq(c.get_min_flow(si), e, "least flow")
            env.eq(c.get_max_flow(si), e, "largest flow")
            env.eq(c.get_flow(si), e, "flow")
            env.eq(c.get_cost(si), env.real("cost", -10, 10), "cost")
            env.eq(d.get_min_flow(si), 0.0, "no flow given")
            env.eq(d.get_max_flow(si), 0.0, "no flow given")
        if t.index == 1:
            c.flow = g


def h_documents(env, curve):
    """Catchment, Discharge, Reservoir and KeatingAquifer in one document, with their parameters defined later or in place."""
    f = env.real("flow", 0, 100)
    above, below = env.real("above", -10, 10), env.real("below", -10, 10)
    v0 = env.real("v0", 0, 100)
    cc = env.real("cc", 0, 1)
    res = {"name": "res", "type": "Reservoir", "max_volume": 100.0, "initial_volume": v0, "cost": below}
    if curve != "plain":
        res["above_curve_cost"] = above
    if curve == "name":
        res["control_curve"] = "curve"
    elif curve == "number":
        res["control_curve"] = cc
    elif curve == "inline":
        res["control_curve"] = {"type": "constant", "value": cc}
    elif curve == "parameter cost":
        res["cost"] = "curve"
    nodes = [{"name": "cat", "type": "Catchment", "flow": "flow"}, {"name": "dis", "type": "Discharge", "flow": {"type": "constant", "value": f}},
             {"name": "riv", "type": "River"}, res,
             {"name": "aq", "type": "KeatingAquifer", "num_streams": 1, "num_additional_inputs": 1, "stream_flow_levels": [[0.0, 10.0]], "transmissivity": [1.0, 2.0],
              "coefficient": 0.5, "levels": [0.0, 20.0, 50.0], "area": 4000.0, "storativity": [0.25, 0.5], "initial_volume": 20.0},
             {"name": "o", "type": "Output"}, {"name": "p", "type": "Output"}]
    edges = [["cat", "riv"], ["dis", "riv"], ["riv", "res"], ["res", "o"], ["cat", "aq"], ["aq", "o", 0, None], ["aq", "p", 1, None]]
    params = {"flow": {"type": "constant", "value": f}, "curve": {"type": "constant", "value": cc}}
    d = doc(nodes=nodes, edges=edges, parameters=params)
    if curve == "parameter cost":
        env.raises(ValueError, lambda: Model.load(copy.deepcopy(d)), "a cost above the curve and a parameter as the cost")
        return
    m = Model.load(d)
    m.solver = FreeFlow(lambda node, t, s: None)
    m.setup()
    m.step()
    si = m.scenarios.combinations[0]
    N = m.nodes
    for n in ("cat", "dis"):
        env.eq(N[n].get_min_flow(si), f, "flow of " + n)
        env.eq(N[n].get_max_flow(si), f, "flow of " + n)
    at = 1.0 if curve == "none" else cc
    want = below if curve == "plain" else env.ite(v0 / 100.0 >= at, above, below)
    env.eq(N["res"].get_cost(si), want, "cost of the reservoir")
    env.eqs(list(N["aq"]._volumes), [0.0, 20.0, 80.0], "volumes of the aquifer")
    env.eq(N["aq"].get_level(si), 20.0, "level of the aquifer")
    env.eq(N["aq"].inputs[0].get_min_flow(si), 2 * 0.5 * 20.0 + 2 * 2 * 0.5 * 10.0, "flow of the stream")
    env.eq(N["aq"].area, 4000.0, "area of the aquifer")


def harnesses(tier):
    q = tier == "quick"
    kinds = ["none", "number", "constant", "parameter", "relation"]
    out = [task(h_attributes), task(h_reject)]
    out += [task(h_relation, params=dict(level=a, area=b)) for a in kinds for b in kinds if not q or a == "relation" or b == "relation" or a == b]
    out += [task(h_relation, params=dict(level="relation", area="parameter", cls=Reservoir))]
    for n in (1, 2) if q else (1, 2, 3):
        for sym in ("none", "T", "C", "both", "default"):
            out.append(task(h_stream, params=dict(n=n, sym=sym)))
    out += [task(h_stream, params=dict(n=1, sym=s, level="relation")) for s in ("none", "C")]
    out += [task(h_stream, params=dict(n=3, sym="none", level=l)) for l in ("parameter", "constant")]
    for s, e in ((1, 0), (1, 1), (2, 1)) if q else ((1, 0), (1, 1), (2, 1), (2, 2), (3, 0)):
        for r in ("volumes", "area"):
            for d in (False, True):
                out.append(task(h_aquifer, params=dict(streams=s, extra=e, relation=r, doc=d, n=1 if s > 1 else 2)))
    out += sweep(h_volumes, over=dict(n=[1, 2] if q else [1, 2, 3], doc=[False, True]))
    out += sweep(h_initial, over=dict(relation=["volumes", "area"]))
    out += sweep(h_catchment, over=dict(cls=[Catchment, Discharge], kind=["number", "constant", "parameter"]))
    out += [task(h_catchment, params=dict(cls=c, kind=k, doc=True)) for c in (Catchment, Discharge) for k in ("number", "constant")]
    out += sweep(h_documents, over=dict(curve=["plain", "none", "number", "name", "inline", "parameter cost"]))
    return out


from checks import compounds, nodedefaults
harnesses = compounds.more("C33", nodedefaults.extend("C33", harnesses))
