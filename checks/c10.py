"""C10: components are evaluated after everything they depend on."""
import numpy as np
from checks.lib import *
from pywr.core import ModelStructureError
from pywr.parameters import *
from pywr.parameters import load_parameter, _parameters
from pywr.parameters.control_curves import *
from pywr.recorders import Recorder, load_recorder

BOUNDS = "every directed dependency graph on 3 components (4 in the thorough tier) of every kind, 2 time-steps, 2 scenarios; " \
         "for each parameter class that takes parameters, any values of those over 2 time-steps"
OUTSIDE = ["components added to a model after it has been set up take part only from the next explicit setup"]


class Log:
    def __init__(self):
        self.events = []

    def __call__(self, what, c, *a):
        self.events.append((what, c.tag) + a)


def mkinds():
    class P(Parameter):
        def value(self, ts, si):
            self.log("value", self, si.global_id)
            return 0.0

    class I(IndexParameter):
        def index(self, ts, si):
            self.log("value", self, si.global_id)
            return 0

    class R(Recorder):
        pass
    out = {}
    for k, base in dict(P=P, I=I, R=R).items():
        class C(base):
            def setup(self):
                super().setup()
                self.log("setup", self)

            def reset(self):
                super().reset()
                self.log("reset", self)

            def before(self):
                super().before()
                self.log("before", self)

            def after(self):
                super().after()
                self.log("after", self)

            def finish(self):
                super().finish()
                self.log("finish", self)
        out[k] = C
    return out


def acyclic(n, edges):
    """Kahn's algorithm over edges child -> parent."""
    left = set(range(n))
    while left:
        free = [i for i in left if not any((j, i) in edges for j in left)]
        if not free:
            return False
        left -= set(free)
    return True


def audit(env, log, kinds, edges, scen, phase_counts):
    n = len(kinds)
    for what, cnt in phase_counts.items():
        ev = [e for e in log.events if e[0] == what]
        for i, k in enumerate(kinds):
            if what == "value":
                if k == "R":
                    continue
                for s in range(scen):
                    env.check(len([e for e in ev if e[1] == i and e[2] == s]) == cnt, "evaluated once per scenario")
            else:
                env.check(len([e for e in ev if e[1] == i]) == cnt, "%s once" % what)
        # dependency order within the phase
        for (j, i) in edges:
            a = [x for x, e in enumerate(ev) if e[1] == j]
            b = [x for x, e in enumerate(ev) if e[1] == i]
            if a and b:
                env.check(max(a) < min(b), "%s follows its dependencies" % what)


def build(env, kinds, edges, via_parents):
    m = model(env, [2], end="2015-01-02")
    C = mkinds()
    log = Log()
    comps = []
    for i, k in enumerate(kinds):
        c = C[k](m, name="c%d" % i)
        c.tag, c.log = i, log
        comps.append(c)
    for (j, i) in edges:
        if via_parents:
            comps[j].parents.add(comps[i])
        else:
            comps[i].children.add(comps[j])
    return m, comps, log


def h_graph(env, kinds, via_parents, fixed=""):
    n = len(kinds)
    pairs = [(j, i) for j in range(n) for i in range(n) if i != j]
    edges = []
    for k, (j, i) in enumerate(pairs):
        b = fixed[k] == "1" if k < len(fixed) else env.bool("e%d%d" % (j, i))
        if b:
            edges.append((j, i))
    m, comps, log = build(env, kinds, edges, via_parents)
    if not acyclic(n, set(edges)):
        env.raises(ModelStructureError, m.setup, "a circular dependency is rejected")
        return
    m.setup()
    audit(env, log, kinds, edges, 2, dict(setup=1, reset=1, before=0, value=0, after=0))
    env.check([e[0] for e in log.events] == ["setup"] * n + ["reset"] * n, "set up before reset")
    for t in range(2):
        log.events = []
        m.step()
        audit(env, log, kinds, edges, 2, dict(setup=0, reset=0, before=1, value=1, after=1, finish=0))
        ph = [e[0] for e in log.events]
        env.check(ph == sorted(ph, key=["before", "value", "after"].index), "phases in order")
    log.events = []
    m.reset()
    audit(env, log, kinds, edges, 2, dict(setup=0, reset=1))
    log.events = []
    m.run()
    audit(env, log, kinds, edges, 2, dict(setup=0, reset=1, finish=1))


def h_self(env, kind):
    m, comps, log = build(env, kind + "P", [], False)
    if env.bool("self"):
        comps[0].children.add(comps[0])
        env.raises(ModelStructureError, m.setup, "a component that depends on itself is rejected")
    else:
        m.setup()


def h_removed(env, kinds):
    """Links that were removed or added later count from the next setup."""
    n = len(kinds)
    pairs = [(0, 1), (1, 2), (2, 0)]
    m, comps, log = build(env, kinds, [(0, 1), (1, 2)], False)
    m.setup()
    edges = [(0, 1), (1, 2)]
    if env.bool("drop01"):
        comps[1].children.remove(comps[0])
        edges.remove((0, 1))
    if env.bool("drop12"):
        comps[1].parents.remove(comps[2])
        edges.remove((1, 2))
    if env.bool("clear"):
        comps[2].children.clear()
        edges = [e for e in edges if e[1] != 2]
    if env.bool("add20"):
        comps[2].parents.add(comps[0])
        edges.append((2, 0))
    env.check(set(comps[1].children) == {comps[j] for j, i in edges if i == 1}, "children")
    env.check(set(comps[1].parents) == {comps[i] for j, i in edges if j == 1}, "parents")
    env.check(len(comps[2].children) == len([e for e in edges if e[1] == 2]), "number of children")
    if not acyclic(n, set(edges)):
        env.raises(ModelStructureError, m.setup, "a circular dependency is rejected")
        return
    log.events = []
    m.setup()
    audit(env, log, kinds, edges, 2, dict(setup=1, reset=1))
    log.events = []
    m.step()
    audit(env, log, kinds, edges, 2, dict(before=1, value=1, after=1))


# --- every parameter class that takes other parameters uses their current values -----------------------------------
def flat(x):
    return list(x)


def st(m, **kw):
    s = Storage(m, "st", initial_volume=4.0, **dict(dict(max_volume=8.0), **kw))
    m.nodes["in"].connect(s)
    s.connect(m.nodes["out"])
    return s


AGG = ["sum", "min", "max", "mean", "product", "median"]
CASES = {
    "constantscale": (1, lambda m, v, i: ScaledProfileParameter(m, 2.0, v[0], name="p")),
    "aggregated": (3, lambda m, v, i: AggregatedParameter(m, list(v), agg_func="sum", name="p")),
    "aggregatedindex": (2, lambda m, v, i: AggregatedIndexParameter(m, i, agg_func="max", name="p")),
    "division": (2, lambda m, v, i: DivisionParameter(m, v[0], v[1], name="p")),
    "negative": (1, lambda m, v, i: NegativeParameter(m, v[0], name="p")),
    "max": (1, lambda m, v, i: MaxParameter(m, v[0], threshold=1.0, name="p")),
    "min": (1, lambda m, v, i: MinParameter(m, v[0], threshold=1.0, name="p")),
    "negativemax": (1, lambda m, v, i: NegativeMaxParameter(m, v[0], threshold=1.0, name="p")),
    "negativemin": (1, lambda m, v, i: NegativeMinParameter(m, v[0], threshold=1.0, name="p")),
    "offset": (1, lambda m, v, i: OffsetParameter(m, v[0], 3.0, name="p")),
    "indexedarray": (2, lambda m, v, i: IndexedArrayParameter(m, i[0], [v[0], v[1], 5.0], name="p")),
    "controlcurve": (4, lambda m, v, i: ControlCurveParameter(m, st(m), [v[0], v[1]], parameters=[v[2], v[3], v[0]], name="p")),
    "controlcurveindex": (2, lambda m, v, i: ControlCurveIndexParameter(m, st(m), [v[0], v[1]], name="p")),
    "polynomial1d": (1, lambda m, v, i: Polynomial1DParameter(m, [1.0, 2.0], parameter=v[0], name="p")),
    "polynomial2d": (1, lambda m, v, i: Polynomial2DStorageParameter(m, [[1.0, 2.0], [3.0, 4.0]], st(m), v[0], name="p")),
    "threshold": (2, lambda m, v, i: ParameterThresholdParameter(m, v[0], v[1], values=[1.0, 2.0], name="p")),
    "storagethreshold": (1, lambda m, v, i: StorageThresholdParameter(m, st(m), v[0], values=[1.0, 2.0], name="p")),
    "nodethreshold": (1, lambda m, v, i: NodeThresholdParameter(m, m.nodes["link"], v[0], values=[1.0, 2.0], name="p")),
    "multiplethreshold": (3, lambda m, v, i: _mt(m, v)),
    "piecewiseintegral": (1, lambda m, v, i: PiecewiseIntegralParameter(m, v[0], [1.0, 2.0, 4.0], [1.0, 3.0, 2.0], name="p")),
    "interpolated": (1, lambda m, v, i: InterpolatedParameter(m, v[0], [-200.0, 0.0, 200.0], [0.0, 5.0, 1.0], name="p")),
    "quadrature": (2, lambda m, v, i: InterpolatedQuadratureParameter(m, v[0], [-200.0, 0.0, 200.0], [0.0, 5.0, 1.0], lower_parameter=v[1], name="p")),
    "hydropower": (2, lambda m, v, i: HydropowerTargetParameter(m, v[0], water_elevation_parameter=v[1], name="p", turbine_elevation=0.0)),
    "hydropower_limits": (4, lambda m, v, i: HydropowerTargetParameter(m, v[0], water_elevation_parameter=v[1], max_flow=v[2], min_flow=v[3], name="p")),
    "scenariowrapper": (2, lambda m, v, i: ScenarioWrapperParameter(m, m.scenarios["s0"], [v[0], v[1]], name="p")),
}


def _mt(m, v):
    from pywr.parameters._thresholds import MultipleThresholdParameterIndexParameter
    return MultipleThresholdParameterIndexParameter(m, v[0], [v[1], v[2]], name="p")


def h_class(env, what):
    """The values used in every step are those obtained when the inputs are made dependencies explicitly."""
    n, mk = CASES[what]
    lo, hi = (1, 50) if what.startswith("hydro") or what == "division" else (-20, 20)
    ps, ms = [], []
    for linked in (False, True):
        m = model(env, [2], end="2015-01-02")
        # components without links between them are evaluated last created first, so the inputs come first
        v = [Var(m, env, "x%d" % k, lo, hi) for k in range(n)]
        i = [IndexVar(m, env, "i%d" % k, 2) for k in range(n)]
        p = mk(m, v, i)
        if linked:
            for c in v + i:
                p.children.add(c)
        m.setup()
        ps.append(p)
        ms.append(m)
    for t in range(2):
        for m in ms:
            m.step()
        for a, b in zip(ms[0].scenarios.combinations, ms[1].scenarios.combinations):
            if isinstance(ps[0], IndexParameter):
                env.eq(ps[0].get_index(a), ps[1].get_index(b), "index from current inputs")
            env.eq(ps[0].get_value(a), ps[1].get_value(b), "value from current inputs")


def _agg(m, p, x, y):
    p.remove(x)
    p.add(y)


def _set(attr):
    def f(m, p, x, y):
        setattr(p, attr, y)
    return f


def _rec(m):
    from pywr.recorders import NumpyArrayNodeRecorder
    return NumpyArrayNodeRecorder(m, m.nodes["out"])


def _hyd(m, x, cls):
    import pywr.recorders as R
    return getattr(R, cls)(m, m.nodes["out"], water_elevation_parameter=x, name="p")


def _curves(m, p, x, y):
    p.control_curves = [0.75, y]


SWAPS = {
    "target": (lambda m, x, o: HydropowerTargetParameter(m, x, water_elevation_parameter=o, name="p"), _set("target")),
    "elevation": (lambda m, x, o: HydropowerTargetParameter(m, o, water_elevation_parameter=x, name="p"), _set("water_elevation_parameter")),
    "max_flow": (lambda m, x, o: HydropowerTargetParameter(m, o, water_elevation_parameter=o, max_flow=x, name="p"), _set("max_flow")),
    "min_flow": (lambda m, x, o: HydropowerTargetParameter(m, o, water_elevation_parameter=o, min_flow=x, name="p"), _set("min_flow")),
    "recorder": (lambda m, x, o: _hyd(m, x, "HydropowerRecorder"), _set("water_elevation_parameter")),
    "energy": (lambda m, x, o: _hyd(m, x, "TotalHydroEnergyRecorder"), _set("water_elevation_parameter")),
    "numerator": (lambda m, x, o: DivisionParameter(m, x, o, name="p"), _set("numerator")),
    "denominator": (lambda m, x, o: DivisionParameter(m, o, x, name="p"), _set("denominator")),
    "threshold": (lambda m, x, o: ParameterThresholdParameter(m, o, x, values=[1.0, 2.0], name="p"), _set("threshold")),
    "curves": (lambda m, x, o: ControlCurveParameter(m, st(m), [0.75, x], name="p"), _curves),
    "curveindex": (lambda m, x, o: ControlCurveIndexParameter(m, st(m), [0.75, x], name="p"), _curves),
    "aggregated": (lambda m, x, o: AggregatedParameter(m, [x, o], agg_func="sum", name="p"), _agg),
    "aggregatedindex": (lambda m, x, o: AggregatedIndexParameter(m, [x, o], agg_func="sum", name="p"), _agg),
}


def h_swapped(env, what):
    """A parameter that a component no longer uses may depend on it, and its replacement is evaluated before it."""
    mk, swap = SWAPS[what]
    m, comps, log = build(env, "IIII" if what == "aggregatedindex" else "PPPP", [], False)
    x, y, o, extra = comps
    p = mk(m, x, o)
    swap(m, p, x, y)
    env.check(x not in p.children, "the replaced parameter is not used any more")
    env.check(y in p.children and p in y.parents, "its replacement is")
    if what not in ("recorder", "energy", "curves", "curveindex"):
        env.check(o in p.children, "the other input still is")
    x.children.add(p)
    m.setup()
    if what not in ("numerator", "denominator"):
        log.events = []
        m.step()
        seen = [e[1] for e in log.events if e[0] == "value"]
        env.check(seen.index(1) < seen.index(0), "the replacement is evaluated before what now depends on the component")
    extra.children.add(x)
    y.children.add(extra)
    env.raises(ModelStructureError, m.setup, "a circular dependency is rejected")


def h_once(env):
    """A parameter shared by several components and nodes is still evaluated once."""
    m = model(env, [2], end="2015-01-02")
    C = mkinds()
    log = Log()
    x = C["P"](m, name="x")
    x.tag, x.log = 0, log
    a = AggregatedParameter(m, [x, x], agg_func="sum", name="a")
    AggregatedParameter(m, [a, x], agg_func="max", name="b")
    m.nodes["in"].max_flow = x
    m.nodes["in"].cost = x
    m.nodes["out"].max_flow = a
    m.nodes["link"].min_flow = x
    m.setup()
    if env.bool("again"):
        m.setup()
    for t in range(2):
        log.events = []
        m.step()
        audit(env, log, "P", [], 2, dict(value=1, before=1, after=1))


def harnesses(tier):
    B = [False, True]
    T = tier == "thorough"
    out = sweep(h_graph, over=dict(kinds=["PPP", "PIR", "RRP", "IPI"], via_parents=B))
    if T:
        for f in range(64):
            for kinds in ("PPPP", "PRIP"):
                out.append(task(h_graph, params=dict(kinds=kinds, via_parents=False, fixed=format(f, "06b"))))
    out += sweep(h_self, over=dict(kind=["P", "I", "R"])) + sweep(h_removed, over=dict(kinds=["PPP", "RPI"]))
    out += sweep(h_class, over=dict(what=list(CASES))) + [task(h_once)]
    out += sweep(h_swapped, over=dict(what=list(SWAPS)))
    return out
