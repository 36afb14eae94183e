"""C27: constraints, feasibility, objectives and the optimisation wrappers."""
import math
import numpy as np
import pandas
import platypus
from checks.lib import *
from checks.c25 import total
from pywr.nodes import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.recorders import load_recorder
from pywr.optimisation import clear_global_model_cache
from pywr.optimisation.platypus import PlatypusWrapper, PywrRandomGenerator
from pywr.optimisation.pygmo import PygmoWrapper

BOUNDS = ("up to 4 recorders, 1 to 3 scenarios and 2 time-steps; any recorded values and any constraint bounds (fixed bounds in the platypus "
          "problem, which turns them into text); up to 3 variable parameters with up to 3 real and 2 integer variables each and any solution "
          "vector within [-100, 100]; every order of setting bounds; up to 3 evaluations after each other")
OUTSIDE = ["missing (nan) recorded values", "the optimisation algorithms themselves", "evaluation in parallel processes",
           "pygmo's own handling of the values (it is not installed here)"]


class Given(Recorder):
    """A recorder whose values are arbitrary."""

    def __init__(self, model, env, vname, **kw):
        super().__init__(model, name=vname, **kw)
        self.env, self.vname = env, vname

    def setup(self):
        pass

    def after(self):
        pass

    def values(self):
        return np.array([self.at(s) for s in range(nscen(self.model))])

    def at(self, s):
        return self.env.real("%s_%d" % (self.vname, s), -100, 100)


AGG = {"mean": lambda env, v: total(v) / len(v), "sum": lambda env, v: total(v), "min": lambda env, v: env.min(*v) if len(v) > 1 else v[0],
       "max": lambda env, v: env.max(*v) if len(v) > 1 else v[0]}


def inside(env, x, lo, hi):
    """Is the value within the bounds?"""
    c = []
    if lo is not None:
        c.append(lo <= x)
    if hi is not None:
        c.append(x <= hi)
    return env.And(*c) if len(c) > 1 else c[0]


def bound(env, kind, name):
    """-> (lower, upper) of an arbitrary constraint"""
    lo = hi = None
    if kind in ("lower", "both"):
        lo = env.real("lo_" + name, -200, 200)
    if kind in ("upper", "both"):
        hi = env.real("hi_" + name, -200, 200)
    if kind == "equal":
        lo = hi = env.real("eq_" + name, -200, 200)
    if kind == "both":
        env.assume(lo <= hi)
    return lo, hi


def h_bounds(env, kind, agg="mean", n=2, order="new"):
    """One constraint: its class and when it is violated."""
    m = model(env, (n,), end="2015-01-01")
    lo, hi = bound(env, kind, "r")
    m.setup()
    if order == "new":
        r = Given(m, env, "r", agg_func=agg, constraint_lower_bounds=lo, constraint_upper_bounds=hi)
    else:
        r = Given(m, env, "r", agg_func=agg)
        env.check(not r.is_constraint, "no constraint without bounds")
        env.raises(ValueError, r.is_constraint_violated, "no bounds")
        if order == "again":
            # ... other bounds before, taken back
            r.constraint_lower_bounds = -300.0
            r.constraint_upper_bounds = 300.0
            r.constraint_lower_bounds = r.constraint_upper_bounds = None
            env.check(not r.is_constraint, "no constraint after its bounds were removed")
        if order == "upper":
            r.constraint_upper_bounds = hi
            r.constraint_lower_bounds = lo
        else:
            r.constraint_lower_bounds = lo
            r.constraint_upper_bounds = hi
    for got, want, what in ((r.constraint_lower_bounds, lo, "lower"), (r.constraint_upper_bounds, hi, "upper")):
        if want is None:
            env.check(got is None, "%s bound is not set" % what)
        else:
            env.check(got is not None, "%s bound is set" % what)
            env.eq(got, want, "%s bound" % what)
    env.check(r.is_constraint, "is a constraint")
    env.check(bool(r.is_lower_bounded_constraint) == (kind == "lower"), "lower bounded")
    env.check(bool(r.is_upper_bounded_constraint) == (kind == "upper"), "upper bounded")
    equal = kind == "equal" or kind == "both" and lo == hi
    env.check(env.Iff(r.is_equality_constraint, equal), "equality")
    env.check(env.Iff(r.is_double_bounded_constraint, kind == "both" and lo != hi), "double bounded")
    v = AGG[agg](env, [r.at(s) for s in range(n)])
    ok = inside(env, v, lo, hi)
    env.check(env.Iff(r.is_constraint_violated(), env.Not(ok)), "violated exactly when outside of the bounds")
    env.check(env.Iff(m.is_feasible(), ok), "feasible exactly when within the bounds")


def h_inverted(env, first):
    """Bounds the wrong way round are refused and change nothing."""
    m = model(env, (), end="2015-01-01")
    lo, hi = env.real("lo", -200, 200), env.real("hi", -200, 200)
    env.assume(lo > hi)
    env.raises(ValueError, lambda: Given(m, env, "q", constraint_lower_bounds=lo, constraint_upper_bounds=hi), "inverted bounds")
    r = Given(m, env, "r")
    if first == "lower":
        r.constraint_lower_bounds = lo
        env.raises(ValueError, lambda: setattr(r, "constraint_upper_bounds", hi), "upper below lower")
        env.eq(r.constraint_lower_bounds, lo, "lower bound kept")
        env.check(r.constraint_upper_bounds is None, "upper bound not set")
    else:
        r.constraint_upper_bounds = hi
        env.raises(ValueError, lambda: setattr(r, "constraint_lower_bounds", lo), "lower above upper")
        env.eq(r.constraint_upper_bounds, hi, "upper bound kept")
        env.check(r.constraint_lower_bounds is None, "lower bound not set")


def h_feasible(env, kinds, n=1):
    """The model is feasible exactly when no constraint is violated."""
    m = model(env, (n,) if n > 1 else (), end="2015-01-01")
    rs, ok = [], []
    for k, kind in enumerate(kinds):
        name = "r%d" % k
        lo, hi = bound(env, kind, name) if kind else (None, None)
        r = Given(m, env, name, agg_func="sum", constraint_lower_bounds=lo, constraint_upper_bounds=hi, is_objective="min" if k == 1 else None)
        v = total([r.at(s) for s in range(n)])
        if kind:
            rs.append(r)
            ok.append(inside(env, v, lo, hi))
    m.setup()
    env.check([c.name for c in m.constraints] == [r.name for r in rs], "the constraints of the model")
    env.check([c.name for c in m.objectives] == (["r1"] if len(kinds) > 1 else []), "the objectives of the model")
    want = env.And(*ok) if len(ok) > 1 else ok[0] if ok else True
    env.check(env.Iff(m.is_feasible(), want), "feasible exactly when no constraint is violated")


DIRECTIONS = {"maximise": "maximise", "maximize": "maximise", "max": "maximise", "minimise": "minimise", "minimize": "minimise",
              "min": "minimise"}

DOCS = {
    "NumpyArrayNode": {"node": "in"},
    "NumpyArrayNodeDeficit": {"node": "in"},
    "NumpyArrayNodeSuppliedRatio": {"node": "in"},
    "NumpyArrayNodeCurtailmentRatio": {"node": "in"},
    "NumpyArrayNodeCost": {"node": "in"},
    "FlowDurationCurve": {"node": "in", "percentiles": [0.0, 50.0]},
    "SeasonalFlowDurationCurve": {"node": "in", "percentiles": [0.0, 50.0], "months": [1]},
    "FlowDurationCurveDeviation": {"node": "in", "percentiles": [0.0, 50.0], "lower_target_fdc": [1.0, 2.0], "upper_target_fdc": [1.0, 2.0]},
    "NumpyArrayStorage": {"node": "st"},
    "NumpyArrayNormalisedStorage": {"node": "st", "parameter": "p"},
    "StorageDurationCurve": {"node": "st", "percentiles": [0.0, 50.0]},
    "NumpyArrayLevel": {"node": "st"},
    "NumpyArrayArea": {"node": "st"},
    "NumpyArrayParameter": {"parameter": "p"},
    "NumpyArrayDailyProfileParameter": {"parameter": "p"},
    "NumpyArrayIndexParameter": {"parameter": "i"},
    "RollingWindowParameter": {"parameter": "p", "window": 2},
    "RollingMeanFlowNode": {"node": "in", "timesteps": 2},
    "TotalDeficitNode": {"node": "in"},
    "TotalFlowNode": {"node": "in"},
    "MeanFlowNode": {"node": "in"},
    "DeficitFrequencyNode": {"node": "in"},
    "MinimumVolumeStorage": {"node": "st"},
    "MinimumThresholdVolumeStorage": {"node": "st", "threshold": 1.0},
    "TimestepCountIndexParameter": {"parameter": "i", "threshold": 1},
    "AnnualCountIndexThreshold": {"parameters": ["i"], "threshold": 1},
    "AnnualTotalFlow": {"nodes": ["in"]},
    "AnnualCountIndexParameter": {"parameter": "i", "threshold": 1},
    "TotalParameter": {"parameter": "p"},
    "MeanParameter": {"parameter": "p"},
    "Event": {"threshold": "p"},
    "EventDuration": {"event_recorder": "events"},
    "EventStatistic": {"event_recorder": "events"},
    "Aggregated": {"recorders": ["events"]},
    "Hydropower": {"node": "in"},
    "TotalHydroEnergy": {"node": "in"},
    "Assertion": None,
}


def h_loaded(env, kind):
    """A recorder from a document keeps the options of its objective and constraint."""
    m = model(env, (2,), end="2015-01-02")
    st = Storage(m, "st", max_volume=10.0, initial_volume=5.0)
    ConstantParameter(m, 1.0, name="p")
    IndexVar(m, env, "i", 1)
    from pywr.recorders.events import EventRecorder
    EventRecorder(m, m.parameters["p"], name="events")
    d = dict(DOCS[kind])
    for k, v in d.items():
        if isinstance(v, list):
            d[k] = list(v)
    lo, hi, eps = env.real("lo", -200, 0), env.real("hi", 1, 200), env.real("eps", 0, 10)
    d.update({"type": kind, "name": "loaded", "is_objective": "maximise", "epsilon": eps, "constraint_lower_bounds": lo,
              "constraint_upper_bounds": hi, "agg_func": "max", "ignore_nan": True})
    r = load_recorder(m, d)
    env.check(m.recorders["loaded"] is r, "found under its name")
    env.check(r.is_objective == "maximise", "direction")
    env.eq(r.epsilon, eps, "epsilon")
    env.eq(r.constraint_lower_bounds, lo, "lower bound")
    env.eq(r.constraint_upper_bounds, hi, "upper bound")
    env.check(bool(r.ignore_nan), "missing values ignored")
    env.check(r.agg_func == "max", "aggregation")


def h_directions(env):
    m = model(env, (), end="2015-01-01")
    for k, (w, want) in enumerate(sorted(DIRECTIONS.items())):
        r = Given(m, env, "r%d" % k, is_objective=w)
        env.check(r.is_objective == want, "%s: direction" % w)
        r.is_objective = None
        env.check(r.is_objective is None, "%s: direction removed" % w)
    env.check(not list(m.objectives), "no objectives left")


# ------------------------------------------------------------------------------------------ wrappers

class Knob(Parameter):
    """A parameter with real and integer variables; its value is a weighted sum of them."""

    def __init__(self, model, name, doubles, integers, variable=True, lower=-50.0, upper=50.0):
        super().__init__(model, name=name, is_variable=variable)
        self.double_size, self.integer_size = doubles, integers
        self.d = np.zeros(doubles)
        self.i = [0] * integers
        self.sets = []
        self.lower, self.upper = lower, upper

    def value(self, ts, si):
        return total([(k + 1) * x for k, x in enumerate(self.d)]) + total([100 * (k + 1) * x for k, x in enumerate(self.i)])

    def set_double_variables(self, v):
        self.sets.append("d")
        self.d = np.array(v)

    def get_double_variables(self):
        return np.array(self.d)

    def set_integer_variables(self, v):
        self.sets.append("i")
        self.i = [x for x in v]

    def get_integer_variables(self):
        return np.array(self.i)

    def get_double_lower_bounds(self):
        return np.array([self.lower - k for k in range(self.double_size)])

    def get_double_upper_bounds(self):
        return np.array([self.upper + k for k in range(self.double_size)])

    def get_integer_lower_bounds(self):
        return np.array([-9 - k for k in range(self.integer_size)])

    def get_integer_upper_bounds(self):
        return np.array([9 + k for k in range(self.integer_size)])


class Last(Recorder):
    """The last value of a parameter, scaled."""

    def __init__(self, model, param, factor, **kw):
        super().__init__(model, **kw)
        self.p, self.factor = param, factor
        self.children.add(param)

    def setup(self):
        pass

    def after(self):
        self.v = [self.factor * self.p.get_value(si) for si in self.model.scenarios.combinations]

    def values(self):
        return np.array(self.v)


#     parameters: (real, integer) variables, or None: not a variable        objectives      constraints (kind, bound(s)), per parameter
CASES = {
    "one": ([(1, 0)], ["min"], []),
    "max": ([(1, 0)], ["maximise"], [("lower", 1.0, None)]),
    "two": ([(2, 0), (1, 0)], ["min", "max"], [("upper", None, 3.0), ("both", -1.0, 4.0)]),
    "fixed": ([(1, 0), None, (2, 0)], ["max", None, "min"], [("both", -2.0, 2.0), None, ("equal", 3.0, 3.0)]),
    "whole": ([(0, 2), (1, 0)], ["min", "max"], [("equal", 200.0, 200.0), ("lower", -1.0, None)]),
    "mixed": ([(1, 1), (0, 1), (2, 0)], ["max", "min", None], [("lower", 2.0, None), None, ("equal", 1.0, 1.0)]),
    "order": ([(1, 0), (1, 0), (1, 0)], ["min", "max", "min"], [("both", -2.0, 2.0), ("equal", 3.0, 3.0), ("upper", None, 5.0)]),
    "zero": ([(1, 0), (1, 0)], ["min", None], [("equal", 0.0, 0.0), ("lower", 0.0, None)]),
}


def build(env, case, n=1):
    ps, objs, cons = CASES[case]
    m = model(env, (n,) if n > 1 else (), end="2015-01-02")
    knobs = []
    for k, p in enumerate(ps):
        q = Knob(m, "k%d" % k, *(p or (1, 0)), variable=p is not None, lower=-50.0 - k, upper=50.0 + k)
        knobs.append(q)
    for k, p in enumerate(knobs):
        c = cons[k] if k < len(cons) else None
        kw = {}
        if c:
            kw = dict(constraint_lower_bounds=c[1], constraint_upper_bounds=c[2])
        Last(m, p, 1.0, name="c%d" % k, **kw)
        Last(m, p, 2.0, name="o%d" % k, is_objective=objs[k])
    return m


def wrapper(env, kind, case, n=1):
    base = {"platypus": PlatypusWrapper, "pygmo": PygmoWrapper}[kind]

    class W(base):
        def make_model(self):
            self.made = getattr(self, "made", 0) + 1
            return build(env, case, n)
    clear_global_model_cache()
    return W({}, uid="u%s" % case)


def variables(case):
    """(parameter, "d" or "i", position) of each place in the solution vector"""
    out = []
    for k, p in enumerate(CASES[case][0]):
        if p:
            out += [(k, "d", j) for j in range(p[0])] + [(k, "i", j) for j in range(p[1])]
    return out


def rounding(env, x, got, label):
    """The whole number nearest to x (either of two when half-way)."""
    env.check(env.And(got - x <= 0.5, x - got <= 0.5), label)


def applied(env, m, case, x, label):
    """The parameters hold the solution -> their values by the definition above"""
    val = {k: 0.0 for k in range(len(CASES[case][0]))}
    for (k, kind, j), v in zip(variables(case), x):
        p = m.parameters["k%d" % k]
        if kind == "d":
            env.eq(p.d[j], v, "%s: variable %d of k%d" % (label, j, k))
            val[k] = val[k] + (j + 1) * v
        else:
            rounding(env, v, p.i[j], "%s: whole variable %d of k%d" % (label, j, k))
            val[k] = val[k] + 100 * (j + 1) * p.i[j]
    for k, p in enumerate(CASES[case][0]):
        q = m.parameters["k%d" % k]
        env.check(len(q.d) == (p or (1, 0))[0] and len(q.i) == (p or (1, 0))[1], "%s: number of variables of k%d" % (label, k))
        if p is None:
            env.check(not q.sets, "%s: k%d is not a variable" % (label, k))
    return val


def wanted(case, val):
    objs = []
    for k, o in enumerate(CASES[case][1]):
        if o:
            objs.append((-2.0 if o.startswith("max") else 2.0) * val[k])
    cons = [(val[k],) + c for k, c in enumerate(CASES[case][2]) if c]
    return objs, cons


def vector(env, case, r, free=None):
    x = []
    for j, (k, kind, _) in enumerate(variables(case)):
        if free is not None and j not in free:
            x.append(float(j + r))
        elif kind == "d":
            x.append(env.real("x%d_%d" % (r, j), -100, 100))
        else:
            x.append(env.real("x%d_%d" % (r, j), -3, 3))
    return x


def h_platypus(env, case, n=1, rounds=1):
    """Objectives, constraints and variables of the platypus problem."""
    w = wrapper(env, "platypus", case, n)
    pr = w.problem
    vs = variables(case)
    env.check(pr.nvars == len(vs), "number of variables")
    env.check(len(pr.types) == len(vs), "number of types")
    for j, (k, kind, i) in enumerate(vs):
        lo, hi = ((-50 - k - i), (50 + k + i)) if kind == "d" else (-9 - i, 9 + i)
        env.check(pr.types[j].min_value == lo and pr.types[j].max_value == hi, "bounds of variable %d" % j)
    env.check(all(d == platypus.Problem.MINIMIZE or d == platypus.core.Direction.MINIMIZE for d in pr.directions), "the objectives are minimised")
    for r in range(rounds):
        x = vector(env, case, r)
        s = platypus.Solution(pr)
        s.variables[:] = x
        pr(s)
        m = w.model
        val = applied(env, m, case, x, "round %d" % r)
        objs, cons = wanted(case, val)
        env.check(len(s.objectives) == len(objs), "number of objectives")
        for k, o in enumerate(objs):
            env.eq(s.objectives[k], o, "round %d: objective %d" % (r, k))
        ok = True
        for v, kind, lo, hi in cons:
            ok = env.And(ok, inside(env, v, lo, hi))
        env.check(env.Iff(s.feasible, ok), "round %d: feasible for the optimiser exactly when within the bounds" % r)
        env.check(env.Iff(m.is_feasible(), ok), "round %d: the model is feasible" % r)
    env.check(w.made == 1, "one model")
    w2 = w.__class__({}, uid="other")
    env.check(w2.model is not w.model, "another wrapper has its own model")
    clear_global_model_cache()


def h_pygmo(env, case, n=1, rounds=1):
    """Fitness vector, bounds and sizes handed to pygmo."""
    w = wrapper(env, "pygmo", case, n)
    vs = variables(case)
    lower, upper = w.get_bounds()
    env.check(len(lower) == len(vs) and len(upper) == len(vs), "number of bounds")
    for j, (k, kind, i) in enumerate(vs):
        lo, hi = ((-50 - k - i), (50 + k + i)) if kind == "d" else (-9 - i, 9 + i)
        env.check(env.And(lower[j] == lo, upper[j] == hi), "bounds of variable %d" % j)
    for r in range(rounds):
        x = vector(env, case, r)
        f = w.fitness(np.array(x))
        m = w.model
        val = applied(env, m, case, x, "round %d" % r)
        objs, cons = wanted(case, val)
        eqs = [c for c in cons if c[1] == "equal"]
        ineqs = [c for c in cons if c[1] != "equal"]
        nic = sum(2 if c[1] == "both" else 1 for c in ineqs)
        env.check(w.get_nobj() == len(objs), "number of objectives")
        env.check(w.get_nec() == len(eqs), "number of equalities")
        env.check(w.get_nic() == nic, "number of inequalities")
        env.check(len(f) == len(objs) + len(eqs) + nic, "length of the fitness vector")
        for k, o in enumerate(objs):
            env.eq(f[k], o, "round %d: objective %d" % (r, k))
        for k, (v, kind, lo, hi) in enumerate(eqs):
            env.check(env.Iff(f[len(objs) + k] == 0, v == lo), "round %d: equality %d is zero exactly when satisfied" % (r, k))
        p = len(objs) + len(eqs)
        for k, (v, kind, lo, hi) in enumerate(ineqs):
            c = 2 if kind == "both" else 1
            got = env.And(*[f[p + q] <= 0 for q in range(c)]) if c > 1 else f[p] <= 0
            env.check(env.Iff(got, inside(env, v, lo, hi)), "round %d: inequality %d is satisfied exactly within the bounds" % (r, k))
            p += c
    env.check(w.made == 1, "one model")
    clear_global_model_cache()


def h_generator(env, case, given=1, current=True):
    """The first solutions are the model's current one and the given ones, within bounds."""
    w = wrapper(env, "platypus", case)
    m = w.model
    vs = variables(case)
    now = vector(env, case, 0)
    whole = {}
    for (k, kind, i), v in zip(vs, now):
        p = m.parameters["k%d" % k]
        if kind == "d":
            p.d[i] = v
        else:
            p.i[i] = whole[(k, i)] = env.int("whole_%d_%d" % (k, i), -9, 9)
    sols, doc = [], []
    for r in range(given):
        d = {}
        x = vector(env, case, r + 1)
        for (k, kind, i), v in zip(vs, x):
            if kind == "i":
                v = env.int("given_%d_%d_%d" % (r, k, i), -20, 20)
            d.setdefault("k%d" % k, {}).setdefault("doubles" if kind == "d" else "integers", []).append(v)
        doc.append(d)
    g = PywrRandomGenerator(wrapper=w, solutions=doc if given else None, use_current=current)
    if current:
        s = g.generate(w.problem)
        env.check(len(s.variables) == len(vs), "current: number of variables")
        for j, (k, kind, i) in enumerate(vs):
            env.eq(s.variables[j], now[j] if kind == "d" else whole[(k, i)], "current: variable %d" % j)
    for r in range(given):
        s = g.generate(w.problem)
        env.check(len(s.variables) == len(vs), "given %d: number of variables" % r)
        for j, (k, kind, i) in enumerate(vs):
            v = doc[r]["k%d" % k]["doubles" if kind == "d" else "integers"][i]
            lo, hi = ((-50 - k - i), (50 + k + i)) if kind == "d" else (-9 - i, 9 + i)
            env.eq(s.variables[j], env.min(env.max(v, lo), hi), "given %d: variable %d" % (r, j))
    clear_global_model_cache()


def h_document(env, kind, order):
    """The wrapper of a model document: variables reach the parameters they belong to."""
    doc = {
        "metadata": {"title": "t", "minimum_version": "0.1"},
        "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
        "nodes": [{"name": "in", "type": "Input", "max_flow": "supply"}, {"name": "out", "type": "Output", "max_flow": "demand", "cost": -1}],
        "edges": [["in", "out"]],
        "parameters": {}, "recorders": {},
    }
    ps = {
        "supply": {"type": "constant", "value": 1.0, "is_variable": True, "lower_bounds": 0.0, "upper_bounds": 10.0},
        "demand": {"type": "constant", "value": 2.0, "is_variable": False},
        "season": {"type": "monthlyprofile", "values": [float(k) for k in range(12)], "is_variable": True, "lower_bounds": 0.0, "upper_bounds": 20.0},
        "extra": {"type": "constant", "value": 3.0, "is_variable": True, "lower_bounds": -5.0, "upper_bounds": 5.0},
    }
    for k in order:
        doc["parameters"][k] = dict(ps[k])
    for k in reversed(order):
        doc["recorders"]["r " + k] = {"type": "MeanParameter", "parameter": k, "is_objective": "max" if k == "extra" else "min",
                                      "constraint_upper_bounds": 8.0}
    base = {"platypus": PlatypusWrapper, "pygmo": PygmoWrapper}[kind]

    class W(base):
        def customise_model(self, m):
            m.solver = FreeFlow(lambda node, t, s: None)
            self.custom = getattr(self, "custom", 0) + 1
    clear_global_model_cache()
    w = W(doc, uid="doc")
    m = w.model
    env.check(w.custom == 1, "customised once")
    size = {"supply": 1, "season": 12, "extra": 1}
    names = [v.name for v in w.model_variables]
    env.check(sorted(names) == sorted(size), "the variables")
    x = []
    want = {"demand": 2.0}
    for nm in names:
        if nm == "season":
            v = [env.real("season", 0, 20)] + [float(k) for k in range(1, 12)]
        else:
            v = [env.real(nm, -5, 10)]
        want[nm] = v[0]
        x += v
    f = w.fitness(np.array(x)) if kind == "pygmo" else w.evaluate(x)
    objs, cons = (f[:4], None) if kind == "pygmo" else f
    for k, r in enumerate(w.model_objectives):
        nm = r.name[2:]
        env.eq(objs[k], -want[nm] if nm == "extra" else want[nm], "objective %s" % nm)
        env.eq(r.aggregated_value(), want[nm], "recorder %s" % nm)
    for k, r in enumerate(w.model_constraints):
        nm = r.name[2:]
        if cons is None:
            env.eq(f[4 + k], want[nm] - 8.0, "constraint %s" % nm)
        else:
            env.eq(cons[k], want[nm], "constraint %s" % nm)
    if kind == "platypus":
        j = 0
        for nm in names:
            for _ in range(size[nm]):
                t = w.problem.types[j]
                env.check((t.min_value, t.max_value) == (ps[nm]["lower_bounds"], ps[nm]["upper_bounds"]), "bounds of %s" % nm)
                j += 1
    clear_global_model_cache()


def h_refuse(env, what):
    """Problems without variables or objectives, and variables without a size, are refused."""
    clear_global_model_cache()

    class W(PlatypusWrapper):
        def make_model(self):
            m = model(env, (), end="2015-01-01")
            p = Knob(m, "k", 0 if what == "size" else 1, 0, variable=what != "variables")
            Last(m, p, 1.0, name="o", is_objective=None if what == "objectives" else "min")
            return m
    env.raises(ValueError, lambda: W({}, uid="refuse"), what)
    clear_global_model_cache()


def harnesses(tier):
    deep = tier != "quick"
    out = []
    out += sweep(h_bounds, over=dict(kind=["lower", "upper", "both", "equal"], order=["new", "lower", "upper", "again"]))
    out += sweep(h_bounds, over=dict(kind=["lower", "upper", "both", "equal"], agg=["sum", "min", "max"], n=[1, 3]))
    out += sweep(h_inverted, over=dict(first=["lower", "upper"]))
    ks = [(), (None,), ("lower",), (None, "upper"), ("lower", None, "both"), ("equal", "upper", None), ("both", "both", "lower")]
    if deep:
        ks += [("both", None, "equal", "upper"), ("lower", "upper", "both", "equal"), ("both", "both", "both", "both")]
    out += sweep(h_feasible, over=dict(kinds=ks, n=[1, 2]))
    out += [task(h_directions)]
    out += sweep(h_loaded, over=dict(kind=[k for k in DOCS if DOCS[k]]))
    out += sweep(h_platypus, over=dict(case=list(CASES), n=[1]))
    out += sweep(h_platypus, over=dict(case=["two", "mixed"], n=[2], rounds=[2] if not deep else [2, 3]))
    out += sweep(h_pygmo, over=dict(case=list(CASES), n=[1]))
    out += sweep(h_pygmo, over=dict(case=["two", "mixed"], n=[2], rounds=[2] if not deep else [2, 3]))
    out += sweep(h_generator, over=dict(case=["one", "two", "fixed", "mixed"], given=[0, 1, 2], current=[True]))
    out += sweep(h_generator, over=dict(case=["two", "mixed"], given=[2], current=[False]))
    orders = [("supply", "demand", "season", "extra"), ("extra", "season", "demand", "supply"), ("demand", "extra", "supply", "season")]
    out += sweep(h_document, over=dict(kind=["platypus", "pygmo"], order=orders))
    out += sweep(h_refuse, over=dict(what=["variables", "objectives", "size"]))
    return out
