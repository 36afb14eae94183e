"""C32: bisection finds the highest feasible value."""
import numpy as np
from checks.lib import *
from pywr.nodes import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.utils.bisect import BisectionSearchModel

BOUNDS = ("any bounds, threshold and precision with at most %d halvings (quick: 5, thorough: 7) of the range; feasibility any function of the value, or that of "
          "one or two constraints on flows, parameters and deficits over up to 2 scenarios and 2 time-steps with arbitrary capacities; first and repeated "
          "searches, from any start value") % 7
OUTSIDE = ["a range that needs more halvings", "rounding of the halving (real arithmetic)"]


class Tried(Recorder):
    """Logs each simulated value; with `judge`, decides feasibility (constraints are asked for after each simulation)."""

    def __init__(self, model, param, judge=None, name="tried"):
        super().__init__(model, name=name)
        self.param, self.judge, self.log, self.verdicts = param, judge, [], []
        self.children.add(param)
        if judge is not None:
            self.constraint_upper_bounds = 0.0

    def reset(self):
        self.log.append(None)

    def after(self):
        self.log[-1] = [self.param.get_value(si) for si in self.model.scenarios.combinations]

    def is_constraint_violated(self):
        ok = self.judge(self.log[-1][0])
        self.verdicts.append((self.log[-1][0], ok))
        return not ok

    def values(self):
        return [0.0 for _ in self.model.scenarios.combinations]


def search(env, halvings, scen=(), n=1, error=True, limits=None):
    lo, hi, eps = limits or (env.real("lo", -50, 50), env.real("hi", -50, 100), env.real("eps", 0, 200))
    env.assume(env.And(lo < hi, eps > 0, hi - lo <= eps * 2 ** halvings))
    m = BisectionSearchModel(start="2015-01-01", end="2015-01-0%d" % n, timestep=1, bisect_parameter="x", bisect_epsilon=eps, error_on_infeasible=error)
    for i, k in enumerate(scen):
        Scenario(m, "s%d" % i, size=k)
    if scen:
        m.scenarios.user_combinations = combos(scen)
    a, l, o = Input(m, "in"), Link(m, "link"), Output(m, "out")
    a.connect(l)
    l.connect(o)
    x = ConstantParameter(m, env.real("x0", -100, 100), lower_bounds=lo, upper_bounds=hi, name="x")
    o.max_flow = x
    m.solver = FreeFlow(lambda node, t, s: None)
    return m, x, lo, hi, eps


def outcome(env, m):
    try:
        m.run()
    except ValueError:
        return False
    return True


def settled(env, m, x, tried, lo, hi, label):
    """The values tried are inside the bounds and the model ends as simulated at the value it returns."""
    for row in tried.log:
        for v in row or []:
            env.check(env.And(lo <= v, v <= hi), label + ": values tried are within the bounds")
    r = x.get_double_variables()[0]
    env.eqs(tried.log[-1], [r for _ in tried.log[-1]], label + ": the last simulation is of the returned value")
    return r


def judge_result(env, found, m, x, tried, lo, hi, eps, top, error, label="search"):
    """`top`: the values up to it are feasible."""
    if found:
        r = settled(env, m, x, tried, lo, hi, label)
        best = env.min(top, hi)
        if error:
            env.check(r <= top, label + ": the value is feasible")
        else:
            env.check(env.Or(r <= top, env.And(r == lo, top < lo)), label + ": the value is feasible, or the lower bound if none is")
        env.check(env.Or(best - r <= eps, top < lo), label + ": within the precision of the highest")
    else:
        env.check(error, label + ": an error only when asked for")
        env.check(top < lo, label + ": an error only when no value is feasible")
    if error:
        env.check(env.Implies(top < lo, not found), label + ": an error when none is")


def h_threshold(env, halvings, error=True, again=False, scen=(2,)):
    """Feasible up to any threshold."""
    m, x, lo, hi, eps = search(env, halvings, scen, error=error)
    top = env.real("top", -100, 150)
    tried = Tried(m, x, judge=lambda v: env.fork(v <= top))
    found = outcome(env, m)
    judge_result(env, found, m, x, tried, lo, hi, eps, top, error)
    if again:
        r = x.get_double_variables()[0]
        found2 = outcome(env, m)
        env.check(found2 == found, "a second search ends the same")
        if found:
            env.eq(x.get_double_variables()[0], r, "and with the same value")


def h_any(env, halvings, error=True):
    """Whatever the feasibility of each value: the result was found feasible, and is the highest that was."""
    m, x, lo, hi, eps = search(env, halvings, error=error)
    k = [0]

    def judge(v):
        k[0] += 1
        return env.fork(env.bool("feasible_%d" % k[0]))
    tried = Tried(m, x, judge=judge)
    found = outcome(env, m)
    good = [v for v, ok in tried.verdicts if ok]
    env.check(k[0] <= halvings + 1, "the number of simulations is that of the halvings")
    if found:
        r = settled(env, m, x, tried, lo, hi, "search")
        if good:
            env.eq(r, env.max(*good) if len(good) > 1 else good[0], "the highest value found feasible")
            bad = [v for v, ok in tried.verdicts if not ok]
            env.check(env.Or(hi - r <= eps, *[env.And(b > r, b - r <= eps) for b in bad]), "within the precision of an infeasible value or of the bound")
        else:
            env.check(not error, "without a feasible value there is a result only if asked for")
            env.eq(r, lo, "the lower bound")
    else:
        env.check(error and not good, "an error when nothing tried is feasible")


def h_constraint(env, halvings, what, scen=(2,), n=2):
    """Feasible as the recorders of the model say."""
    m, x, lo, hi, eps = search(env, halvings, scen, n)
    tried = Tried(m, x)
    link, out = m.nodes["link"], m.nodes["out"]
    ns = int(np.prod(scen)) if scen else 1
    c = [env.real("cap_%d" % s, -40, 80) for s in range(ns)]
    top = env.real("top", -40, 80)

    def fn(node, t, s):
        # what the network can supply
        if node is out:
            return env.min(m.parameters["x"].get_value(m.scenarios.combinations[s]), c[s] + t)
        return None
    m.solver = FreeFlow(fn)
    if what == "parameter":
        NumpyArrayParameterRecorder(m, x, name="r", temporal_agg_func="mean", constraint_upper_bounds=top)
        limit = top
    elif what == "deficit":
        DeficitFrequencyNodeRecorder(m, out, name="r", constraint_upper_bounds=0.0, agg_func="max")
        # a shortfall of up to 1e-6 is not one
        limit = None
    elif what == "deficits":
        TotalDeficitNodeRecorder(m, out, name="r", constraint_upper_bounds=0.0, agg_func="max")
        limit = env.min(*c) if ns > 1 else c[0]
    elif what == "two":
        NumpyArrayParameterRecorder(m, x, name="r", temporal_agg_func="mean", constraint_upper_bounds=top)
        NumpyArrayParameterRecorder(m, x, name="r2", temporal_agg_func="max", agg_func="max", constraint_upper_bounds=c[0])
        limit = env.min(top, c[0])
    elif what == "flow":
        # more demand is more flow, up to the capacity
        NumpyArrayNodeRecorder(m, out, name="r", temporal_agg_func="max", agg_func="min", constraint_upper_bounds=top)
        cap = env.min(*[v + (n - 1) for v in c]) if ns > 1 else c[0] + (n - 1)
        env.assume(top < cap)
        limit = top
    found = outcome(env, m)
    judge_result(env, found, m, x, tried, lo, hi, eps, limit, True)
    if found:
        env.check(m.is_feasible(), "the constraints hold after the search")
        r = x.get_double_variables()[0]
        if what in ("parameter", "two"):
            env.eqs(m.recorders["r"].values(), [r] * ns, "the recorders hold the results of the value")


def h_document(env, error):
    """The search that a document asks for."""
    lo, hi, eps, top = 0.0, 8.0, 1.0, env.real("top", -2, 10)
    d = {"metadata": {"title": "t"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
         "bisection": {"parameter": "x", "epsilon": eps},
         "nodes": [{"name": "in", "type": "Input"}, {"name": "link", "type": "Link"}, {"name": "out", "type": "Output", "max_flow": "x"}],
         "edges": [["in", "link"], ["link", "out"]],
         "parameters": {"x": {"type": "constant", "value": 100.0, "lower_bounds": lo, "upper_bounds": hi}},
         "recorders": {"r": {"type": "numpyarrayparameter", "parameter": "x", "temporal_agg_func": "mean", "constraint_upper_bounds": top}}}
    if error is not None:
        d["bisection"]["error_on_infeasible"] = error
    m = BisectionSearchModel.load(d)
    env.check(isinstance(m, BisectionSearchModel), "type")
    m.solver = FreeFlow(lambda node, t, s: None)
    x = m.parameters["x"]
    tried = Tried(m, x)
    found = outcome(env, m)
    judge_result(env, found, m, x, tried, lo, hi, eps, top, error is not False)


def h_reject(env, what):
    """Searches that are not defined are errors, before anything is simulated."""
    lo, hi, eps = env.real("lo", -50, 50), env.real("hi", -50, 100), env.real("eps", -10, 200)
    inf = float("inf")
    if what == "precision":
        env.assume(env.And(lo < hi, eps <= 0))
    elif what == "bounds":
        env.assume(env.And(lo >= hi, eps > 0))
    elif what == "no upper bound":
        hi = inf
        env.assume(eps > 0)
    elif what == "no lower bound":
        lo = -inf
        env.assume(eps > 0)
    else:
        env.assume(env.And(lo < hi, eps > 0))
    kw = {} if what == "no precision" else {"bisect_epsilon": eps}
    if what != "no parameter":
        kw["bisect_parameter"] = "nobody" if what == "unknown" else "x"
    m = BisectionSearchModel(start="2015-01-01", end="2015-01-01", timestep=1, **kw)
    Output(m, "out")
    if what == "two variables":
        x = MonthlyProfileParameter(m, [1.0] * 12, lower_bounds=lo, upper_bounds=hi, name="x")
    elif what == "integer":
        x = Whole(m, name="x")
    else:
        x = ConstantParameter(m, 1.0, lower_bounds=lo, upper_bounds=hi, name="x")
    m.solver = FreeFlow(lambda node, t, s: None)
    ran = []
    tried = Tried(m, x)
    env.raises(KeyError if what == "unknown" else ValueError, m.run, what)
    env.check(all(row is None for row in tried.log), "nothing is simulated")


class Whole(Parameter):
    def __init__(self, model, **kw):
        super().__init__(model, **kw)
        self.double_size, self.integer_size = 1, 1

    def value(self, ts, si):
        return 0.0


def harnesses(tier):
    deep = tier != "quick"
    h = 7 if deep else 5
    out = sweep(h_threshold, over=dict(halvings=[h], error=[True, False]))
    out += sweep(h_threshold, over=dict(halvings=[h - 1], error=[True, False], again=[True]))
    out += sweep(h_any, over=dict(halvings=[h], error=[True, False]))
    out += sweep(h_constraint, over=dict(halvings=[h - 1], what=["parameter", "deficits", "two", "flow"]))
    if deep:
        out += sweep(h_constraint, over=dict(halvings=[4], what=["parameter", "deficits", "two", "flow"], scen=[(2, 2)], n=[3]))
    out += sweep(h_document, over=dict(error=[None, True, False]))
    out += sweep(h_reject, over=dict(what=["precision", "bounds", "no upper bound", "no lower bound", "no precision", "no parameter", "unknown", "two variables", "integer"]))
    return out
