"""C28: optimisation variables round-trip through parameters and take effect."""
import calendar
import datetime
import math
import numpy as np
from checks.lib import *
from checks.c25 import total
from checks.lpnet import Net, LPRun, same_lp, line, short, agg_factors, agg_limits
from pywr.nodes import *
from pywr.parameters import *
from pywr.parameters import load_parameter
from pywr.parameters.control_curves import ControlCurveParameter

BOUNDS = ("every parameter type with optimisation variables; up to 4 harmonics (2 in the quick tier), 3 control curves, 3 to 5 days of a radial basis "
          "profile; any real values within [-100, 100], any whole days within the reported bounds, any bounds; one or two changes after each "
          "other, 1 to 3 daily time-steps after a reset; the linear programmes posed with the values set (two GLPK solvers, with and without "
          "fixed values set once)")
OUTSIDE = ["control curves without bounds or with parameters instead of values (no variables to set)",
           "values of radial basis profiles are compared with those of a profile made with these values (C13 covers the interpolation)"]
ASSUMPTIONS = ["cos and exp are arbitrary functions of their argument (the same argument gives the same value)"]
START = "2015-02-27"


def vec(env, name, n, lo=-100, hi=100):
    return [env.real("%s%d" % (name, k), lo, hi) for k in range(n)]


#          doubles, make(env, m, v, lo, hi, doc): built with the values v and bounds; value(env, v, t, date, pc): expected or None
class Case:
    def __init__(self, n, make, value=None, doc=None, one=False, scalar=True):
        self.n, self.make, self.value, self.doc, self.one, self.scalar = n, make, value, doc, one, scalar


def store(m):
    if "st" not in [n.name for n in m.nodes]:
        st = Storage(m, "st", max_volume=100.0, initial_volume=m.vol)
        m.nodes["in"].connect(st)
        st.connect(m.nodes["out"])
    return m.nodes["st"]


IDX = {"cc": [0, 1, 2], "cc-some": [2, 0], "cc-last": [2]}


def curve(kind):
    idx = IDX[kind]

    def full(v):
        w = [11.0, 22.0, 33.0]
        for i, x in zip(idx, v):
            w[i] = x
        return w

    def make(env, m, v, lo, hi, name):
        return ControlCurveParameter(m, store(m), [0.75, 0.25], values=full(v), variable_indices=list(idx), lower_bounds=lo, upper_bounds=hi,
                                     name=name, is_variable=True)

    def value(env, v, t, d, m):
        w = full(v)
        pc = m.vol / 100.0
        return env.ite(pc >= 0.75, w[0], env.ite(pc >= 0.25, w[1], w[2]))
    return Case(len(idx), make, value, scalar=False)


def harmonic(n):
    def make(env, m, v, lo, hi, name):
        kw = {}
        if lo is not None:
            kw = dict(mean_lower_bounds=lo[0], mean_upper_bounds=hi[0], amplitude_lower_bounds=np.array(lo[1:n + 1]),
                      amplitude_upper_bounds=np.array(hi[1:n + 1]), phase_lower_bounds=np.array(lo[n + 1:]), phase_upper_bounds=np.array(hi[n + 1:]))
        return AnnualHarmonicSeriesParameter(m, v[0], v[1:n + 1], v[n + 1:], name=name, is_variable=True, **kw)

    def value(env, v, t, d, m):
        doy = d.timetuple().tm_yday - 1
        return v[0] + total([v[1 + i] * env.fn("cos", doy * (i + 1) * math.pi * 2 / 365 + v[n + 1 + i]) for i in range(n)])
    return Case(1 + 2 * n, make, None, scalar=False)


def monthly(interp):
    def make(env, m, v, lo, hi, name):
        kw = {} if lo is None else dict(lower_bounds=lo, upper_bounds=hi)
        return MonthlyProfileParameter(m, np.array(v), interp_day=interp, name=name, is_variable=True, **kw)
    return Case(12, make, (lambda env, v, t, d, m: v[d.month - 1]) if interp is None else None)


def rbf(days, **kw0):
    def make(env, m, v, lo, hi, name):
        kw = {} if lo is None else dict(lower_bounds=lo, upper_bounds=hi)
        kw.update(kw0)
        return RbfProfileParameter(m, days, v, name=name, is_variable=True, **kw)
    return Case(len(days), make)


def const(env, m, v, lo, hi, name):
    kw = {} if lo is None else dict(lower_bounds=lo[0], upper_bounds=hi[0])
    return ConstantParameter(m, v[0], scale=env.real("scale", -5, 5), offset=env.real("offset", -50, 50), name=name, is_variable=True, **kw)


def offset(env, m, v, lo, hi, name):
    kw = {} if lo is None else dict(lower_bounds=lo[0], upper_bounds=hi[0])
    base = m.parameters["base"] if "base" in [p.name for p in m.parameters] else Var(m, env, "base")
    return OffsetParameter(m, base, offset=v[0], name=name, is_variable=True, **kw)


def act(cls, **outs):
    def make(env, m, v, lo, hi, name):
        kw = {} if lo is None else dict(lower_bounds=lo[0], upper_bounds=hi[0])
        for k, b in outs.items():
            kw[k] = env.real("act_" + k, *b)
        return cls(m, value=v[0], name=name, is_variable=True, **kw)
    return make


def rectified(env, v, t, d, m):
    lo, hi, up = env.real("act_min_output", -50, 50), env.real("act_max_output", -50, 50), m.upper
    return env.ite(v[0] <= 0, 0.0, lo + (hi - lo) * v[0] / up)


CASES = {
    "constant": Case(1, const, lambda env, v, t, d, m: env.real("offset", -50, 50) + env.real("scale", -5, 5) * v[0]),
    "offset": Case(1, offset, lambda env, v, t, d, m: env.real("base_%d_0" % t, -100, 100) + v[0]),
    "step": Case(1, act(BinaryStepParameter, output=(-50, 50)), lambda env, v, t, d, m: env.ite(v[0] > 0, env.real("act_output", -50, 50), 0.0)),
    "rectifier": Case(1, act(RectifierParameter, min_output=(-50, 50), max_output=(-50, 50)), rectified),
    "logistic": Case(1, act(LogisticParameter, max_output=(-50, 50), growth_rate=(0.1, 2))),
    "monthly": monthly(None), "monthly-first": monthly("first"), "monthly-last": monthly("last"),
    "harmonic0": harmonic(0), "harmonic1": harmonic(1), "harmonic2": harmonic(2), "harmonic4": harmonic(4),
    "rbf3": rbf([1, 58, 200]), "rbf4": rbf([1, 90, 200, 365]), "rbf-linear": rbf([1, 60, 120, 300], rbf_kwargs={"function": "linear"}),
    "cc": curve("cc"), "cc-some": curve("cc-some"), "cc-last": curve("cc-last"),
}


def vmodel(env, days=2, start=START):
    end = datetime.date.fromisoformat(start) + datetime.timedelta(days=days - 1)
    m = model(env, (), start=start, end=end.isoformat())
    m.vol = env.real("vol", 1, 99)
    return m


def limits(env, c, name):
    """-> bounds as given to the parameter and as they are to be reported"""
    lo = [env.real("lo%s%d" % (name, k), -100, 0) for k in range(c.n)]
    hi = [env.real("hi%s%d" % (name, k), 1, 100) for k in range(c.n)]
    return lo, hi


def read(env, p, want, label):
    got = p.get_double_variables()
    env.check(len(got) == len(want) and p.double_size == len(want), "%s: number of variables" % label)
    for k, w in enumerate(want):
        env.eq(got[k], w, "%s: variable %d" % (label, k))


def h_variables(env, kind, sets=1, days=2, start=START):
    """Set, read back, and use."""
    c = CASES[kind]
    m = vmodel(env, days, start)
    lo, hi = limits(env, c, "")
    if kind.startswith("rectifier"):
        m.upper = hi[0]
    v0 = vec(env, "v", c.n)
    if kind == "logistic":
        v0 = vec(env, "v", c.n, -6, 6)
    p = c.make(env, m, v0, lo, hi, "p")
    other = c.make(env, m, v0, lo, hi, "other")
    env.check(bool(p.is_variable), "is a variable")
    env.check(p.integer_size == 0, "no whole variables")
    read(env, p, v0, "at first")
    gl, gu = p.get_double_lower_bounds(), p.get_double_upper_bounds()
    env.check(len(gl) == c.n and len(gu) == c.n, "number of bounds")
    for k in range(c.n):
        env.eq(gl[k], lo[k], "lower bound %d" % k)
        env.eq(gu[k], hi[k], "upper bound %d" % k)
    m.setup()
    x = v0
    for r in range(sets):
        x = vec(env, "x%d_" % r, c.n) if kind != "logistic" else vec(env, "x%d_" % r, c.n, -6, 6)
        if kind.startswith("cc"):
            before = np.array(p.values)
        a = np.array(x)
        p.set_double_variables(a)
        read(env, p, x, "set %d" % r)
        a[0] = 77.0
        read(env, p, x, "set %d, whatever becomes of the array" % r)
        got = p.get_double_variables()
        got[0] = 78.0
        read(env, p, x, "set %d, whatever becomes of the values read" % r)
        read(env, other, v0, "set %d: another parameter" % r)
        m.reset()
        fresh = None
        if c.value is None:
            # ... as a parameter made with these values
            m2 = vmodel(env, days, start)
            m2.vol = m.vol
            fresh = c.make(env, m2, x, lo, hi, "p")
            m2.setup()
        for t in range(days):
            m.step()
            if fresh is not None:
                m2.step()
            d = datetime.date.fromisoformat(start) + datetime.timedelta(days=t)
            si = m.scenarios.combinations[0]
            if fresh is not None:
                want = fresh.get_value(m2.scenarios.combinations[0])
            else:
                want = c.value(env, x, t, d, m)
            env.eq(p.get_value(si), want, "set %d, step %d: value" % (r, t))
        read(env, p, x, "set %d, after the run" % r)


def h_default(env, kind):
    """Bounds when none, or one for all, are given."""
    c = CASES[kind]
    m = vmodel(env)
    p = c.make(env, m, vec(env, "v", c.n), None, None, "p")
    lo, hi = p.get_double_lower_bounds(), p.get_double_upper_bounds()
    env.check(len(lo) == c.n and len(hi) == c.n, "number of bounds")
    want = {"step": [(-1, 1)], "rectifier": [(-1, 1)], "logistic": [(-6, 6)]}.get(kind)
    if want is None and kind.startswith("harmonic"):
        n = (c.n - 1) // 2
        want = [(0, math.inf)] * (1 + n) + [(0, 2 * math.pi)] * n
    elif want is None:
        want = [(0, math.inf)] * c.n
    for k, (a, b) in enumerate(want):
        env.check(lo[k] == a and hi[k] == b, "default bounds of variable %d" % k)


def h_scalar(env, kind):
    """One bound for all variables."""
    m = vmodel(env)
    lo, hi = env.real("lo", -100, 0), env.real("hi", 1, 100)
    if kind == "monthly":
        p = MonthlyProfileParameter(m, np.array(vec(env, "v", 12)), lower_bounds=lo, upper_bounds=hi)
    elif kind == "rbf":
        p = RbfProfileParameter(m, [1, 100, 200], vec(env, "v", 3), lower_bounds=lo, upper_bounds=hi)
    else:
        p = AnnualHarmonicSeriesParameter(m, 1.0, [1.0, 2.0, 3.0], [1.0, 2.0, 3.0], amplitude_lower_bounds=lo, amplitude_upper_bounds=hi,
                                          phase_lower_bounds=lo + 1, phase_upper_bounds=hi + 1, mean_lower_bounds=lo + 2, mean_upper_bounds=hi + 2)
    gl, gu = p.get_double_lower_bounds(), p.get_double_upper_bounds()
    env.check(len(gl) == p.double_size and len(gu) == p.double_size, "number of bounds")
    for k in range(p.double_size):
        d = 0 if kind != "harmonic" else [2, 0, 0, 0, 1, 1, 1][k]
        env.eq(gl[k], lo + d, "lower bound %d" % k)
        env.eq(gu[k], hi + d, "upper bound %d" % k)


def h_reject(env, kind):
    m = vmodel(env)
    v = vec(env, "v", 12)
    if kind == "monthly-lower":
        env.raises(ValueError, lambda: MonthlyProfileParameter(m, np.array(v), lower_bounds=[0.0] * 11), kind)
    elif kind == "monthly-upper":
        env.raises(ValueError, lambda: MonthlyProfileParameter(m, np.array(v), upper_bounds=[0.0] * 13), kind)
    elif kind == "monthly-values":
        env.raises(ValueError, lambda: MonthlyProfileParameter(m, np.array(v[:11])), kind)
    elif kind == "rbf-lower":
        env.raises(ValueError, lambda: RbfProfileParameter(m, [1, 50, 100], v[:3], lower_bounds=[0.0] * 2), kind)
    elif kind == "rbf-upper":
        env.raises(ValueError, lambda: RbfProfileParameter(m, [1, 50, 100], v[:3], upper_bounds=[0.0] * 4), kind)
    elif kind == "rbf-days":
        env.raises(ValueError, lambda: RbfProfileParameter(m, [1, 50, 100], v[:3], variable_days_lower_bounds=[40], variable_days_upper_bounds=[60, 110]), kind)
    elif kind == "rbf-days2":
        env.raises(ValueError, lambda: RbfProfileParameter(m, [1, 50, 100], v[:3], variable_days_lower_bounds=[40, 90, 120],
                                                           variable_days_upper_bounds=[60, 110, 130]), kind)
    elif kind == "rbf-close":
        env.raises(ValueError, lambda: RbfProfileParameter(m, [1, 50, 100], v[:3], variable_days_of_year_range=25), kind)
    elif kind == "harmonic":
        env.raises(ValueError, lambda: AnnualHarmonicSeriesParameter(m, 1.0, v[:2], v[:3]), kind)
    elif kind == "cc-lower":
        env.raises(ValueError, lambda: ControlCurveParameter(m, store(m), [0.5], values=v[:2], variable_indices=[0], lower_bounds=[0.0, 1.0]), kind)
    elif kind == "cc-upper":
        env.raises(ValueError, lambda: ControlCurveParameter(m, store(m), [0.5], values=v[:2], variable_indices=[0, 1], upper_bounds=[0.0]), kind)
    elif kind == "cc-set":
        p = ControlCurveParameter(m, store(m), [0.5], values=v[:2], variable_indices=[0])
        env.raises(ValueError, lambda: p.set_double_variables(np.array([1.0, 2.0])), kind)
        env.eqs(list(p.values), v[:2], "nothing was set")


def h_shared(env, kind):
    """Parameters made from the same array are separate."""
    m = vmodel(env)
    a = np.array(vec(env, "v", 12 if kind == "monthly" else 3))
    keep = [x for x in a]

    def make(name):
        if kind == "monthly":
            return MonthlyProfileParameter(m, a, name=name)
        if kind == "rbf":
            return RbfProfileParameter(m, [1, 50, 100], a, name=name)
        if kind == "harmonic":
            return AnnualHarmonicSeriesParameter(m, 1.0, a, a, name=name)
        return ControlCurveParameter(m, store(m), [0.75, 0.25], values=a, variable_indices=[0, 1, 2], name=name)
    p, q = make("p"), make("q")
    n = p.double_size
    was = [x for x in q.get_double_variables()]
    p.set_double_variables(np.array(vec(env, "x", n)))
    read(env, p, vec(env, "x", n), "set")
    read(env, q, was, "the other parameter")
    env.eqs([x for x in a], keep, "the array they were made from")


def h_days(env, days, rng=None, lower=None, upper=None, order="values"):
    """The days of a radial basis profile as whole variables."""
    m = vmodel(env)
    v = vec(env, "v", len(days))
    kw = dict(variable_days_of_year_range=rng) if rng else dict(variable_days_lower_bounds=lower, variable_days_upper_bounds=upper)
    p = RbfProfileParameter(m, days, v, is_variable=True, **kw)
    n = len(days) - 1
    env.check(p.integer_size == n and p.double_size == n + 1, "number of variables")
    env.check([int(x) for x in p.get_integer_variables()] == days[1:], "days at first")
    lo, hi = [int(x) for x in p.get_integer_lower_bounds()], [int(x) for x in p.get_integer_upper_bounds()]
    if rng:
        env.check(lo == [d - rng for d in days[1:]] and hi == [min(d + rng, 365) for d in days[1:]], "bounds of the days")
    else:
        env.check(lo == list(lower) and hi == list(upper), "bounds of the days")
    env.check(len(lo) == n and len(hi) == n, "number of bounds of the days")
    # any days within the bounds (the ends)
    x = [env.choice("d%d" % k, [lo[k], hi[k]]) for k in range(n)]
    y = vec(env, "y", n + 1)
    if order == "values":
        p.set_double_variables(np.array(y))
    p.set_integer_variables(np.array(x, dtype=np.int32))
    if order == "days":
        p.set_double_variables(np.array(y))
    env.check([int(k) for k in p.get_integer_variables()] == list(x), "days set")
    env.check([int(k) for k in p.days_of_year] == [1] + list(x), "days of the profile")
    read(env, p, y, "values")
    m.setup()
    m2 = vmodel(env)
    q = RbfProfileParameter(m2, [1] + list(x), y)
    m2.setup()
    m.step()
    m2.step()
    env.eq(p.get_value(m.scenarios.combinations[0]), q.get_value(m2.scenarios.combinations[0]), "value of the profile")


def h_anyday(env):
    """Every whole number of days within the bounds is accepted and read back."""
    m = vmodel(env)
    p = RbfProfileParameter(m, [1, 180, 350], vec(env, "v", 3), is_variable=True, variable_days_of_year_range=16)
    lo, hi = [int(x) for x in p.get_integer_lower_bounds()], [int(x) for x in p.get_integer_upper_bounds()]
    k = env.choice("which", [0, 1])
    x = [180, 350]
    x[k] = env.int("day", lo[0], hi[0]) if k == 0 else env.int("day2", lo[1], hi[1])
    p.set_integer_variables(np.array(x, dtype=np.int32))
    env.eqs([d for d in p.get_integer_variables()], x, "days set")


DOCS = {
    "constant": ({"value": 3.0, "lower_bounds": 1.0, "upper_bounds": 9.0}, [3.0], [1.0], [9.0]),
    "monthlyprofile": ({"values": [float(k) for k in range(12)], "lower_bounds": [k - 1.0 for k in range(12)], "upper_bounds": 20.0},
                       [float(k) for k in range(12)], [k - 1.0 for k in range(12)], [20.0] * 12),
    "rbfprofile": ({"days_of_year": [1, 50, 100], "values": [1.0, 2.0, 3.0], "lower_bounds": [0.0, 1.0, 2.0], "upper_bounds": [4.0, 5.0, 6.0]},
                   [1.0, 2.0, 3.0], [0.0, 1.0, 2.0], [4.0, 5.0, 6.0]),
    "annualharmonicseries": ({"mean": 0.5, "amplitudes": [0.25, 0.125], "phases": [1.0, 2.0], "mean_lower_bounds": 0.1, "mean_upper_bounds": 0.9,
                              "amplitude_lower_bounds": [0.0, 0.1], "amplitude_upper_bounds": 3.0, "phase_lower_bounds": -1.0, "phase_upper_bounds": [5.0, 6.0]},
                             [0.5, 0.25, 0.125, 1.0, 2.0], [0.1, 0.0, 0.1, -1.0, -1.0], [0.9, 3.0, 3.0, 5.0, 6.0]),
    "offset": ({"parameter": "base", "offset": 2.0, "lower_bounds": -3.0, "upper_bounds": 3.0}, [2.0], [-3.0], [3.0]),
    "binarystep": ({"value": 0.5, "lower_bounds": -2.0, "upper_bounds": 2.0, "output": 7.0}, [0.5], [-2.0], [2.0]),
    "rectifier": ({"value": 0.5, "lower_bounds": -2.0, "upper_bounds": 2.0, "max_output": 7.0}, [0.5], [-2.0], [2.0]),
    "logistic": ({"value": 0.5, "lower_bounds": -2.0, "upper_bounds": 2.0, "max_output": 7.0}, [0.5], [-2.0], [2.0]),
    "controlcurve": ({"storage_node": "st", "control_curves": [0.5], "values": [4.0, 5.0], "variable_indices": [1, 0], "lower_bounds": [1.0, 2.0],
                      "upper_bounds": [8.0, 9.0]}, [5.0, 4.0], [1.0, 2.0], [8.0, 9.0]),
}


def h_document(env, kind):
    """A variable parameter from a document."""
    m = vmodel(env)
    store(m)
    Var(m, env, "base")
    d, v, lo, hi = DOCS[kind]
    d = {k: (list(x) if isinstance(x, list) else x) for k, x in d.items()}
    flag = env.choice("variable", [True, False])
    d.update({"type": kind, "name": "p", "is_variable": flag})
    p = load_parameter(m, d)
    env.check(bool(p.is_variable) == flag and [q.name for q in m.variables] == (["p"] if flag else []), "the variables of the model")
    read(env, p, v, "from the document")
    gl, gu = p.get_double_lower_bounds(), p.get_double_upper_bounds()
    env.eqs([x for x in gl], lo, "lower bounds")
    env.eqs([x for x in gu], hi, "upper bounds")
    x = vec(env, "x", len(v))
    p.set_double_variables(np.array(x))
    read(env, p, x, "set")


def h_programme(env, net, solver, args=()):
    """Constant parameters set to new values after a run: the linear programmes posed are those of a model made with these values."""
    n = net(*args)
    r = LPRun(env, n, solver, scenarios=(), nsteps=1)

    def answer(t, s, lp):
        return [None] + [0.0] * lp.ncols
    for _ in r.go(answer):
        pass
    new = {}
    for p in list(r.m.parameters):
        if isinstance(p, ConstantParameter):
            node, attr = p.name.rsplit(".", 1)
            from checks.lpnet import RANGES
            lo, hi = RANGES[attr.split("#")[0]]
            new[p.name] = env.real("new %s" % p.name, lo, hi)
            p.set_double_variables(np.array([new[p.name]]))
    env.check(len(new) > 0, "there are constant parameters")
    setup = r.m.setup
    r.m.setup = lambda *a, **k: None
    r.m.reset()
    for _ in r.go(answer):
        pass
    q = Net(n.nodes, n.edges)

    def fixed(name, attr, spec):
        k = "%s.%s" % (name, attr)
        return new[k] if k in new else n.resolve(env, name, attr, spec, 0, 0)
    q.fixed = fixed
    f = LPRun(env, q, solver.split("-")[0], scenarios=(), nsteps=1)
    for _ in f.go(answer):
        pass
    same_lp(env, r.lps[0], f.lps[0], "after the change")


def harnesses(tier):
    deep = tier != "quick"
    out = []
    kinds = [k for k in CASES if deep or k not in ("harmonic4",)]
    out += sweep(h_variables, over=dict(kind=kinds, sets=[1, 2]))
    if deep:
        out += sweep(h_variables, over=dict(kind=kinds, sets=[3], days=[3], start=["2016-02-28", "2015-12-30"]))
    else:
        out += sweep(h_variables, over=dict(kind=["constant", "monthly", "monthly-last", "harmonic1", "cc-some"], days=[3], start=["2015-12-30"]))
    out += sweep(h_default, over=dict(kind=["constant", "offset", "step", "rectifier", "logistic", "monthly", "harmonic2", "rbf3"]))
    out += sweep(h_scalar, over=dict(kind=["monthly", "rbf", "harmonic"]))
    out += sweep(h_reject, over=dict(kind=["monthly-lower", "monthly-upper", "monthly-values", "rbf-lower", "rbf-upper", "rbf-days", "rbf-days2",
                                           "rbf-close", "harmonic", "cc-lower", "cc-upper", "cc-set"]))
    out += sweep(h_shared, over=dict(kind=["monthly", "rbf", "harmonic", "cc"]))
    for o in ("values", "days"):
        out += [task(h_days, params=dict(days=[1, 100, 200], rng=20, order=o)), task(h_days, params=dict(days=[1, 90, 180, 350], rng=30, order=o)),
                task(h_days, params=dict(days=[1, 90, 200], lower=[50, 150], upper=[100, 250], order=o))]
    out += [task(h_anyday)]
    out += sweep(h_document, over=dict(kind=list(DOCS)))
    for sv in ("route", "edge", "route-once", "edge-once"):
        out += [task(h_programme, params=dict(net=line, solver=sv, args=("K",))), task(h_programme, params=dict(net=short, solver=sv)),
                task(h_programme, params=dict(net=agg_factors, solver=sv, args=("K", 3))),
                task(h_programme, params=dict(net=agg_limits, solver=sv, args=("K",)))]
    return out
