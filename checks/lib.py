"""Shared harness building blocks.  Everything here uses only pywr's public API, so that the same
harness runs on the shadow (symbolically) and on the real build (replay)."""
import datetime
import itertools

from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Link, Storage, Node
from pywr.parameters import Parameter, IndexParameter, ConstantParameter
from pywr.solvers import Solver


def task(fn, name=None, **kw):
    opts = {}
    params = kw.pop("params", {})
    nm = name or fn.__name__.lstrip("_")
    if params and name is None:
        nm += "(" + ",".join("%s=%s" % (k, _short(v)) for k, v in params.items()) + ")"
    d = dict(name=nm, fn=fn, params=params)
    d.update(kw)
    return d


def _short(v):
    return getattr(v, "__name__", None) or str(v).replace(" ", "")


def sweep(fn, **kw):
    """One task per combination of the list-valued keyword arguments in `over`."""
    import itertools
    over = kw.pop("over")
    ks = list(over)
    return [task(fn, params=dict(zip(ks, c)), **kw) for c in itertools.product(*[over[k] for k in ks])]


class Var(Parameter):
    """A parameter whose value is an arbitrary function of time-step and scenario."""

    def __init__(self, model, env, name, lo=-100, hi=100, **kwargs):
        super().__init__(model, name=name, **kwargs)
        self.env, self.vname, self.lo, self.hi = env, name, lo, hi

    def value(self, ts, si):
        return self.at(ts.index, si.global_id)

    def at(self, t, s):
        return self.env.real("%s_%d_%d" % (self.vname, t, s), self.lo, self.hi)


class Seq(Parameter):
    """A parameter with given values per time-step and scenario: fn(t, s)."""

    def __init__(self, model, fn, name=None, **kwargs):
        super().__init__(model, name=name, **kwargs)
        self.fn = fn

    def value(self, ts, si):
        return self.fn(ts.index, si.global_id)


class IndexVar(IndexParameter):
    """An index parameter with an arbitrary index in [0, hi]; its value is another arbitrary number."""

    def __init__(self, model, env, name, hi, **kwargs):
        super().__init__(model, name=name, **kwargs)
        self.env, self.vname, self.hi = env, name, hi

    def index(self, ts, si):
        return self.at(ts.index, si.global_id)

    def value(self, ts, si):
        return self.env.real("%s_v_%d_%d" % (self.vname, ts.index, si.global_id), -100, 100)

    def at(self, t, s):
        return self.env.int("%s_%d_%d" % (self.vname, t, s), 0, self.hi)


class FreeFlow(Solver):
    """Stands for any allocation: commits chosen flows, fn(node, t, scenario) -> flow or None."""
    name = "freeflow"

    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.log = {}

    def setup(self, model):
        pass

    def reset(self):
        pass

    def solve(self, model):
        t = model.timestep.index
        for si in model.scenarios.combinations:
            for node in model.graph.nodes():
                f = self.fn(node, t, si.global_id)
                if f is not None:
                    node.commit(si.global_id, f)
                    self.log[(node.name, t, si.global_id)] = f


def flows(env, names, lo=0, hi=1000):
    """Arbitrary flow per named node, time-step and scenario."""
    def fn(node, t, s):
        if node.name in names:
            return env.real("flow_%s_%d_%d" % (node.name, t, s), lo, hi)
        return None
    return fn


def combos(scenarios):
    """As many combinations as the scenarios have, in an order of their own: the position of a combination is not the
    ensemble of any scenario, and with one scenario an ensemble comes several times."""
    if len(scenarios) == 1:
        n = scenarios[0]
        return [[0 if i % 2 and n > 2 else n - 1] for i in range(n)]
    return list(itertools.product(*[range(n) for n in scenarios]))[::-1]


def model(env, scenarios=(), start="2015-01-01", end="2015-01-03", timestep=1, flow=None, nodes=True, **kw):
    """A small model (in -> link -> out) whose solver commits chosen flows."""
    m = Model(start=start, end=end, timestep=timestep, **kw)
    for i, n in enumerate(scenarios):
        Scenario(m, "s%d" % i, size=n)
    if scenarios:
        m.scenarios.user_combinations = combos(scenarios)
    if nodes:
        a, l, o = Input(m, "in"), Link(m, "link"), Output(m, "out")
        a.connect(l)
        l.connect(o)
    m.solver = FreeFlow(flow or (lambda node, t, s: None))
    return m


def nscen(m):
    return len(m.scenarios.combinations)


def steps(m, n=None):
    """Run n time-steps (all by default), yielding after each."""
    m.setup()
    k = 0
    total = len(m.timestepper)
    while k < (total if n is None else n):
        m.step()
        yield m.timestep
        k += 1


def values(p, m):
    """The parameter's value in every scenario, as seen through get_value."""
    return [p.get_value(si) for si in m.scenarios.combinations]
