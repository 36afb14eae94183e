"""C17: delayed, rolling and cumulative parameters report exact history."""
import datetime
from datetime import timedelta
from checks.lib import *
from pywr.nodes import DelayNode, PiecewiseLink
from pywr.parameters import *
from pywr.parameters import load_parameter
from pywr.recorders import NumpyArrayParameterRecorder, RollingWindowParameterRecorder

BOUNDS = "4-5 time-steps (two runs for some), 2 scenarios, delays and windows of 1-4 steps given as steps or days, steps of 1, 2 and 7 days, " \
         "any flows, limits and initial values; discount rates in [0, 1], base years within 4 years of any run year 1895..2105"
OUTSIDE = ["discounting over more than four years (the power is expanded)"]


def f(env, name, t, s):
    return env.real("flow_%s_%d_%d" % (name, t, s), -1000, 1000)     # the net flow of a storage has either sign


def wmodel(env, n=4, delta=1, names=("link",), scen=2):
    return model(env, [scen], start="2015-01-30", end=datetime.date(2015, 1, 30) + timedelta(days=n * delta - 1), timestep=delta, flow=flows(env, names, -1000, 1000))


def history(env, m, ps, spec, n, runs=1, after=None):
    """Every parameter's value in every step is spec(t, s)."""
    m.setup()
    for r in range(runs):
        if r:
            m.reset()
        for t in range(n):
            m.step()
            for si in m.scenarios.combinations:
                for p in ps:
                    env.eq(p.get_value(si), spec(t, si.global_id), "value in step %d" % t)
                if after:
                    after(t, si)


class Seen(Parameter):
    """Records what another parameter offers while the step's parameters are evaluated."""

    def __init__(self, model, p, name):
        super().__init__(model, name=name)
        self.p = p
        self.children.add(p)
        self.got = {}

    def value(self, ts, si):
        v = self.p.get_value(si)
        self.got[ts.index, si.global_id] = v
        return v


def h_flow(env, load, agg):
    m = wmodel(env, names=("link", "in"))
    init = env.real("init", -10, 10)
    if agg:
        # the flow of a compound node is that of its parts
        node = PiecewiseLink(m, nsteps=2, costs=[1.0, 2.0], max_flows=[10.0, None], name="agg")
        m.nodes["in"].connect(node)
        node.connect(m.nodes["out"])
        m.solver.fn = lambda n, t, s: f(env, n.name, t, s) if n.name in ("in", "link") or n in node.sublinks else None
        parts = [n.name for n in node.sublinks]
    else:
        node, parts = m.nodes["link"], ["link"]
    if load:
        p = load_parameter(m, {"type": "flow", "node": node.name, "initial_value": init})
    else:
        p = FlowParameter(m, node, initial_value=init, name="p")
    q = FlowParameter(m, node, name="q")
    def fl(t, s):
        return env.sum([f(env, n, t, s) for n in parts])
    history(env, m, [p], lambda t, s: init if t == 0 else fl(t - 1, s), 3, 2,
            after=lambda t, si: env.eq(q.get_value(si), 0 if t == 0 else fl(t - 1, si.global_id), "zero at first by default"))


def h_deficit(env, how):
    m = wmodel(env)
    link = m.nodes["link"]
    if how == "number":
        mx = env.real("mx", 0, 1000)
        link.max_flow = mx
        top = lambda t, s: mx
    elif how == "constant":
        c = env.real("mx", 0, 1000)
        link.max_flow = ConstantParameter(m, c, name="mx")
        top = lambda t, s: c
    else:
        v = Var(m, env, "mx", 0, 1000)
        link.max_flow = v
        top = v.at
    p = DeficitParameter(m, link, name="p")
    seen = Seen(m, p, "seen")
    agg = AggregatedParameter(m, [p], agg_func="sum", name="agg")
    d = lambda t, s: top(t, s) - f(env, "link", t, s)

    def after(t, si):
        s = si.global_id
        env.eq(seen.get_value(si), 0 if t == 0 else d(t - 1, s), "others see the previous step's deficit")
        env.eq(agg.get_value(si), 0 if t == 0 else d(t - 1, s), "an aggregate sees the previous step's deficit")
    history(env, m, [p], d, 3, 2, after)


def h_deficit_recorded(env):
    """A recorder of the deficit holds the step's own deficit."""
    m = wmodel(env)
    v = Var(m, env, "mx", 0, 1000)
    m.nodes["link"].max_flow = v
    p = DeficitParameter(m, m.nodes["link"], name="p")
    r = NumpyArrayParameterRecorder(m, p, name="rec")
    m.run()
    for t in range(4):
        for s in range(2):
            env.eq(r.data[t, s], v.at(t, s) - f(env, "link", t, s), "recorded deficit")


def h_delay(env, steps, days, delta, runs, load):
    m = wmodel(env, 5, delta)
    init = env.real("init", 0, 10)
    kw = {"days": days} if days else {"timesteps": steps}
    if load:
        p = load_parameter(m, {"type": "flowdelay", "node": "link", "initial_flow": init, **kw})
    else:
        p = FlowDelayParameter(m, m.nodes["link"], initial_flow=init, name="p", **kw)
    q = FlowDelayParameter(m, m.nodes["link"], name="q", **kw)
    k = steps
    history(env, m, [p], lambda t, s: f(env, "link", t - k, s) if t >= k else init, 5, runs,
            after=lambda t, si: env.eq(q.get_value(si), f(env, "link", t - k, si.global_id) if t >= k else 0, "zero at first by default"))


def h_delay_rejected(env):
    for kw in ({}, {"timesteps": 0}, {"days": 7}):
        m = wmodel(env, 5, 2)
        p = FlowDelayParameter(m, m.nodes["link"], name="p", **kw)
        env.raises(ValueError, m.setup, "rejected")


def h_delay_node(env, steps, days, delta):
    """Everything that entered a delay node leaves it the stated number of steps later."""
    m = model(env, [2], start="2015-01-30", end=datetime.date(2015, 1, 30) + timedelta(days=5 * delta - 1), timestep=delta, nodes=False)
    init = env.real("init", 0, 10)
    d = DelayNode(m, "d", initial_flow=init, **({"days": days} if days else {"timesteps": steps}))
    a, b = Input(m, "a"), Output(m, "b")
    a.connect(d)
    d.connect(b)
    # the solver must send exactly the fixed flow
    m.solver.fn = lambda node, t, s: (f(env, "x", t, s) if node is d.output else
                                      d.input.get_max_flow(m.scenarios.combinations[s]) if node is d.input else None)
    m.setup()
    k = steps
    for t in range(5):
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            e = f(env, "x", t - k, s) if t >= k else init
            env.eq(d.input.get_max_flow(si), e, "released at most")
            env.eq(d.input.get_min_flow(si), e, "released at least")
            env.eq(d.flow[s], e, "flow of the node is what it releases")


def mean(env, xs):
    return env.sum(xs) / len(xs)


def h_rolling(env, steps, days, delta, runs, load):
    m = wmodel(env, 5, delta)
    init = env.real("init", -10, 10)
    kw = {"days": days} if days else {"timesteps": steps}
    if load:
        p = load_parameter(m, {"type": "rollingmeanflownode", "node": "link", "initial_flow": init, **kw})
    else:
        p = RollingMeanFlowNodeParameter(m, m.nodes["link"], initial_flow=init, name="p", **kw)
    history(env, m, [p], lambda t, s: init if t == 0 else mean(env, [f(env, "link", u, s) for u in range(max(0, t - steps), t)]), 5, runs)


def h_rolling_rejected(env):
    m = wmodel(env)
    env.raises(ValueError, lambda: RollingMeanFlowNodeParameter(m, m.nodes["link"]), "a window is needed")
    m = wmodel(env, 5, 7)
    p = RollingMeanFlowNodeParameter(m, m.nodes["link"], days=3)
    env.raises(ValueError, m.setup, "rejected")


def h_rolling_parameter(env, window, func, delta=1):
    m = wmodel(env, 5, delta)
    v = Var(m, env, "v")
    kw = {} if func is None else {"temporal_agg_func": func}
    r = RollingWindowParameterRecorder(m, v, window, name="r", **kw)
    fn = {None: lambda xs: mean(env, xs), "mean": lambda xs: mean(env, xs), "sum": env.sum, "max": lambda xs: env.max(*xs) if len(xs) > 1 else xs[0],
          "min": lambda xs: env.min(*xs) if len(xs) > 1 else xs[0]}[func]
    m.setup()
    for k in range(2):
        for t in range(5):
            m.step()
            for s in range(2):
                env.eq(r.data[t, s], fn([v.at(u, s) for u in range(max(0, t - window + 1), t + 1)]), "rolling window")
                for u in range(t + 1, 5):
                    env.eq(r.data[u, s], 0, "nothing recorded ahead")
        m.reset()


def h_discount(env, load):
    d = env.date("start", 1895, 2105)
    m = model(env, [2], start=d, end=d + timedelta(days=1))
    rate = env.real("rate", 0, 1)
    k = env.int("k", -4, 4)
    base = d.year - k
    # any base year within four years of the first
    if load:
        p = load_parameter(m, {"type": "discountfactor", "rate": rate, "base_year": base})
    else:
        p = DiscountFactorParameter(m, rate, base, name="p")
    m.setup()
    for t in range(2):
        m.step()
        y = (d + timedelta(days=t)).year - base
        for si in m.scenarios.combinations:
            v = p.get_value(si)
            e = 1.0
            for j in range(1, 6):
                up, dn = 1.0, 1.0
                for _ in range(j):
                    up = up * (1 + rate)
                env.check(env.Implies(y == j, env.And(v * up < 1 + 1e-9, v * up > 1 - 1e-9)), "factor after %d years" % j)
                env.check(env.Implies(y == -j, env.And(v < up * (1 + 1e-9), v > up * (1 - 1e-9))), "factor %d years before" % j)
            env.check(env.Implies(y == 0, v == 1), "factor in the base year")


def h_storage(env, prop, load):
    """The volume at the start of the step."""
    m = model(env, [2], flow=flows(env, ["st"], -5, 5))
    st = Storage(m, "st", max_volume=1000.0, initial_volume=env.real("v0", 100, 900))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    if load:
        p = load_parameter(m, {"type": "storage", "storage_node": "st", "use_proportional_volume": prop})
    else:
        p = StorageParameter(m, st, use_proportional_volume=prop, name="p")

    def spec(t, s):
        v = env.real("v0", 100, 900) + env.sum([env.real("flow_st_%d_%d" % (u, s), -5, 5) for u in range(t)])
        return v / 1000 if prop else v
    history(env, m, [p], spec, 3, 2)


def harnesses(tier):
    deep = tier != "quick"
    out = (sweep(h_flow, over={"load": [False, True], "agg": [False, True]}) + sweep(h_deficit, over={"how": ["number", "constant", "parameter"]})
           + [task(h_deficit_recorded), task(h_delay_rejected), task(h_rolling_rejected)])
    DELAYS = [(1, 0, 1), (2, 0, 1), (3, 0, 1), (4, 0, 1), (2, 4, 2), (1, 7, 7), (3, 21, 7), (2, 0, 7)]
    for i, (a, b, c) in enumerate(DELAYS):
        out.append(task(h_delay, params=dict(steps=a, days=b, delta=c, runs=2, load=i % 2 == 1)))
        out.append(task(h_delay_node, params=dict(steps=a, days=b, delta=c)))
    for i, (a, b, c) in enumerate([(1, 0, 1), (2, 0, 1), (3, 0, 1), (4, 0, 1), (6, 0, 1), (2, 4, 2), (2, 5, 2), (1, 7, 7), (3, 21, 7), (2, 0, 7)]):
        out.append(task(h_rolling, params=dict(steps=a, days=b, delta=c, runs=2, load=i % 2 == 1)))
    for w in (1, 2, 3, 4, 6):
        for fn in (None, "sum", "max", "min", "mean"):
            if w in (2, 3) or fn in (None, "sum"):
                out.append(task(h_rolling_parameter, params=dict(window=w, func=fn)))
    out += sweep(h_discount, over={"load": [False, True]}) + sweep(h_storage, over={"prop": [False, True], "load": [False, True]})
    return out


from checks import defaults
harnesses = defaults.extend("C17", harnesses)
