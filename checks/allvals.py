"""What a node reports about its limits, costs and volumes: for one scenario, for all scenarios, as set, and as fixed."""
import numpy as np
from checks.lib import *
from pywr.nodes import AggregatedNode, AggregatedStorage
from pywr.parameters import ConstantParameter

WHAT = {
    "flow": ("C01", ["link", "group"], ["min_flow", "max_flow"]),
    "cost": ("C04", ["link", "st"], ["cost"]),
    "volume": ("C03", ["st"], ["min_volume", "max_volume"]),
}


def pick(env, m, kind, name, lo, hi):
    """-> (what to set, value in step t and scenario s)"""
    if kind == "number":
        x = env.real(name, lo, hi)
        return x, lambda t, s: x
    if kind == "constant":
        x = env.real(name, lo, hi)
        return ConstantParameter(m, x), lambda t, s: x
    p = Var(m, env, name, lo, hi)
    return p, p.at


def h_reported(env, what, kind):
    prop, names, attrs = WHAT[what]
    m = model(env, [2, 2], end="2015-01-02")
    st = Storage(m, "st", max_volume=50.0, initial_volume=25.0, initial_volume_pc=0.5)
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    other = Storage(m, "other", max_volume=30.0, min_volume=2.0, initial_volume=10.0)
    m.nodes["in"].connect(other)
    other.connect(m.nodes["out"])
    AggregatedNode(m, "group", [m.nodes["in"], m.nodes["link"]])
    agg = AggregatedStorage(m, "agg", storage_nodes=[st, other])
    at = {}
    for k, a in enumerate(attrs):
        for n in names:
            lo, hi = {"volume": [(0, 10), (40, 60)][k], "flow": [(0, 10), (40, 60)][k], "cost": (-50, 50)}[what]
            v, at[n, a] = pick(env, m, kind, "%s_%s" % (n, a), lo, hi)
            setattr(m.nodes[n], a, v)
            env.check(getattr(m.nodes[n], a) is v if kind != "number" else True, "the attribute is what was set")
            if kind == "number":
                env.eq(getattr(m.nodes[n], a), v, "the attribute is what was set")
    n = 0
    for ts in steps(m):
        t = ts.index
        S = len(m.scenarios.combinations)
        for (name, a), f in at.items():
            node = m.nodes[name]
            each = [getattr(node, "get_" + a)(si) for si in m.scenarios.combinations]
            every = getattr(node, "get_all_" + a)()
            buf = env.array([99.0] * S)
            given = getattr(node, "get_all_" + a)(buf)
            env.check(len(every) == S, "a value for each scenario")
            for s in range(S):
                env.eq(each[s], f(t, s), "%s of %s" % (a, name))
                env.eq(every[s], f(t, s), "%s of %s in all scenarios" % (a, name))
                env.eq(given[s], f(t, s), "%s of %s in all scenarios, returned" % (a, name))
                env.eq(buf[s], f(t, s), "%s of %s in all scenarios, in the array given" % (a, name))
        if what == "flow":
            l = m.nodes["link"]
            env.check(bool(l.has_fixed_flows) == (kind == "number"), "fixed flows")
            env.check(bool(l.has_constant_flows) == (kind != "parameter"), "constant flows")
            for a in attrs:
                x, c = getattr(l, "get_fixed_" + a)(), getattr(l, "get_constant_" + a)()
                if kind == "number":
                    env.eq(x, at["link", a](t, 0), "fixed " + a)
                else:
                    env.check(isnan(x), "no fixed " + a)
                if kind != "parameter":
                    env.eq(c, at["link", a](t, 0), "constant " + a)
                else:
                    env.check(isnan(c), "no constant " + a)
        if what == "cost":
            env.check(bool(st.has_fixed_cost) == (kind == "number"), "fixed cost")
            for part, sign in ((st.inputs[0], -1), (st.outputs[0], 1)):
                env.check(bool(part.has_fixed_cost) == (kind == "number"), "fixed cost of releases and fills")
                every = part.get_all_cost()
                buf = env.array([99.0] * S)
                part.get_all_cost(buf)
                for si in m.scenarios.combinations:
                    s = si.global_id
                    e = sign * at["st", "cost"](t, s)
                    env.eq(part.get_cost(si), e, "cost of releases and fills")
                    env.eq(every[s], e, "cost of releases and fills in all scenarios")
                    env.eq(buf[s], e, "cost of releases and fills in the array given")
            for name in ("group", "agg"):
                env.check(list(m.nodes[name].get_all_cost()) == [0.0] * S, "no cost")
                buf = env.array([99.0] * S)
                m.nodes[name].get_all_cost(buf)
                env.check(list(buf) == [0.0] * S, "no cost in the array given")
        if what == "volume":
            for a, add in (("min_volume", 2.0), ("max_volume", 30.0)):
                every = getattr(agg, "get_all_" + a)()
                buf = env.array([99.0] * S)
                getattr(agg, "get_all_" + a)(buf)
                for s in range(S):
                    env.eq(every[s], at["st", a](t, s) + add, "total of all scenarios")
                    env.eq(buf[s], at["st", a](t, s) + add, "total in the array given")


def isnan(x):
    return bool(np.isnan(x))


def h_commit(env, kind):
    """Flows committed for all scenarios at once are those committed one by one."""
    m = model(env, [3], end="2015-01-02")
    sts = [Storage(m, "st%d" % i, max_volume=5000.0, initial_volume=2500.0) for i in range(2)]
    links = [m.nodes["link"], Link(m, "link2")]
    m.nodes["in"].connect(links[1])
    links[1].connect(m.nodes["out"])
    for s in sts:
        m.nodes["in"].connect(s)
        s.connect(m.nodes["out"])
    get = {"link": lambda i: links[i], "storage": lambda i: sts[i], "release": lambda i: sts[i].inputs[0], "fill": lambda i: sts[i].outputs[0]}[kind]

    class Both(Solver):
        name = "both"

        def setup(self, model):
            pass

        def reset(self):
            pass

        def solve(self, model):
            t = model.timestep.index
            for k in range(2):
                q = [env.real("q_%d_%d_%d" % (t, k, s), 0, 100) for s in range(3)]
                get(0).commit_all(env.array(q))
                for s in range(3):
                    get(1).commit(s, q[s])
    m.solver = Both()
    sign = {"link": 0, "storage": 1, "release": -1, "fill": 1}[kind]
    tot = [0.0] * 3
    for ts in steps(m):
        for s in range(3):
            q = env.real("q_%d_0_%d" % (ts.index, s), 0, 100) + env.real("q_%d_1_%d" % (ts.index, s), 0, 100)
            env.eq(get(0).flow[s], q, "flow committed at once")
            env.eq(get(1).flow[s], q, "flow committed one by one")
            tot[s] = tot[s] + sign * q
            if sign:
                for x in sts:
                    env.eq(x.flow[s], sign * q, "net flow of the storage")
                    env.eq(x.volume[s], 2500.0 + tot[s], "volume of the storage")


def tasks(prop):
    out = [task(h_reported, name="reported(%s,%s)" % (w, k), params=dict(what=w, kind=k)) for w, r in WHAT.items() if r[0] == prop
           for k in ("number", "constant", "parameter")]
    if prop == "C02":
        out += [task(h_commit, name="committed(%s)" % k, params=dict(kind=k)) for k in ("link", "storage", "release", "fill")]
    return out


def extend(prop, harnesses):
    return lambda tier: list(harnesses(tier)) + tasks(prop)
