"""C22: compound nodes behave as the single element they stand for."""
from checks.lpnet import *
from checks.lib import *
from pywr.nodes import (PiecewiseLink, MultiSplitLink, BreakLink, LossLink, DelayNode, Storage, AggregatedNode,
                        RiverGauge, RiverSplit, RiverSplitWithGauge, River)
from pywr.domains.river import Reservoir
from pywr.parameters import ConstantParameter

BOUNDS = "one or two compound nodes between up to 3 inputs and 3 outputs, up to 3 parts, 2 scenarios, 1-3 time-steps"
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution"]
OUTSIDE = ["ratios and losses below 0.05 other than zero"]


class Attrs:
    def __init__(self, env, m, probe):
        self.env, self.m, self.probe, self.of = env, m, probe, {}

    def __call__(self, name, spec="C", lo=0, hi=100, probe=1.0):
        if self.probe:
            return ConstantParameter(self.m, probe, name="const " + name) if spec in "KP" else probe
        if spec == "P":
            v = Var(self.m, self.env, name, lo, hi)
            self.of[name] = v.at
            return v
        x = self.env.real(name, lo, hi)
        self.of[name] = lambda t, s: x
        return ConstantParameter(self.m, x, name="const " + name) if spec == "K" else x


class Case:
    """A small network around a compound node.  build(m, A) -> {visible name: node}; routes: tuples of visible names;
    rules(v, f) -> [(label, 'eq' or 'le', a, b)]; cost(v, f)."""
    routes = ()
    stores = ()

    def __init__(self, spec="C", doc=False):
        self.spec, self.doc = spec, doc

    def build(self, env, m, probe=False):
        self.A = Attrs(env, m, probe)
        self.objs = self.make(m, self.A)
        return self.objs

    def advance(self, env, t, probe):
        pass

    def physical(self):
        return list(self.parts)

    def v(self, t, s):
        return lambda name: self.A.of[name](t, s)

    def ends(self, m, ins, outs):
        o = {}
        for n in ins:
            o[n] = Input(m, n, max_flow=self.A("%s.max" % n), cost=self.A("%s.cost" % n, lo=-50, hi=50))
        for n in outs:
            o[n] = Output(m, n, max_flow=self.A("%s.max" % n), cost=self.A("%s.cost" % n, lo=-50, hi=50))
        return o

    def endrules(self, v, f, ins, outs):
        return [("maximum flow of %s" % n, "le", f(n), v("%s.max" % n)) for n in ins + outs]

    def endcost(self, v, f, ins, outs):
        return [v("%s.cost" % n) * f(n) for n in ins + outs]


def document(m, A, cls, **data):
    """The node from its description in a document (parameters by name)."""
    def ref(x):
        if isinstance(x, Parameter):
            return x.name
        return [ref(y) for y in x] if isinstance(x, list) else x
    o = cls.pre_load(m, {k: ref(x) for k, x in data.items()})
    o.finalise_load()
    return o


def made(m, case, A, cls, **data):
    if case.doc:
        return document(m, A, cls, **data)
    return cls(m, **data)


def sums(f, names):
    r = 0.0
    for n in names:
        r = r + f(n)
    return r


class Piecewise(Case):
    """Two inputs -> piecewise link of three parts -> two outputs."""
    compounds = ("pl",)
    ins, outs, subs = ["a", "b"], ["x", "y"], ["p0", "p1", "p2"]
    parts = ins + outs + subs
    routes = [(i, p, o) for i in "ab" for p in ("p0", "p1", "p2") for o in "xy"]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        pl = made(m, self, A, PiecewiseLink, name="pl", nsteps=3, costs=[A("c%d" % i, k, -50, 50) for i in range(3)],
                           max_flows=[A("m0", k), A("m1", k), None])
        for n in self.ins:
            o[n].connect(pl)
        for n in self.outs:
            pl.connect(o[n])
        o["pl"] = pl
        for n, x in zip(self.subs, pl.sublinks):
            o[n] = x
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("limit of part 0", "le", f("p0"), v("m0")), ("limit of part 1", "le", f("p1"), v("m1")),
            ("inflow is the sum of the parts", "eq", sums(f, self.ins), sums(f, self.subs)),
            ("outflow is the sum of the parts", "eq", sums(f, self.outs), sums(f, self.subs))]

    def whole(self, v, f):
        return {"pl": sums(f, self.subs)}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("c%d" % i) * f("p%d" % i) for i in range(3)]


class Gauge(Case):
    """An input -> river gauge -> an output; set by keyword or later."""
    ins, outs, subs = ["a"], ["x"], ["p0", "p1"]
    parts = ins + outs + subs
    routes = [("a", "p0", "x"), ("a", "p1", "x")]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        if k == "S":
            g = made(m, self, A, RiverGauge, name="g", mrf=3.0, mrf_cost=4.0, cost=5.0)
            g.mrf, g.mrf_cost, g.cost = A("mrf"), A("mrf_cost", "C", -50, 50), A("gcost", "C", -50, 50)
        else:
            g = made(m, self, A, RiverGauge, name="g", mrf=A("mrf", k), mrf_cost=A("mrf_cost", k, -50, 50), cost=A("gcost", k, -50, 50))
        o["a"].connect(g)
        g.connect(o["x"])
        o["g"] = g
        o["p0"], o["p1"] = g.sublinks
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("residual flow", "le", f("p0"), v("mrf")),
            ("inflow", "eq", f("a"), sums(f, self.subs)), ("outflow", "eq", f("x"), sums(f, self.subs))]

    def whole(self, v, f):
        return {"g": sums(f, self.subs)}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("mrf_cost") * f("p0"), v("gcost") * f("p1")]


class Split(Case):
    """A multi-split link with named slots."""
    ins, outs = ["a"], ["x", "y", "z"]
    subs = ["p0", "p1", "p2"]
    parts = ins + outs + subs
    routes = [("a", "p0", "x"), ("a", "p1", "x"), ("a", "p1", "y"), ("a", "p2", "x"), ("a", "p2", "z")]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        fs = [A("f%d" % i, "C" if k == "C" else "K", 0.125, 4) for i in range(3)]
        self.none = k == "N"
        if self.none:
            fs[1] = None
        r = made(m, self, A, RiverSplit, name="g", factors=fs, slot_names=["main", "left", "right"], costs=[A("gc", "C", -50, 50)],
                       max_flows=[A("gm", "C")])
        o["a"].connect(r)
        # not in the order of the slots
        r.connect(o["z"], from_slot="right")
        r.connect(o["x"], from_slot="main")
        r.connect(o["y"], from_slot="left")
        o["g"] = r
        o["p0"], o["p1"], o["p2"] = r.sublinks
        return o

    def rules(self, v, f):
        out = self.endrules(v, f, self.ins, self.outs) + [
            ("inflow", "eq", f("a"), sums(f, self.subs)), ("outflow", "eq", sums(f, self.outs), sums(f, self.subs)),
            ("limit of the main part", "le", f("p0"), v("gm")),
            ("left slot", "le", f("y"), f("p1")), ("right slot", "le", f("z"), f("p2"))]
        for i in (1, 2):
            if i != 1 or not self.none:
                out.append(("ratio %d" % i, "eq", f("p%d" % i) * v("f0"), f("p0") * v("f%d" % i)))
        return out

    def whole(self, v, f):
        return {"g": sums(f, self.subs)}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("gc") * f("p0")]


class Multi(Case):
    """A multi-split link of two parts and one extra slot, without factors."""
    ins, outs = ["a"], ["x", "y"]
    subs = ["p0", "p1", "p2"]
    parts = ins + outs + subs
    routes = [("a", "p0", "x"), ("a", "p1", "x"), ("a", "p2", "x"), ("a", "p2", "y")]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        r = made(m, self, A, MultiSplitLink, name="g", nsteps=2, costs=[A("c0", k, -50, 50), A("c1", k, -50, 50)], max_flows=[A("m0", k), A("m1", k)])
        o["a"].connect(r)
        r.connect(o["x"], from_slot=0)
        r.connect(o["y"], from_slot=1)
        o["g"] = r
        o["p0"], o["p1"], o["p2"] = r.sublinks
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("inflow", "eq", f("a"), sums(f, self.subs)), ("outflow", "eq", sums(f, self.outs), sums(f, self.subs)),
            ("limit of part 0", "le", f("p0"), v("m0")), ("limit of part 1", "le", f("p1"), v("m1")),
            ("extra slot", "le", f("y"), f("p2"))]

    def whole(self, v, f):
        return {"g": sums(f, self.subs)}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("c0") * f("p0"), v("c1") * f("p1")]


class SplitGauge(Case):
    """A split with a residual flow outside the ratio."""
    ins, outs = ["a"], ["x", "y"]
    subs = ["p0", "p1", "p2"]
    parts = ins + outs + subs
    routes = [("a", "p0", "x"), ("a", "p1", "x"), ("a", "p2", "x"), ("a", "p2", "y")]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        fs = [A("f%d" % i, "C", 0.125, 4) for i in range(2)]
        args = lambda: (A("mrf", k), A("mrf_cost", k, -50, 50), A("gcost", k, -50, 50))
        if k == "P":
            g = made(m, self, A, RiverSplitWithGauge, name="g", factors=fs, slot_names=["river", "take"])
            g.mrf, g.mrf_cost, g.cost = args()
        else:
            a, b, c = args()
            g = made(m, self, A, RiverSplitWithGauge, name="g", factors=fs, slot_names=["river", "take"], mrf=a, mrf_cost=b, cost=c)
        o["a"].connect(g)
        g.connect(o["x"], from_slot="river")
        g.connect(o["y"], from_slot="take")
        o["g"] = g
        o["p0"], o["p1"], o["p2"] = g.sublinks
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("inflow", "eq", f("a"), sums(f, self.subs)), ("outflow", "eq", sums(f, self.outs), sums(f, self.subs)),
            ("residual flow", "le", f("p0"), v("mrf")), ("take", "le", f("y"), f("p2")),
            ("ratio", "eq", f("p2") * v("f0"), f("p1") * v("f1"))]

    def whole(self, v, f):
        return {"g": sums(f, self.subs)}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("mrf_cost") * f("p0"), v("gcost") * f("p1")]


class Break(Case):
    """Two inputs -> break link -> two outputs."""
    ins, outs = ["a", "b"], ["x", "y"]
    parts = ins + outs + ["l"]
    routes = [(i, "l", o) for i in "ab" for o in "xy"]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        if k == "P":
            g = made(m, self, A, BreakLink, name="g")
            g.min_flow, g.max_flow, g.cost = A("mn", k, 0, 50), A("mx", k), A("c", k, -50, 50)
        else:
            g = made(m, self, A, BreakLink, name="g", min_flow=A("mn", k, 0, 50), max_flow=A("mx", k), cost=A("c", k, -50, 50))
        for n in self.ins:
            o[n].connect(g)
        for n in self.outs:
            g.connect(o[n])
        o["g"], o["l"] = g, g.link
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("inflow", "eq", sums(f, self.ins), f("l")), ("outflow", "eq", sums(f, self.outs), f("l")),
            ("minimum", "le", v("mn"), f("l")), ("maximum", "le", f("l"), v("mx"))]

    def whole(self, v, f):
        return {"g": f("l")}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("c") * f("l")]


class Loss(Case):
    """An input -> loss link -> an output, beside a plain route."""
    ins, outs = ["a"], ["x", "y"]
    parts = ins + outs + ["gross", "net", "lost"]
    routes = [("a", "gross", "net", "x"), ("a", "gross", "lost"), ("a", "y")]

    def __init__(self, spec="C", kind="net", doc=False):
        self.spec, self.kind, self.doc = spec, kind, doc

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        k = self.spec
        kw = {"loss_factor_type": "gross"} if self.kind == "gross" else {}
        k2 = "C" if self.kind == "gross" else k
        g = made(m, self, A, LossLink, name="g", loss_factor=A("lf", k2, 0, 1 if self.kind == "gross" else 3, probe=0.5),
                     min_flow=A("mn", k, 0, 20), max_flow=A("mx", k), cost=A("c", k, -50, 50), **kw)
        o["a"].connect(g)
        g.connect(o["x"])
        o["a"].connect(o["y"])
        for t, s in [(0, 0)] if k2 != "P" else [(t, s) for t in range(2) for s in range(2)]:
            if A.probe:
                break
            lf = A.of["lf"](t, s)
            A.env.assume(A.env.Or(lf == 0, A.env.And(lf >= 0.05, A.env.Or(self.kind != "gross", lf == 1, lf <= 0.95))))
        o.update(g=g, gross=g.gross, net=g.net, lost=g.output)
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("minimum", "le", v("mn"), f("net")), ("maximum", "le", f("net"), v("mx")),
            ("inflow", "eq", f("a"), f("gross") + f("y")), ("delivered and lost", "eq", f("gross"), f("net") + f("lost")),
            ("outflow", "eq", f("x"), f("net")),
            ("share lost", "eq", f("lost"), v("lf") * f("gross" if self.kind == "gross" else "net"))]

    def whole(self, v, f):
        return {"g": f("net")}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("c") * f("net")]


class Chain(Case):
    """A piecewise link, a break link and a loss link in series."""
    ins, outs = ["a"], ["x"]
    parts = ins + outs + ["p0", "p1", "l", "gross", "net", "lost"]
    routes = [("a", p, "l", "gross") + e for p in ("p0", "p1") for e in (("net", "x"), ("lost",))]

    def make(self, m, A):
        o = self.ends(m, self.ins, self.outs)
        pl = made(m, self, A, PiecewiseLink, name="pl", nsteps=2, costs=[A("c0", "C", -50, 50), A("c1", "K", -50, 50)], max_flows=[A("m0", "P"), None])
        bl = BreakLink(m, "bl", max_flow=A("mx", "P"))
        ll = LossLink(m, "ll", loss_factor=A("lf", "C", 0.125, 1, probe=0.5))
        o["a"].connect(pl)
        pl.connect(bl)
        bl.connect(ll)
        ll.connect(o["x"])
        o.update(pl=pl, bl=bl, ll=ll, p0=pl.sublinks[0], p1=pl.sublinks[1], l=bl.link, gross=ll.gross, net=ll.net, lost=ll.output)
        return o

    def rules(self, v, f):
        return self.endrules(v, f, self.ins, self.outs) + [
            ("limit of part 0", "le", f("p0"), v("m0")), ("maximum", "le", f("l"), v("mx")),
            ("into the parts", "eq", f("a"), f("p0") + f("p1")), ("out of the parts", "eq", f("a"), f("l")),
            ("through the break", "eq", f("l"), f("gross")),
            ("delivered and lost", "eq", f("gross"), f("net") + f("lost")), ("share lost", "eq", f("lost"), v("lf") * f("net")),
            ("outflow", "eq", f("x"), f("net"))]

    def whole(self, v, f):
        return {"pl": f("p0") + f("p1"), "bl": f("l"), "ll": f("net")}

    def cost(self, v, f):
        return self.endcost(v, f, self.ins, self.outs) + [v("c0") * f("p0"), v("c1") * f("p1")]


def compound_sound(env, case, solver, nsteps=1, timestep=1):
    r = LPRun(env, case, solver, (2,), nsteps, timestep)

    def answer(t, s, lp):
        xs = env.feasible_point(lp, "%d_%d" % (t, s))
        used = set()
        for row in lp.rows[1:]:
            used |= set(row or ())
        for j in range(1, lp.ncols + 1):
            env.assume(xs[j] <= 1000)
            if j not in used:
                env.assume(xs[j] == 0)
        return xs
    for t in r.go(answer):
        for s in range(r.n):
            f = lambda n: r.flow(n, s)
            v = case.v(t, s)
            for lab, how, a, b in case.rules(v, f):
                if how == "eq":
                    env.eq(a, b, lab, 1e-5)
                else:
                    env.le(a, b, lab, 2e-6)
            for n in case.parts:
                env.le(0.0, f(n), "flow of %s is not negative" % n)
            for n, e in case.whole(v, f).items():
                env.eq(f(n), e, "flow of the compound node %s" % n, 1e-5)
                env.eq(r.objs[n].prev_flow[s], e, "flow of %s kept for the next step" % n, 1e-5)


def column_sets(env, case, solver):
    """For each column of the problem, the nodes (by position in the model's graph) whose flow it is part of; and for each
    described route the positions of the nodes along it."""
    r = LPRun(env, case, solver, scenarios=(), nsteps=1, probe=True)
    n = []

    def first(t, s, lp):
        n.append(lp.ncols)
        return [None] + [0.0] * lp.ncols
    for _ in r.go(first):
        pass
    r = LPRun(env, case, solver, scenarios=(), nsteps=n[0], probe=True)
    cols = [None]
    graph = r.m.graph
    pos = {x: i for i, x in enumerate(graph.nodes())}
    for t in r.go(lambda t, s, lp: [None] + [1.0 if j == t else 0.0 for j in range(n[0])]):
        cols.append({i for x, i in pos.items() if hasattr(x, "flow") and float(x.flow[0]) != 0})
    names = {id(r.objs[p]): p for p in case.parts}
    starts = [r.objs[x] for x in case.ins]
    ways = {}

    def walk(path):
        nxt = [y for y in graph.successors(path[-1]) if y not in path]
        if not nxt and getattr(path[-1], "parent", None) is not None:
            nxt = [y for y in getattr(path[-1].parent, "inputs", []) if y not in path]     # out of a storage again
        if not nxt:
            ways.setdefault(frozenset(names[id(x)] for x in path if id(x) in names), []).append({pos[x] for x in path})
        for y in nxt:
            walk(path + [y])
    for x in starts:
        walk([x])
    want = {frozenset(p) for p in case.routes}
    env.check(set(ways) == want, "the routes are those described: %s" % sorted(map(sorted, set(ways) ^ want)))
    env.check(all(len(x) == 1 for x in ways.values()), "one way for each described route")
    walked = set().union(*[w for ws in ways.values() for w in ws])
    cols = [None] + [c & walked for c in cols[1:]]
    env.check(all(cols[1:]), "every decision of the problem is the flow of some node")
    return cols, [ways[frozenset(p)][0] for p in case.routes]


def compound_complete(env, case, solver, nsteps=1, timestep=1):
    cols, ways = column_sets(env, case, solver)
    r = LPRun(env, case, solver, (2,), nsteps, timestep)
    F, free = {}, {}

    def answer(t, s, lp):
        fr = [env.real("f_%d_%d_%d" % (t, s, i), 0, 50) for i in range(len(case.routes))]
        f = lambda n: env.sum(x for x, p in zip(fr, case.routes) if n in p)
        F[t, s] = f
        for lab, how, a, b in case.rules(case.v(t, s), f):
            env.assume(a <= b if how == "le" else env.abs(a - b) <= 1e-9)
        rows = set()
        for row in lp.rows[1:]:
            rows |= set(row or ())
        free[t, s] = [j for j in range(1, lp.ncols + 1) if j not in rows]
        return [None] + [env.sum(x for x, w in zip(fr, ways) if used <= w) if j + 1 in rows else 0.0
                         for j, used in enumerate(cols[1:])]
    for t in r.go(answer):
        for s in range(r.n):
            lp, xs, f, v = r.lps[s], r.points[s], F[t, s], case.v(t, s)
            for nm, c in lp_ok(env, lp, xs):
                env.check(c, "the posed problem admits the allocation (%s)" % nm)
            for n in case.parts:
                env.eq(r.flow(n, s), f(n), "reported flow of %s" % n)
            for n, e in case.whole(v, f).items():
                env.eq(r.flow(n, s), e, "reported flow of %s" % n)
            env.check(lp.dir == 1, "minimises")
            for j in free[t, s]:
                env.le(0.0, lp.obj[j], "cost of a decision outside every constraint")
            for p, w in zip(case.routes, ways):
                got = env.sum(lp.obj[j] for j in range(1, lp.ncols + 1) if cols[j] <= w and j not in free[t, s])
                want = env.sum(case.cost(v, lambda n: 1.0 if n in p else 0.0))
                env.eq(got, want, "cost of the route %s" % "-".join(p), 1e-6)


def h_case(env, case, mode, solver, spec="C", nsteps=1, **kw):
    c = CASES[case](spec, **kw)
    (compound_sound if mode == "sound" else compound_complete)(env, c, solver, nsteps)


def h_reservoir(env, curve):
    """A reservoir's cost changes at its control curve (at its capacity when none is given)."""
    m = model(env, [2], flow=flows(env, ["in", "out"], 0, 20))
    above, below = env.real("above", -50, 50), env.real("below", -50, 50)
    kw = {}
    if curve == "number":
        kw["control_curve"] = env.real("curve", 0, 1)
    elif curve == "parameter":
        kw["control_curve"] = Var(m, env, "curve", 0, 1)
    r = Reservoir(m, "res", max_volume=100.0, initial_volume=env.real("v0", 0, 100), above_curve_cost=above, cost=below, **kw)
    m.nodes["in"].connect(r)
    r.connect(m.nodes["out"])
    pc = [env.real("v0", 0, 100) / 100.0] * 2
    for ts in steps(m, 2):
        for s, si in enumerate(m.scenarios.combinations):
            c = 1.0 if curve is None else kw["control_curve"].at(ts.index, s) if curve == "parameter" else kw["control_curve"]
            e = env.ite(pc[s] >= c, above, below)
            env.eq(r.get_cost(si), e, "cost of the reservoir")
        pc = [r.volume[s] / 100.0 for s in range(2)]
    q = Reservoir(m, "plain", max_volume=10.0, initial_volume=1.0, cost=below)
    env.eq(q.get_cost(m.scenarios.combinations[0]), below, "cost without a curve")
    env.raises(ValueError, lambda: Reservoir(m, "both", max_volume=10.0, initial_volume=1.0, above_curve_cost=above,
                                             cost=ConstantParameter(m, below)), "two ways to give the cost")


def h_reject(env):
    m = model(env, [])
    m.setup()
    si = m.scenarios.combinations[0]
    R = lambda exc, fn, what: env.raises(exc, fn, what)
    R(ValueError, lambda: PiecewiseLink(m, name="p1", nsteps=2, costs=[1.0]), "too few costs")
    R(ValueError, lambda: PiecewiseLink(m, name="p2", nsteps=2, max_flows=[1.0, 2.0, 3.0]), "too many limits")
    R(ValueError, lambda: MultiSplitLink(m, name="p3", nsteps=1, extra_slots=0), "no extra slot")
    R(ValueError, lambda: MultiSplitLink(m, name="p4", nsteps=1, extra_slots=2, slot_names=["a", "b"]), "too few slot names")
    R(ValueError, lambda: MultiSplitLink(m, name="p5", nsteps=1, extra_slots=1, factors=[1, 2, 3]), "too many factors")
    g = MultiSplitLink(m, name="g", nsteps=1, extra_slots=1, slot_names=["a", "b"])
    R(ValueError, lambda: g.connect(m.nodes["out"], from_slot="c"), "no such slot")
    env.eq(g.get_max_flow(si), inf, "unlimited")
    a, b = env.real("a", 0, 100), env.real("b", 0, 100)
    p = PiecewiseLink(m, name="p", nsteps=2, costs=[1.0, 2.0], max_flows=[a, b])
    env.eq(p.get_max_flow(si), a + b, "limit of the whole")
    env.eq(p.get_min_flow(si), 0.0, "minimum of the whole")
    env.check(p.costs == [1.0, 2.0], "costs read back")
    env.eqs(p.max_flows, [a, b], "limits read back")
    m = model(env, [])
    l = LossLink(m, name="l", loss_factor=0.5, loss_factor_type="net of tax")
    m.nodes["in"].connect(l)
    l.connect(m.nodes["out"])
    R(ValueError, m.setup, "unknown kind of loss")


CASES = dict(piecewise=Piecewise, gauge=Gauge, split=Split, multi=Multi, splitgauge=SplitGauge, brk=Break, loss=Loss, chain=Chain)


def harnesses(tier):
    out = [task(h_reject)] + sweep(h_reservoir, over=dict(curve=[None, "number", "parameter"]))
    if tier == "thorough":
        for mode in ("sound", "complete"):
            for sv in ("route", "edge", "route-unsafe", "edge-unsafe", "route-once", "edge-once"):
                for case in CASES:
                    out.append(task(h_case, params=dict(case=case, mode=mode, solver=sv, spec="P" if case not in ("chain", "gauge", "split", "loss") else "C", nsteps=3)))
    for mode in ("sound", "complete"):
        for sv in ("route", "edge"):
            for case, spec, kw in (("piecewise", "C", {}), ("piecewise", "P", {}), ("gauge", "S", {}), ("gauge", "P", {}),
                                   ("split", "C", {}), ("split", "K", {}), ("split", "N", {}), ("multi", "C", {}), ("multi", "K", {}),
                                   ("splitgauge", "C", {}), ("splitgauge", "P", {}), ("brk", "C", {}), ("brk", "P", {}),
                                   ("loss", "C", {}), ("loss", "C", dict(kind="gross")), ("loss", "P", dict(nsteps=2)), ("loss", "K", {}), ("chain", "C", {})):
                out.append(task(h_case, params=dict(case=case, mode=mode, solver=sv, spec=spec, **kw)))
            for case in CASES:
                if case not in ("chain",):
                    out.append(task(h_case, params=dict(case=case, mode=mode, solver=sv, spec="K" if case not in ("gauge", "split", "splitgauge") else "C", doc=True)))
    return out


from checks import compounds, nodedefaults
harnesses = compounds.more("C22", nodedefaults.extend("C22", harnesses))
