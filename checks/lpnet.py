"""Declarative small networks with symbolic data, an independent statement of what the allocation
must satisfy, and the two directions of the LP check:
  sound     every point of the LP the solver poses gives an allocation that satisfies the statement;
  complete  every allocation that satisfies the statement is a point of the posed LP with the stated cost.
"""
from fractions import Fraction

from checks.lib import *
from pywr.nodes import (AggregatedNode, VirtualStorage, RollingVirtualStorage, AnnualVirtualStorage,
                        AggregatedStorage)
from pywr.core import Domain
from pywr.model import ModelStructureError
from pywr.parameters import ConstantParameter

inf = float("inf")
# numeric range of a symbolic value by attribute
RANGES = {"min_flow": (0, 50), "max_flow": (0, 100), "cost": (-50, 50), "min_volume": (0, 50),
          "max_volume": (50, 200), "initial_volume": (0, 200), "factor": (0.125, 8), "weight": (0.125, 8),
          "conversion_factor": (0.125, 8), "initial_volume_pc": (0, 1)}


class Net:
    """nodes: {name: (kind, {attr: spec})}; spec is a number, 'C' (arbitrary scalar), 'K' (arbitrary
    ConstantParameter), 'P' (arbitrary parameter of step and scenario), 'S' (a number set anew before each step),
    'T' (a number replaced by a parameter) or 'U' (a parameter replaced by a number; see `edited`)."""

    def __init__(self, nodes, edges, **kw):
        self.nodes, self.edges = nodes, edges
        self.kw = kw
        self.fixed = None
        self.swap = False

    # ---- values
    def const(self, env, name, attr, rng=None):
        lo, hi = rng or RANGES[attr.split("#")[0]]
        return env.real("%s.%s" % (name, attr), lo, hi)

    def value(self, env, name, attr, t, s, default=None):
        spec = self.nodes[name][1].get(attr, default)
        return self.resolve(env, name, attr, spec, t, s)

    def resolve(self, env, name, attr, spec, t, s):
        if spec in ("C", "K"):
            return self.const(env, name, attr)
        if spec == "N":
            return self.const(env, name, attr, (-8, -0.125))
        if spec == "P":
            return self.vars[(name, attr)].at(t, s)
        if spec in ("T", "U"):
            if (t == 0) == (spec == "T"):
                return self.const(env, name, attr + ("" if spec == "T" else "@number"), RANGES[attr.split("#")[0]])
            return self.vars[(name, attr)].at(0, s)
        if spec == "S":
            return self.const(env, name, attr) if t == 0 else self.const(env, name, "%s@%d" % (attr, t), RANGES[attr.split("#")[0]])
        return spec

    def advance(self, env, t, probe):
        """Before step t: set the numbers that change from step to step."""
        if probe or self.fixed is not None or t == 0:
            return
        for n, (kind, attrs) in self.nodes.items():
            for a, spec in attrs.items():
                if isinstance(spec, str) and spec == "S":
                    setattr(self.objs[n], a, self.value(env, n, a, t, 0))

    def replace(self, env, m, kws):
        """Every attribute held something of another kind before its value was set."""
        for n, kw in kws.items():
            o = self.objs[n]
            for a, v in kw.items():
                if a not in ("min_flow", "max_flow", "cost", "min_volume", "max_volume"):
                    continue
                decoy = 7.0 if isinstance(v, Parameter) else ConstantParameter(m, 7.0, name="decoy %s.%s" % (n, a))
                setattr(o, a, decoy)
                setattr(o, a, v)
                g = getattr(o, a)
                if isinstance(v, Parameter) or isinstance(g, Parameter):
                    env.check(g is v, "an attribute reads back as it was set")
                else:
                    env.eq(g, v, "an attribute reads back as it was set")

    def arg(self, env, m, name, attr, spec, probe):
        if not isinstance(spec, str):
            return spec
        if self.fixed is not None:
            fixed = self.fixed
            return fixed(name, attr, spec)
        lo, hi = RANGES[attr.split("#")[0]]
        if probe:
            v = 1.0
            return ConstantParameter(m, v, name="%s.%s" % (name, attr)) if spec in "KP" else v
        if spec in ("C", "S", "N"):
            return self.const(env, name, attr, (-8, -0.125) if spec == "N" else None)
        if spec == "K":
            return ConstantParameter(m, self.const(env, name, attr), name="%s.%s" % (name, attr))
        v = Var(m, env, "%s.%s" % (name, attr), lo, hi)
        self.vars[(name, attr)] = v
        return self.const(env, name, attr) if spec == "T" else v

    # ---- building
    def build(self, env, m, probe=False):
        self.vars = {}
        objs = self.objs = {}
        doms = {}
        kws = {}
        order = sorted(self.nodes, key=lambda n: self.nodes[n][0] in ("agg", "virtual", "rolling", "aggstorage"))
        for name in order:
            kind, attrs = self.nodes[name]
            kw = {}
            for a, spec in attrs.items():
                if a in ("nodes", "factors", "flow_weights", "domain", "storage_nodes", "timesteps", "mode"):
                    continue
                kw[a] = self.arg(env, m, name, a, spec, probe)
            kws[name] = dict(kw)
            if "domain" in attrs:
                d = attrs["domain"]
                kw["domain"] = doms.setdefault(d, Domain(d))
            if kind == "input":
                objs[name] = Input(m, name, **kw)
            elif kind == "output":
                objs[name] = Output(m, name, **kw)
            elif kind == "link":
                objs[name] = Link(m, name, **kw)
            elif kind == "storage":
                objs[name] = Storage(m, name, **kw)
            elif kind in ("virtual", "rolling"):
                fs = attrs.get("factors")
                fs = None if fs is None else [self.arg(env, m, name, "factor#%d" % i, f, probe)
                                              for i, f in enumerate(fs)]
                cls = VirtualStorage if kind == "virtual" else RollingVirtualStorage
                if kind == "rolling":
                    kw["timesteps"] = attrs["timesteps"]
                objs[name] = cls(m, name, [objs[n] for n in attrs["nodes"]], factors=fs, **kw)
            elif kind == "agg":
                ws = attrs.get("flow_weights")
                if ws is not None:
                    ws = [self.arg(env, m, name, "weight#%d" % i, w, probe) for i, w in enumerate(ws)]
                ag = AggregatedNode(m, name, [objs[n] for n in attrs["nodes"]], flow_weights=ws)
                for a in ("min_flow", "max_flow"):
                    if a in kw:
                        setattr(ag, a, kw[a])
                if "factors" in attrs:
                    ag.factors = [self.arg(env, m, name, "factor#%d" % i, f, probe)
                                  for i, f in enumerate(attrs["factors"])]
                objs[name] = ag
            elif kind == "aggstorage":
                objs[name] = AggregatedStorage(m, name, [objs[n] for n in attrs["storage_nodes"]])
        slots = self.kw.get("slots", {})
        for a, b in self.edges:
            out, into = slots.get((a, b), (None, None))
            if (a, b) in slots:
                for nodes, slot in ((objs[a], out), (objs[b], into)):
                    if slot is not None and not probe:
                        env.raises(ValueError, lambda: objs[a].connect(objs[b]), "which of several sub-nodes has to be said")
                objs[a].connect(objs[b], from_slot=out, to_slot=into)
            else:
                objs[a].connect(objs[b])
        if self.swap and not probe:
            self.replace(env, m, kws)
        return objs

    # ---- independent structure
    def kind(self, n):
        return self.nodes[n][0]

    def dom(self, n):
        return self.nodes[n][1].get("domain", "")

    def paths(self):
        """All paths from a source (input or storage) to a sink (output or storage) within a domain."""
        out = []
        succ = {}
        for a, b in self.edges:
            if self.dom(a) == self.dom(b):
                succ.setdefault(a, []).append(b)

        def walk(p):
            for b in succ.get(p[-1], []):
                k = self.kind(b)
                if b in p[1:] or (b == p[0] and k != "storage"):
                    continue
                if k in ("output", "storage"):
                    out.append(tuple(p + [b]))
                elif k == "link":
                    walk(p + [b])
        for n in self.nodes:
            if self.kind(n) in ("input", "storage"):
                walk([n])
        return out

    def crossings(self):
        return [(a, b) for a, b in self.edges if self.dom(a) != self.dom(b)]

    def incidence(self, n, paths):
        """Coefficient of each path in the flow of node n (storage: net inflow)."""
        k = self.kind(n)
        if k == "storage":
            return [(1 if p[-1] == n else 0) - (1 if p[0] == n else 0) for p in paths]
        return [1 if n in p else 0 for p in paths]

    def physical(self):
        return [n for n in self.nodes if self.kind(n) in ("input", "link", "output", "storage")]


def nullspace(rows):
    """Integer-ish vectors y with y.rows == 0 (rows: list of integer lists)."""
    n = len(rows)
    a = [[Fraction(x) for x in r] + [Fraction(1 if i == j else 0) for j in range(n)] for i, r in enumerate(rows)]
    m = len(rows[0])
    r = 0
    for c in range(m):
        p = next((i for i in range(r, n) if a[i][c] != 0), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        for i in range(n):
            if i != r and a[i][c] != 0:
                f = a[i][c] / a[r][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[r])]
        r += 1
    return [row[m:] for row in a[r:]]


SOLVERS = {
    "route": ("glpk", {}),
    "edge": ("glpk-edge", {}),
    "route-unsafe": ("glpk", dict(use_unsafe_api=True)),
    "edge-unsafe": ("glpk-edge", dict(use_unsafe_api=True)),
    "route-once": ("glpk", dict(set_fixed_flows_once=True, set_fixed_costs_once=True, set_fixed_factors_once=True)),
    "edge-once": ("glpk-edge", dict(set_fixed_flows_once=True, set_fixed_costs_once=True,
                                    set_fixed_factors_once=True)),
}


def make_solver(name):
    from pywr import solvers
    want, kw = SOLVERS[name]
    for cls in solvers.solver_registry:
        if cls.name == want:
            return cls(**kw)
    raise RuntimeError("solver %s not available" % want)


class LPRun:
    """A model of `net` whose every simplex call is answered by `answer(k, lp)` -> columns (1-based)."""

    def __init__(self, env, net, solver, scenarios=(2,), nsteps=1, timestep=1, probe=False, start="2015-01-01"):
        import datetime
        self.env, self.net = env, net
        d0 = datetime.date.fromisoformat(start)
        end = d0 + datetime.timedelta(days=timestep * nsteps - 1)
        self.m = m = Model(start=start, end=end.isoformat(), timestep=timestep)
        for i, n in enumerate(scenarios):
            Scenario(m, "s%d" % i, size=n)
        if scenarios:
            m.scenarios.user_combinations = combos(scenarios)
        self.objs = net.build(env, m, probe)
        self.probe = probe
        m.solver = make_solver(solver)
        self.days = timestep
        self.nsteps = nsteps
        self.lps = []
        self.points = []

    def go(self, answer):
        """Step through; yields t after each step, with self.lps[-n:] the posed problems per scenario."""
        m = self.m
        m.setup()
        self.n = len(m.scenarios.combinations)
        for t in range(self.nsteps):
            self.lps, self.points = [], []

            def hook(lp):
                lp = lp.snapshot()
                s = len(self.lps)
                self.lps.append(lp)
                r = answer(t, s, lp)
                if isinstance(r, tuple):
                    return r
                self.points.append(r)
                return 0, 5, r
            self.net.advance(self.env, t, self.probe)
            self.env.on_simplex(hook)
            try:
                m.step()
            finally:
                self.env.on_simplex(None)
            self.env.check(len(self.lps) == self.n, "one problem per scenario")
            yield t

    def flow(self, n, s):
        return self.objs[n].flow[s]


_MAPS = {}


def column_map(env, net, solver):
    """For each LP column the node flows one unit of it yields (obtained by running the solver)."""
    vals = {}
    r = LPRun(env, net, solver, scenarios=(), nsteps=1, probe=True)
    ncols = []

    def first(t, s, lp):
        ncols.append(lp.ncols)
        return [None] + [0.0] * lp.ncols
    for _ in r.go(first):
        pass
    n = ncols[0]
    r = LPRun(env, net, solver, scenarios=(), nsteps=n, probe=True)
    cols = [None]

    def unit(t, s, lp):
        return [None] + [1.0 if j == t else 0.0 for j in range(n)]
    for t in r.go(unit):
        cols.append({nd: float(r.flow(nd, 0)) for nd in net.physical()})
    return cols


def column_values(net, paths, cols, f):
    """The LP point that represents path flows f."""
    xs = [None]
    for j in range(1, len(cols)):
        used = frozenset(n for n, v in cols[j].items() if v != 0)
        x = 0.0
        hit = False
        for p, fp in zip(paths, f):
            if frozenset(p) == used:
                x = x + fp
                hit = True
        if not hit and len(used) == 2:
            for p, fp in zip(paths, f):
                if any(frozenset(e) == used for e in zip(p, p[1:])):
                    x = x + fp
        xs.append(x)
    return xs


def big(v):
    return not isinstance(v, (int, float)) or v != v or abs(v) < 1e30


def active_virtual(net, n, t):
    return net.nodes[n][1].get("mode") != "inactive"


def fconst(net, env, n, key, i, t, s, default=1.0):
    spec = net.nodes[n][1].get({"factor": "factors", "weight": "flow_weights"}[key])
    if spec is None:
        return default
    return net.resolve(env, n, "%s#%d" % (key, i), spec[i], t, s)


def weighted(net, env, n, key, flow, t, s):
    return env.sum(fconst(net, env, n, key, i, t, s) * flow(mem) for i, mem in enumerate(net.nodes[n][1]["nodes"]))


LIMITS, CONSERVE, VOLUME, COST, AGG, VIRTUAL = "limits", "conserve", "volume", "cost", "agg", "virtual"
ALL = (LIMITS, CONSERVE, VOLUME, COST, AGG, VIRTUAL)


def assume_wellposed(env, net, t, s, vol):
    """The state the statement starts from: volumes within their limits."""
    for n in net.nodes:
        if net.kind(n) in ("storage", "virtual", "rolling"):
            mn = net.value(env, n, "min_volume", t, s, 0.0)
            mx = net.value(env, n, "max_volume", t, s, 0.0)
            env.assume(mn <= vol[n])
            env.assume(vol[n] <= mx)


def initial(env, net, n, s=0):
    pc = net.value(env, n, "initial_volume_pc", 0, s)
    mx = net.nodes[n][1].get("max_volume")
    if pc is not None and mx != "P":
        return pc * net.value(env, n, "max_volume", 0, s)
    return net.value(env, n, "initial_volume", 0, s)


def stores(net, kinds=("storage", "virtual", "rolling")):
    return [n for n in net.nodes if net.kind(n) in kinds]


def sound(env, net, solver, groups, scenarios=(2,), nsteps=1, timestep=1, start_inside=True, inactive=()):
    """Every feasible point of the posed LP satisfies the statement."""
    paths = net.paths()
    r = LPRun(env, net, solver, scenarios, nsteps, timestep)
    env.note("built")

    def answer(t, s, lp):
        xs = env.feasible_point(lp, "%d_%d" % (t, s))
        used = set()
        for row in lp.rows[1:]:
            used |= set(row or ())
        for j in range(1, lp.ncols + 1):
            env.assume(xs[j] <= 1000)
            if j not in used:
                env.assume(xs[j] == 0)      # a column in no constraint stays at its bound
        return xs
    r.m.setup()
    r.m.reset()
    for n in inactive:
        r.objs[n].active = False
    nsc = len(r.m.scenarios.combinations)
    vol = {}
    for s in range(nsc):
        for n in stores(net):
            vol[n, s] = r.objs[n].volume[s]
            if VOLUME in groups:
                env.eq(vol[n, s], initial(env, net, n), "initial volume %s" % n)
    before = dict(vol)
    for s in range(nsc):
        if start_inside:
            assume_wellposed(env, net, 0, s, {n: vol[n, s] for n in stores(net)})
    m0 = r.m
    m0_setup = m0.setup
    m0.setup = lambda *a, **k: None
    history = {}
    for t in r.go(answer):
        for s in range(nsc):
            fl = lambda n: r.flow(n, s)
            if CONSERVE in groups:
                phys = net.physical()
                rows = [net.incidence(n, paths) for n in phys]
                for i, y in enumerate(nullspace(rows)):
                    env.eq(env.sum(float(c) * fl(n) for c, n in zip(y, phys) if c), 0.0,
                           "balance %d: %s" % (i, "+".join("%s*%s" % (c, n) for c, n in zip(y, phys) if c)))
                for n in phys:
                    if net.kind(n) != "storage":
                        env.le(0.0, fl(n), "flow of %s is not negative" % n)
                for a, b in net.crossings():
                    cf = net.value(env, b, "conversion_factor", t, s, 1.0)
                    others = [x for x, y in net.crossings() if y == b]
                    tot = env.sum(fl(y) / net.value(env, y, "conversion_factor", t, s, 1.0)
                                  for x, y in net.crossings() if x == a)
                    env.eq(tot, fl(a), "crossing %s->%s" % (a, b))
            for n in net.nodes:
                k = net.kind(n)
                if k in ("input", "link", "output") and LIMITS in groups:
                    mn = net.value(env, n, "min_flow", t, s, 0.0)
                    mx = net.value(env, n, "max_flow", t, s, inf)
                    env.le(mn, fl(n), "minimum flow of %s" % n)
                    if big(mx):
                        env.le(fl(n), mx, "maximum flow of %s" % n)
                if k == "agg" and AGG in groups:
                    tot = weighted(net, env, n, "weight", fl, t, s)
                    env.eq(fl(n), tot, "flow of %s is the weighted sum" % n)
                    mn = net.value(env, n, "min_flow", t, s, 0.0)
                    mx = net.value(env, n, "max_flow", t, s, inf)
                    if big(mn):
                        env.le(mn, tot, "minimum of %s" % n)
                    if big(mx):
                        env.le(tot, mx, "maximum of %s" % n)
                    if "factors" in net.nodes[n][1]:
                        mem = net.nodes[n][1]["nodes"]
                        f0 = fconst(net, env, n, "factor", 0, t, s)
                        for i in range(1, len(mem)):
                            fi = fconst(net, env, n, "factor", i, t, s)
                            env.eq(fl(mem[0]) * fi, fl(mem[i]) * f0, "ratio in %s of %s" % (n, mem[i]), 1e-5)
                g = {"storage": VOLUME, "virtual": VIRTUAL, "rolling": VIRTUAL}.get(k)
                if g is not None and g in groups:
                    v0 = before[n, s]
                    v1 = r.objs[n].volume[s]
                    mn = net.value(env, n, "min_volume", t, s, 0.0)
                    mx = net.value(env, n, "max_volume", t, s, 0.0)
                    if n in inactive:
                        env.eq(v1, v0, "inactive %s keeps its volume" % n)
                        continue
                    ch = fl(n) if k == "storage" else 0.0 - weighted(net, env, n, "factor", fl, t, s)
                    exp = v0 + ch * timestep
                    if k == "rolling":
                        back = history.get((n, s), [])
                        ns = net.nodes[n][1]["timesteps"] - 1
                        iv = initial(env, net, n)
                        mx0 = net.value(env, n, "max_volume", 0, s)
                        given = back[t - ns] if t >= ns else (mx0 - iv) / ns
                        env.assume(mx0 > 0)
                        history.setdefault((n, s), []).append(0.0 - ch * timestep)
                        exp = env.min(mx, env.max(mn, exp + given))
                    env.eq(v1, exp, "volume of %s" % n, 4e-6)
                    if not {"P", "S"} & {net.nodes[n][1].get("max_volume"), net.nodes[n][1].get("min_volume")}:
                        env.le(mn, v1, "minimum volume of %s" % n, 4e-6)
                        env.le(v1, mx, "maximum volume of %s" % n, 4e-6)
                    else:
                        inside = env.And(mn <= v0, v0 <= mx)
                        env.check(env.Implies(inside, env.And(mn <= v1 + 4e-6, v1 <= mx + 4e-6)),
                                  "volume of %s inside its limits" % n)
                    env.check(env.Implies(mx == mn, env.abs(ch) <= 4e-6), "fixed volume of %s" % n)
                    pc = r.objs[n].current_pc[s]
                    if big(pc) and not (isinstance(pc, float) and pc != pc):
                        env.eq(pc * mx, v1, "proportion of %s" % n, 1e-4)
        for s in range(nsc):
            for n in stores(net):
                before[n, s] = r.objs[n].volume[s]


def complete(env, net, solver, groups, scenarios=(2,), nsteps=1, timestep=1, inactive=()):
    """Every allocation that satisfies the statement is a point of the posed LP; its objective is its cost."""
    paths = net.paths()
    cols = column_map(env, net, solver)
    r = LPRun(env, net, solver, scenarios, nsteps, timestep)
    r.m.setup()
    r.m.reset()
    for n in inactive:
        r.objs[n].active = False
    nsc = len(r.m.scenarios.combinations)
    vol = {}
    for s in range(nsc):
        for n in stores(net):
            vol[n, s] = r.objs[n].volume[s]
    r.m.setup = lambda *a, **k: None
    F = {}

    def answer(t, s, lp):
        f = [env.real("f_%d_%d_%d" % (t, s, i), 0, 200) for i in range(len(paths))]
        inc = {n: net.incidence(n, paths) for n in net.physical()}
        fl = lambda n: env.sum(fp for c, fp in zip(inc[n], f) if c == 1) - \
            env.sum(fp for c, fp in zip(inc[n], f) if c == -1)
        F[t, s] = fl
        for n in net.nodes:
            k = net.kind(n)
            if k in ("input", "link", "output", "agg"):
                tot = fl(n) if k != "agg" else weighted(net, env, n, "weight", fl, t, s)
                mn = net.value(env, n, "min_flow", t, s, 0.0)
                mx = net.value(env, n, "max_flow", t, s, inf)
                if big(mn):
                    env.assume(mn <= tot)
                if big(mx):
                    env.assume(tot <= mx)
                if "factors" in net.nodes[n][1]:
                    mem = net.nodes[n][1]["nodes"]
                    f0 = fconst(net, env, n, "factor", 0, t, s)
                    for i in range(1, len(mem)):
                        env.assume(env.abs(fl(mem[0]) * fconst(net, env, n, "factor", i, t, s)
                                           - fl(mem[i]) * f0) <= 1e-9)
            if k in ("storage", "virtual", "rolling") and n not in inactive:
                v0 = r.objs[n].volume[s]
                mn = net.value(env, n, "min_volume", t, s, 0.0)
                mx = net.value(env, n, "max_volume", t, s, 0.0)
                ch = fl(n) if k == "storage" else 0.0 - weighted(net, env, n, "factor", fl, t, s)
                env.assume(mn <= mx)
                env.assume(0.0 - env.max(v0 - mn, 0.0) <= ch * timestep)
                env.assume(ch * timestep <= env.max(mx - v0, 0.0))
                env.assume(env.Implies(mx == mn, ch == 0))
        for a, b in net.crossings():
            tot = env.sum(fl(y) / net.value(env, y, "conversion_factor", t, s, 1.0)
                          for x, y in net.crossings() if x == a)
            env.assume(tot == fl(a))
        xs = column_values(net, paths, cols, f)
        return xs
    for t in r.go(answer):
        for s in range(nsc):
            lp, xs = r.lps[s], r.points[s]
            fl = F[t, s]
            for nm, c in lp_ok(env, lp, xs):
                env.check(c, "the posed problem admits the allocation (%s)" % nm)
            for n in net.physical():
                env.eq(r.flow(n, s), fl(n), "reported flow of %s" % n)
            if COST in groups:
                obj = env.sum(lp.obj[j] * xs[j] for j in range(1, lp.ncols + 1))
                exp = env.sum(net.value(env, n, "cost", t, s, 0.0) * fl(n) for n in net.physical())
                env.check(lp.dir == 1, "minimises")
                env.eq(obj, exp, "objective", 1e-4)


def lp_ok(env, lp, xs):
    from engine.env import lp_constraints
    return lp_constraints(lp, xs, 2e-6)


def same_lp(env, a, b, what):
    """The two problems have the same constraints and objective."""
    env.check(a.nrows == b.nrows and a.ncols == b.ncols, "%s: size" % what)
    for i in range(1, a.nrows + 1):
        cols = sorted(set(a.rows[i]) | set(b.rows[i]))
        for j in cols:
            env.eq(a.rows[i].get(j, 0.0), b.rows[i].get(j, 0.0), "%s: coefficient" % what)
        same_bounds(env, a.rb[i], b.rb[i], "%s: row bound" % what)
    for j in range(1, a.ncols + 1):
        same_bounds(env, a.cb[j], b.cb[j], "%s: column bound" % what)
        env.eq(a.obj[j], b.obj[j], "%s: objective" % what)
    env.check(a.dir == b.dir, "%s: direction" % what)


def same_bounds(env, a, b, what):
    (t, l, u), (t2, l2, u2) = a, b
    env.check(t == t2, what + " type")
    env.check(env.Implies(env.Or(t == 2, t == 4, t == 5), env.abs(l - l2) <= 1e-7), what + " lower")
    env.check(env.Implies(env.Or(t == 3, t == 4), env.abs(u - u2) <= 1e-7), what + " upper")


def memoryless(env, net, solver, nsteps=2, timestep=1, scenarios=(2,), reference=None, rerun=False):
    """The problem posed at each step and scenario equals the one a fresh single-step model with those
    values poses."""
    r = LPRun(env, net, solver, scenarios, nsteps, timestep)

    def answer(t, s, lp):
        return [None] + [env.real("x_%d_%d_%d" % (t, s, j), 0, 20) for j in range(1, lp.ncols + 1)]
    r.m.setup()
    setup = r.m.setup
    for pas in range(2 if rerun else 1):
        r.m.reset()
        r.m.setup = lambda *a, **k: None
        vols = {(n, s): r.objs[n].volume[s] for n in stores(net) for s in range(len(r.m.scenarios.combinations))}
        for t in r.go(answer):
            for s in range(r.n):
                fresh = net_at(env, net, t, s, {n: vols[n, s] for n in stores(net)})
                q = LPRun(env, fresh, reference or solver, scenarios=(), nsteps=1, timestep=timestep)
                seen = []

                def grab(t_, s_, lp):
                    seen.append(lp)
                    return [None] + [0.0] * lp.ncols
                for _ in q.go(grab):
                    pass
                same_lp(env, r.lps[s], seen[0], "step %d scenario %d" % (t, s))
            vols = {(n, s): r.objs[n].volume[s] for n in stores(net) for s in range(r.n)}


def edited(env, net, solver, reference=None, rerun="run", nsteps=1, scenarios=(2,)):
    """Values set anew after a run are those of the problems posed in the next run."""
    r = LPRun(env, net, solver, scenarios, nsteps)
    m = r.m

    def answer(t, s, lp):
        return [None] + [env.real("x_%d_%d_%d" % (t, s, j), 0, 20) for j in range(1, lp.ncols + 1)]
    for t in r.go(answer):
        break
    for n, (kind, attrs) in net.nodes.items():
        for a, spec in attrs.items():
            if spec in ("S", "U"):
                setattr(r.objs[n], a, net.resolve(env, n, a, spec, 1, 0))
            elif spec == "T":
                setattr(r.objs[n], a, net.vars[(n, a)])
            elif isinstance(spec, (list, tuple)) and "S" in spec and a in ("factors", "flow_weights"):
                key = {"factors": "factor", "flow_weights": "weight"}[a]
                setattr(r.objs[n], a, [net.resolve(env, n, "%s#%d" % (key, i), c, 1, 0) for i, c in enumerate(spec)])
    (m.setup if m.dirty or rerun == "setup" else m.reset)()
    m.setup = lambda *a, **k: None
    vols = {(n, s): r.objs[n].volume[s] for n in stores(net) for s in range(r.n)}
    net.advance = lambda *a: None
    for t in r.go(answer):
        for s in range(r.n):
            fresh = net_at(env, net, 1, s, {n: vols[n, s] for n in stores(net)})
            for n, (k, at) in fresh.nodes.items():
                for a, spec in at.items():
                    env.check(spec != "P", "numbers only")
            q = LPRun(env, fresh, reference or solver, scenarios=(), nsteps=1)
            seen = []

            def grab(t_, s_, lp):
                seen.append(lp)
                return [None] + [0.0] * lp.ncols
            for _ in q.go(grab):
                pass
            same_lp(env, r.lps[s], seen[0], "scenario %d" % s)
        break


def rewired(env, net, solver, drop=(), add=(), new=(), reference=None, gone=()):
    """Connections made and removed (and nodes added) after a run are those of the problems posed in the next run."""
    first = Net({n: v for n, v in net.nodes.items() if n not in new}, [e for e in net.edges if e not in add])
    then = Net({n: v for n, v in net.nodes.items() if n not in gone},
               [e for e in net.edges if e not in drop and e[0] not in gone and e[1] not in gone])
    r = LPRun(env, first, solver, (2,), 1)
    m = r.m

    def answer(t, s, lp):
        return [None] + [env.real("x_%d_%d_%d" % (t, s, j), 0, 20) for j in range(1, lp.ncols + 1)]
    for t in r.go(answer):
        break
    env.check(not m.dirty, "a model that has been set up is not dirty")
    for a, b in drop:
        r.objs[a].disconnect(r.objs[b])
    for n in gone:
        del m.nodes[n]
    cls = {"link": Link, "output": Output, "input": Input}
    for n in new:
        kind, attrs = net.nodes[n]
        r.objs[n] = cls[kind](m, n, **{a: first.const(env, n, a) for a in attrs})
    env.check(m.dirty or not new and not drop and not gone, "a model with a node or connection more or less has to be set up anew")
    for a, b in add:
        r.objs[a].connect(r.objs[b])
    env.check(m.dirty, "a model whose network was changed has to be set up anew")
    if reference == "error":
        env.raises(ModelStructureError, m.setup, "a node left without a path is an error")
        return
    m.setup()
    m.setup = lambda *a, **k: None
    for t in r.go(answer):
        for s in range(r.n):
            q = LPRun(env, net_at(env, then, 0, s, {n: r.objs[n].initial_volume for n in stores(then)}), reference or solver,
                      scenarios=(), nsteps=1)
            seen = []

            def grab(t_, s_, lp):
                seen.append(lp)
                return [None] + [0.0] * lp.ncols
            for _ in q.go(grab):
                pass
            same_lp(env, r.lps[s], seen[0], "scenario %d" % s)
        break


def remove(what):
    """(network, nodes deleted from it)"""
    C = "C"
    nodes = {"a": ("input", dict(max_flow=C, cost=C)), "a2": ("input", dict(max_flow=C, cost=C)), "l": ("link", dict(max_flow=C)),
             "l2": ("link", dict(max_flow=C, cost=C)), "o": ("output", dict(max_flow=C, cost=C)), "z": ("output", dict(max_flow=C, cost=C))}
    edges = [("a", "l"), ("l", "o"), ("a2", "l"), ("a2", "l2"), ("l2", "o"), ("l", "z")]
    if what in ("storage", "storages"):
        nodes["res"] = nodes["top"] = ("storage", dict(max_volume=C, initial_volume=C, cost=C))
        edges += [("a", "res"), ("res", "l"), ("a2", "top"), ("top", "o")]
    if what == "licence":
        nodes["lic"] = nodes["old"] = ("virtual", dict(nodes=["a", "l"], factors=[C, C], max_volume=C, initial_volume=C))
    if what == "ratio":
        nodes["agg"] = ("agg", dict(nodes=["a", "a2"], factors=[C, C]))
        nodes["cap"] = nodes["top"] = ("agg", dict(nodes=["a", "a2"], max_flow=C))
    gone = {"output": ["z"], "link": ["l2"], "input": ["a2", "l2"], "storage": ["res"], "storages": ["top", "res"], "licence": ["old"],
            "ratio": ["agg", "top"]}[what]
    return Net(nodes, edges), gone


def removetask(what, solver):
    return task(h_remove, name="deleted %s %s" % (what, solver), params=dict(what=what, solver=solver))


def h_remove(env, what, solver):
    net, gone = remove(what)
    rewired(env, net, solver, gone=gone, reference=solver.split("-")[0])


def rewire(what):
    """(network with every connection, those removed, those added, nodes added) of an edit of the network."""
    C = "C"
    nodes = {"a": ("input", dict(max_flow=C, cost=C)), "l": ("link", dict(max_flow=C)), "res": ("storage", dict(max_volume=C, initial_volume=C, cost=C)),
             "o": ("output", dict(max_flow=C, cost=C))}
    chain = [("a", "l"), ("l", "o")]
    store = [("a", "res"), ("res", "l")]
    if what == "link":
        return Net(nodes, chain + store + [("a", "o")]), [], [("a", "o")], []
    if what == "unlink":
        return Net(nodes, chain + store + [("a", "o")]), [("a", "o")], [], []
    if what == "store":
        return Net(nodes, chain + store + [("res", "o")]), [], [("res", "o")], []
    if what == "isolate":
        return Net(nodes, chain + store), [("a", "res")], [], []
    if what == "swap":
        return Net(nodes, chain + store + [("a", "o")]), [("a", "l")], [("a", "o")], []
    nodes = dict(nodes, z=("output", dict(max_flow=C, cost=C)))
    return Net(nodes, chain + store + [("l", "z")]), [], [("l", "z")], ["z"]


def rewiretask(what, solver):
    return task(h_rewire, name="rewired %s %s" % (what, solver), params=dict(what=what, solver=solver))


def h_rewire(env, what, solver):
    net, drop, add, new = rewire(what)
    rewired(env, net, solver, drop, add, new, reference="error" if what == "isolate" else solver.split("-")[0])


class Sublimits(Net):
    """The storage with several inlets and outlets, with limits of its own on some of them."""

    def __init__(self):
        n = manyslots()
        super().__init__(n.nodes, n.edges, **n.kw)

    def build(self, env, m, probe=False):
        o = super().build(env, m, probe)
        for k, sub, a in self.limits(o["res"]):
            setattr(sub, a, 1.0 if probe else self.const(env, "sub%d" % k, a, (0, 100)))
        self.late = Var(m, env, "late", 0, 100)
        o["res"].inputs[2].max_flow = self.late
        return o

    @staticmethod
    def limits(res):
        return [(0, res.outputs[0], "max_flow"), (1, res.outputs[1], "min_flow"), (2, res.inputs[1], "max_flow"), (3, res.inputs[0], "min_flow")]


def sublimits(env, solver):
    """Inlets and outlets of a storage are nodes with limits of their own; the storage's flow is what enters less what leaves."""
    net = Sublimits()
    r = LPRun(env, net, solver, (2,), 1)
    ends = {"a": ("outputs", 0), "b": ("outputs", 1), "x": ("inputs", 2), "y": ("inputs", 0), "z": ("inputs", 1)}
    for t in r.go(lambda t, s, lp: env.feasible_point(lp, "%d_%d" % (t, s))):
        res = r.objs["res"]
        for s in range(r.n):
            for k, sub, a in net.limits(res):
                v = net.const(env, "sub%d" % k, a, (0, 100))
                f = sub.flow[s]
                env.le(f if a == "max_flow" else v, v if a == "max_flow" else f, "%s of an inlet or outlet" % a, 2e-6)
            env.le(res.inputs[2].flow[s], net.late.at(t, s), "a parameter's maximum flow of an outlet", 2e-6)
            for n, (side, i) in ends.items():
                env.eq(r.objs[n].flow[s], getattr(res, side)[i].flow[s], "flow between %s and its slot" % n, 1e-5)
            env.eq(res.flow[s], env.sum(x.flow[s] for x in res.outputs) - env.sum(x.flow[s] for x in res.inputs), "net flow of the storage", 1e-5)


def net_at(env, net, t, s, vols):
    """`net` with every value replaced by its value at step t in scenario s."""
    nodes = {}
    for n, (k, at) in net.nodes.items():
        at = dict(at)
        if n in vols:
            at.pop("initial_volume_pc", None)
            at["initial_volume"] = "V"
        nodes[n] = (k, at)
    q = Net(nodes, net.edges, **net.kw)

    def fixed(name, attr, spec):
        if attr == "initial_volume":
            return vols[name]
        return net.resolve(env, name, attr, spec, t, s)
    q.fixed = fixed
    return q


def failing(env, net, solver):
    """A step whose problem GLPK does not report solved to optimality ends in an error, never in flows."""
    r = LPRun(env, net, solver, scenarios=(2,), nsteps=1)
    ret = env.int("ret", 0, 19)
    st = env.int("status", 1, 6)
    env.assume(env.Or(ret <= 2, ret == 10, ret == 14))
    bad = env.Not(env.And(ret == 0, st == 5))

    def answer(t, s, lp):
        if s == 0:
            return 0, 5, [None] + [0.0] * lp.ncols
        return ret.__index__(), st.__index__(), [None] + [0.0] * lp.ncols
    raised = False
    try:
        for _ in r.go(answer):
            pass
    except RuntimeError:
        raised = True
    env.check(env.Iff(bad, raised), "an error exactly when the problem was not solved to optimality")


# ------------------------------------------------------------------------------------ networks

ALL_SOLVERS = ("route", "edge", "route-once", "edge-once", "route-unsafe", "edge-unsafe")


def edit_factors(n=3):
    return fan({"agg": ("agg", dict(nodes=["a", "b", "c"][:n], factors=["S"] * n))}, "S")


def edit_weights():
    return fan({"agg": ("agg", dict(nodes=["a", "b"], flow_weights=["S", "S"], max_flow="S", min_flow="C"))}, "S")


def edit_virtual():
    return fan({"lic": ("virtual", dict(nodes=["a", "b"], factors=["S", "S"], min_volume="S", max_volume="S", initial_volume="C"))}, "S")


def edit_storage():
    return Net({"in": ("input", dict(max_flow="S", cost="S")),
                "res": ("storage", dict(min_volume="S", max_volume="S", initial_volume="C", cost="S")),
                "o": ("output", dict(max_flow="S", cost="S")), "l": ("link", dict(cost="S", min_flow="S"))},
               [("in", "res"), ("res", "l"), ("l", "o")])


def stock(a="C"):
    return Net({"in": ("input", dict(max_flow="C")),
                "res": ("storage", dict(min_volume=a, max_volume=a, initial_volume="C", initial_volume_pc=0.5, cost=a)),
                "o": ("output", dict(max_flow="C"))}, [("in", "res"), ("res", "o")])


def line(a="C"):
    """in -> link -> out, every limit and cost of kind a"""
    return Net({"in": ("input", dict(min_flow=a, max_flow=a, cost=a)),
                "link": ("link", dict(min_flow=a, max_flow=a, cost=a)),
                "out": ("output", dict(min_flow=a, max_flow=a, cost=a))},
               [("in", "link"), ("link", "out")])


def short():
    """Input straight to output, plus a chain of links; unlimited maxima and only minimum flows."""
    return Net({"in": ("input", dict(max_flow="P", cost="P")),
                "l1": ("link", dict(min_flow="P")), "l2": ("link", dict(cost="P", max_flow="P")),
                "o1": ("output", dict(cost="C", max_flow="K")), "o2": ("output", dict(min_flow="K", cost="K"))},
               [("in", "o1"), ("in", "l1"), ("l1", "l2"), ("l2", "o2")])


def grid(a="P"):
    """Two sources, a shared link, two sinks and a bypass."""
    return Net({"s1": ("input", dict(max_flow=a, cost=a)), "s2": ("input", dict(min_flow=a, max_flow=a, cost=a)),
                "hub": ("link", dict(min_flow=a, max_flow=a, cost=a)), "by": ("link", dict(max_flow=a, cost=a)),
                "d1": ("output", dict(max_flow=a, cost=a)), "d2": ("output", dict(max_flow=a, min_flow=a, cost=a))},
               [("s1", "hub"), ("s2", "hub"), ("hub", "d1"), ("hub", "d2"), ("s1", "by"), ("by", "d2")])


def reservoir(a="C", mx=None):
    """Inflow -> reservoir -> demand, with a spill straight to the sea."""
    return Net({"inflow": ("input", dict(min_flow=a, max_flow=a)),
                "res": ("storage", dict(min_volume=a, max_volume=mx or a, initial_volume="C", cost=a,
                                        **({"initial_volume_pc": "C"} if mx == "P" else {}))),
                "dem": ("output", dict(max_flow=a, cost=a)), "sea": ("output", dict(cost=a))},
               [("inflow", "res"), ("res", "dem"), ("inflow", "sea")])


def manyslots():
    """A storage with two inlets and three outlets."""
    return Net({"a": ("input", dict(max_flow="C", cost="C")), "b": ("input", dict(max_flow="C")),
                "res": ("storage", dict(inputs=3, outputs=2, min_volume="C", max_volume="C", initial_volume="C", cost="C")),
                "x": ("output", dict(max_flow="C", cost="C")), "y": ("output", dict(max_flow="C")), "z": ("output", dict(cost="C", max_flow="C"))},
               [("a", "res"), ("b", "res"), ("res", "x"), ("res", "y"), ("res", "z")],
               slots={("a", "res"): (None, 0), ("b", "res"): (None, 1), ("res", "x"): (2, None), ("res", "y"): (0, None), ("res", "z"): (1, None)})


def cascade():
    """Reservoir to reservoir transfer through a link."""
    return Net({"inflow": ("input", dict(max_flow="P")),
                "up": ("storage", dict(min_volume="C", max_volume="C", initial_volume_pc="C", cost="C")),
                "pipe": ("link", dict(min_flow="C", max_flow="P", cost="P")),
                "down": ("storage", dict(min_volume="P", max_volume="K", initial_volume="C", cost="P")),
                "dem": ("output", dict(max_flow="P", cost="P"))},
               [("inflow", "up"), ("up", "pipe"), ("pipe", "down"), ("down", "dem")])


def fixedvol():
    """A storage that cannot change (minimum == maximum)."""
    return Net({"in": ("input", dict(max_flow="C")),
                "tank": ("storage", dict(min_volume=10.0, max_volume=10.0, initial_volume=10.0, cost="C")),
                "out": ("output", dict(max_flow="C", cost="C"))},
               [("in", "tank"), ("tank", "out")])


def zerovol():
    return Net({"in": ("input", dict(max_flow="C")),
                "tank": ("storage", dict(initial_volume=0.0, cost="C", max_volume=0.0)),
                "out": ("output", dict(max_flow="C", cost="C"))},
               [("in", "tank"), ("tank", "out")])


def fan(extra, a="C"):
    """Three parallel supplies joining one link; `extra` adds aggregated or virtual nodes."""
    n = {"a": ("input", dict(max_flow=a)), "b": ("input", dict(max_flow=a)),
         "c": ("input", dict(max_flow=a, cost="C")),
         "m": ("link", dict()), "out": ("output", dict(max_flow=a, cost=a))}
    n.update(extra)
    return Net(n, [("a", "m"), ("b", "m"), ("c", "m"), ("m", "out")])


def agg_limits(a="C", w=None):
    d = dict(nodes=["a", "b"], min_flow=a, max_flow=a)
    if w:
        d["flow_weights"] = [w, w]
    return fan({"agg": ("agg", d)}, a)


def agg_series():
    """Members of an aggregated node that lie on the same path."""
    return Net({"in": ("input", dict(max_flow="C")), "l": ("link", {}), "k": ("link", {}),
                "out": ("output", dict(max_flow="C", cost="C")), "out2": ("output", dict(max_flow="C")),
                "agg": ("agg", dict(nodes=["l", "k"], max_flow="C", min_flow="C", flow_weights=["C", "C"]))},
               [("in", "l"), ("l", "k"), ("k", "out"), ("l", "out2")])


def agg_series2():
    """Members that share an edge: a link and the output it feeds."""
    return Net({"in": ("input", dict(max_flow="C")), "l": ("link", {}),
                "out": ("output", dict(max_flow="C", cost="C")),
                "agg": ("agg", dict(nodes=["l", "out", "in"], max_flow="C", flow_weights=["C", "C", 1.0]))},
               [("in", "l"), ("l", "out")])


def agg_mixed():
    """An aggregated node over an input, a link and an output of different branches."""
    return Net({"i1": ("input", dict(max_flow="C")), "i2": ("input", dict(max_flow="C")),
                "l": ("link", dict(cost="C")), "o1": ("output", dict(max_flow="C", cost="C")),
                "o2": ("output", dict(max_flow="C")),
                "agg": ("agg", dict(nodes=["o1", "l"], max_flow="P", flow_weights=["C", 2.0]))},
               [("i1", "o1"), ("i2", "l"), ("l", "o2")])


def agg_factors(a="C", n=3):
    return fan({"agg": ("agg", dict(nodes=["a", "b", "c"][:n], factors=[a] * n))})


def agg_factors2():
    """Two ratio constraints, one on outputs, and a limit as well."""
    return Net({"a": ("input", dict(max_flow="C")), "b": ("input", dict(max_flow="C")), "m": ("link", {}),
                "x": ("output", dict(max_flow="C")), "y": ("output", dict(max_flow="C", cost="C")),
                "r1": ("agg", dict(nodes=["a", "b"], factors=["P", "C"])),
                "r2": ("agg", dict(nodes=["x", "y"], factors=["K", "P"], max_flow="P"))},
               [("a", "m"), ("b", "m"), ("m", "x"), ("m", "y")])


def virtual(a="C", factors=("C", "C"), nodes=("a", "b"), **kw):
    return fan({"lic": ("virtual", dict(nodes=list(nodes), factors=list(factors), min_volume=a, max_volume=a,
                                        initial_volume="C", **kw))}, "C")


def virtual_shut(nodes=("a", "b")):
    """A licence of no volume at all."""
    return fan({"lic": ("virtual", dict(nodes=list(nodes), factors=["C"] * len(nodes), min_volume=10.0, max_volume=10.0,
                                        initial_volume=10.0))}, "C")


def virtual_through():
    """A licence on a link and the output downstream of it (same path twice)."""
    return Net({"in": ("input", dict(max_flow="C")), "l": ("link", {}), "o": ("output", dict(cost="C", max_flow="C")),
                "o2": ("output", dict(max_flow="C")),
                "lic": ("virtual", dict(nodes=["l", "o"], factors=["C", "C"], max_volume="C", initial_volume_pc="C"))},
               [("in", "l"), ("l", "o"), ("l", "o2")])


def rolling(ts=3, pc=False):
    init = dict(initial_volume_pc="C") if pc else dict(initial_volume="C")
    return Net({"in": ("input", dict(max_flow="C")), "o": ("output", dict(max_flow="C", cost="C")),
                "roll": ("rolling", dict(nodes=["in"], factors=["C"], max_volume="C", timesteps=ts,
                                         **init))}, [("in", "o")])


def rolling_credit(ts=3):
    """A rolling licence that one node's flow counts against and another's is credited to."""
    return Net({"in": ("input", dict(max_flow="C")), "o": ("output", dict(max_flow="C", cost="C")), "back": ("input", dict(max_flow="C")),
                "sea": ("output", {}),
                "roll": ("rolling", dict(nodes=["in", "back"], factors=["C", "N"], max_volume="C", timesteps=ts, initial_volume="C"))},
               [("in", "o"), ("back", "sea")])


def domains():
    """An output in one domain drives an input in another with a conversion factor."""
    return Net({"src": ("input", dict(max_flow="C", domain="water")),
                "use": ("output", dict(max_flow="C", domain="water", cost="C")),
                "gen": ("input", dict(max_flow="C", domain="power", conversion_factor="C", cost="C")),
                "grid": ("link", dict(domain="power", max_flow="C")),
                "load": ("output", dict(max_flow="C", cost="C", domain="power"))},
               [("src", "use"), ("use", "gen"), ("gen", "grid"), ("grid", "load")])


def domains2():
    """One output feeding two inputs of another domain."""
    return Net({"src": ("input", dict(max_flow="C", domain="water")),
                "use": ("output", dict(max_flow="C", domain="water", cost="C")),
                "g1": ("input", dict(domain="power", conversion_factor="C", cost="C")),
                "g2": ("input", dict(domain="power", conversion_factor="C", max_flow="C")),
                "load": ("output", dict(max_flow="C", cost="C", domain="power"))},
               [("src", "use"), ("use", "g1"), ("use", "g2"), ("g1", "load"), ("g2", "load")])


def run(env, mode, net, solver, groups=ALL, args=(), swap=False, **kw):
    n = net(*args) if callable(net) else net
    n.swap = swap
    (sound if mode == "sound" else complete)(env, n, solver, groups, **kw)


def memless(env, net, solver, args=(), **kw):
    memoryless(env, net(*args), solver, **kw)


def fails(env, net, solver):
    failing(env, net(), solver)


def edittask(net, solver, args=(), **kw):
    nm = "edited %s%s %s" % (net.__name__, "(%s)" % ",".join(map(str, args)) if args else "", solver)
    if kw:
        nm += " " + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in kw.items())
    return task(editless, name=nm, params=dict(net=net, solver=solver, args=args, **kw))


def editless(env, net, solver, args, **kw):
    edited(env, net(*args), solver, **kw)


def memtask(net, solver, args=(), **kw):
    nm = "memoryless %s%s %s" % (net.__name__, "(%s)" % ",".join(map(str, args)) if args else "", solver)
    if kw:
        nm += " " + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in kw.items())
    return task(memless, name=nm, params=dict(net=net, solver=solver, args=args, **kw))


def lptask(mode, net, solver, groups, args=(), nargs=None, **kw):
    nm = "%s %s%s %s" % (mode, net.__name__, "(%s)" % ",".join(map(str, args)) if args else "", solver)
    if kw:
        nm += " " + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in kw.items())
    return task(run, name=nm, params=dict(mode=mode, net=net, solver=solver, groups=groups, args=args, **kw))
