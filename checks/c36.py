"""C36: the model holds exactly the nodes, connections and components built"""
import itertools
import warnings
import pandas
from checks.lib import *
from checks.lpnet import Net, removetask
from pywr import nodes as N
from pywr.domains import river as R
from pywr.core import ModelStructureError
from pywr.model import OrphanedParameterWarning
from pywr.parameters import AggregatedParameter, ControlCurveParameter, load_parameter
from pywr.recorders import (NumpyArrayNodeRecorder, NumpyArrayStorageRecorder, NumpyArrayParameterRecorder, TotalDeficitNodeRecorder, Recorder)

BOUNDS = ("every network over 5 nodes of given classes with any of 8 connections and any of two domains for one node; every sequence of up to 3 of "
          "creating (plain and compound nodes), renaming and deleting over 3 names; every kind of node deleted alone and between runs; every parameter "
          "attribute of the nodes used or not; runs of up to 4 steps that fail at any step")
OUTSIDE = ["nodes deleted that aggregated nodes, virtual storages or parameters still refer to", "disconnecting storages and compound nodes by slot",
           "the wall-clock figures of a run's result"]


# ------------------------------------------------------------------ routes

NAMES = ("a", "b", "l", "m", "z")
LINKS = (("a", "l"), ("b", "l"), ("b", "m"), ("l", "m"), ("m", "l"), ("l", "z"), ("m", "z"), ("a", "z"))


def network(env, links, middle="link", domain=None):
    """a and b are inputs, l and m lie between, z is an output; each connection is there or not."""
    m = Model(start="2015-01-01", end="2015-01-02")
    m.solver = FreeFlow(lambda *a: None)
    o = {"a": Input(m, "a"), "b": Input(m, "b"), "l": Link(m, "l"), "z": Output(m, "z")}
    kw = {} if domain is None else {"domain": domain}
    o["m"] = {"link": Link, "input": Input, "output": Output, "blender": N.Node}.get(middle, Link)(m, "m", **kw)
    have = []
    for x, y in links:
        if env.fork(env.bool("%s-%s" % (x, y))):
            o[x].connect(o[y])
            have.append((x, y))
    return m, o, have


def paths(have, x, y):
    """Every path from x to y that visits no node twice (and has a connection), by breadth."""
    if x == y:
        return []
    done, grow = [], [[x]]
    while grow:
        more = []
        for p in grow:
            for u, v in have:
                if u != p[-1] or v in p:
                    continue
                (done if v == y else more).append(p + [v])
        grow = more
    return done


def h_routes(env, middle, first, drop):
    """Routes are the simple paths between what was asked for, with the classes, length and domains asked for, in order of name."""
    from pywr.core import Domain
    other = Domain("other")
    links = [e for e in LINKS if e not in drop]
    m, o, have = network(env, links, middle, other if first else None)
    env.check(sorted((x.name, y.name) for x, y in m.edges()) == sorted(have), "the connections are those made")
    dom = {n: ("other" if n == "m" and first else "default") for n in NAMES}
    cls = {"a": Input, "b": Input, "l": Link, "z": Output, "m": {"link": Link, "input": Input, "output": Output}[middle]}
    asks = [(Input, Output), (o["a"], Output), (Input, o["z"]), (o["b"], o["z"]), (Link, Output), (Input, Link), (o["a"], o["m"])]
    for t1, t2 in asks:
        one = [n for n in NAMES if (issubclass(cls[n], t1) if isinstance(t1, type) else o[n] is t1)]
        two = [n for n in NAMES if (issubclass(cls[n], t2) if isinstance(t2, type) else o[n] is t2)]
        every = [p for x in one for y in two for p in paths(have, x, y)]
        for valid, longest, match in ((None, None, "strict"), ((Link,), None, "strict"), ((Link, Input, Output), 3, "any"), (None, 2, "strict"),
                                      (None, None, "different"), ((Link,), 3, "different"), ((Output,), None, "any")):
            want = [p for p in every
                    if (valid is None or all(issubclass(cls[n], valid) for n in p[1:-1]))
                    and (longest is None or len(p) <= longest)
                    and (match == "any" or (len({dom[n] for n in p}) == 1) == (match == "strict"))]
            kw = {} if match == "strict" else dict(domain_match=match)
            got = [[n.name for n in p] for p in m.find_all_routes(t1, t2, valid=valid, max_length=longest, **kw)]
            env.check(got == sorted(want), "routes %s %s %s" % (valid and [c.__name__ for c in valid], longest, match))
    if paths(have, "a", "z"):
        env.raises(ValueError, lambda: m.find_all_routes(Input, Output, domain_match="both"), "an unknown way to match domains")


def h_isolated(env, middle, drop):
    """The check of a model fails exactly when a node that has to lie on a path from an input to an output does not."""
    from pywr.core import Domain
    m, o, have = network(env, [e for e in LINKS if e not in drop], middle, Domain("other") if middle == "domain" else None)
    spare = env.choice("spare", ["none", "storage", "virtual", "aggregated", "link"])
    if spare == "storage":
        Storage(m, "s", max_volume=1, initial_volume=0)
    elif spare == "virtual":
        N.VirtualStorage(m, "s", [o["a"]], max_volume=1, initial_volume=0)
    elif spare == "aggregated":
        N.AggregatedNode(m, "s", [o["a"], o["b"]])
    elif spare == "link":
        Link(m, "s")
    ends = ["z"] + (["m"] if middle == "output" else [])
    starts = ["a", "b"] + (["m"] if middle == "input" else [])
    on = set()
    for x in starts:
        for y in ends:
            for p in paths(have, x, y):
                if middle != "domain" or "m" not in p:
                    on.update(p)
    if len(on) == 5 and spare in ("none", "virtual", "aggregated"):
        m.check()
        m.check_graph()
        env.check(True, "every node is on a route")
    else:
        alone = [n for n in NAMES if n not in on]
        if alone or spare == "link":
            env.raises(ModelStructureError, m.check_graph, "a node on no route")
            env.raises(ModelStructureError, m.check, "a node on no route")
        else:
            # the parts of a storage have to be connected, the storage itself does not
            env.raises(ModelStructureError, m.check_graph, "the ends of a storage on no route")


# ------------------------------------------------------------------ names

PARTS = {"storage": 2, "piecewise": 5, "link": 0}


def make(m, kind, name):
    if kind == "storage":
        return Storage(m, name, max_volume=1, initial_volume=0)
    if kind == "piecewise":
        return N.PiecewiseLink(m, name=name, nsteps=2)
    return Link(m, name)


def h_registry(env, n):
    """After each of any sequence of creating, renaming and deleting, the nodes are those that are left, in the order made."""
    m = Model(start="2015-01-01", end="2015-01-02")
    have, gone = [], []        # [name, object, number of its parts]
    for k in range(n):
        op = env.choice("op%d" % k, ["link", "storage", "piecewise", "rename", "delete", "delete object"])
        name = env.choice("name%d" % k, ["x", "y"])
        found = [h for h in have if h[0] == name]
        parts0 = m.graph.number_of_nodes()
        if op in PARTS:
            if found:
                env.raises(ValueError, lambda: make(m, op, name), "a name in use is refused")
                for node in [q for q in m.graph.nodes() if q.parent is not None and all(q.parent is not h[1] for h in have)]:
                    m.graph.remove_node(node)
            else:
                obj = make(m, op, name)
                have.append([name, obj, m.graph.number_of_nodes() - parts0 - 1])
                env.check(m.dirty, "a model with a new node is dirty")
        elif op == "rename":
            to = env.choice("to%d" % k, ["y", "w"])
            if not found:
                continue
            if any(h[0] == to for h in have):
                env.raises(ValueError, lambda: setattr(found[0][1], "name", to), "a name in use is refused")
            else:
                found[0][1].name = to
                found[0][0] = to
        else:
            m.dirty = False
            if not found:
                env.raises(KeyError, lambda: m.nodes.__delitem__(name), "no such node to delete")
                continue
            m.nodes.__delitem__(name if op == "delete" else found[0][1])
            have.remove(found[0])
            gone.append(found[0])
            env.check(m.dirty, "a model with a node less is dirty")
        env.check(m.graph.number_of_nodes() == len(have) + sum(h[2] for h in have), "the nodes and their parts, and no others")
        env.check([h[0] for h in have] == list(m.nodes.keys()), "names in the order made")
        env.check(all(a is b for a, b in zip([h[1] for h in have], m.nodes.values())), "nodes in the order made")
        env.check([(h[0], h[1]) for h in have] == list(m.nodes.items()), "names and nodes")
        env.check(len(m.nodes) == len(have), "number of nodes")
        env.check([h[1] for h in have] == list(m.nodes) == [x for x in m.nodes], "iteration")
        for q in ("x", "y", "w"):
            at = [h[1] for h in have if h[0] == q]
            env.check((q in m.nodes) == bool(at), "membership of a name")
            if at:
                env.check(m.nodes[q] is at[0], "look-up by name")
            else:
                env.raises(KeyError, lambda: m.nodes[q], "no such node")
        for h in have:
            env.check(h[1] in m.nodes, "membership of a node")
        for h in gone:
            env.check(h[1] not in m.nodes, "a deleted node is not in the model")


class Plain(Recorder):
    pass


def h_components(env, n, roles):
    """Parameters and recorders of a model are looked up, counted and listed as created; their names are unique between them."""
    m = model(env)
    made = []
    for k in range(n):
        kind = env.choice("kind%d" % k, ["parameter", "recorder"])
        name = env.choice("name%d" % k, ["x", "y", None])
        mk = (lambda: ConstantParameter(m, 1.0, name=name)) if kind == "parameter" else \
            (lambda: Plain(m, name=name))
        # an unnamed recorder is named by its class
        if any(n is not None and n == (name or (kind == "recorder" and "plain")) for n, _, _ in made):
            env.raises(ValueError, mk, "a name in use is refused")
            return
        o = mk()
        if not roles:
            role = k if kind == "recorder" else k == 1
        else:
            role = env.choice("role%d" % k, [0, 1] if kind == "parameter" else [0, 1, 2, 3])
        flags = (role in (1, 3), role in (2, 3))
        if kind == "parameter":
            o.is_variable = flags[0]
        else:
            o.is_objective = "max" if flags[0] else None
            if flags[1]:
                o.constraint_upper_bounds = 1.0
        env.check(o.name == (name or (None if kind == "parameter" else "plain")), "the name given, or the recorder's class")
        made.append((o.name, (o, kind), flags))
    if env.fork(env.bool("rename")):
        (nm, (o, kind), fl) = made[0]
        taken = any(n == "y" for n, _, _ in made)
        if taken:
            env.raises(ValueError, lambda: setattr(o, "name", "y"), "a name in use is refused")
        else:
            o.name = "y"
            made[0] = ("y", (o, kind), fl)
    views = {
        "components": (m.components, lambda k, f: True),
        "parameters": (m.parameters, lambda k, f: k == "parameter"),
        "recorders": (m.recorders, lambda k, f: k == "recorder"),
        "variables": (m.variables, lambda k, f: k == "parameter" and f[0]),
        "objectives": (m.objectives, lambda k, f: k == "recorder" and f[0]),
        "constraints": (m.constraints, lambda k, f: k == "recorder" and f[1]),
    }
    for label, (view, keep) in views.items():
        want = [(n, o) for n, (o, k), f in made if keep(k, f)]
        env.check(list(view.items()) == want, label + ": names and objects, in the order made")
        env.check(list(view.keys()) == [n for n, _ in want], label + ": names")
        env.check(list(view) == list(view.values()) == [o for _, o in want], label + ": objects")
        env.check(len(view) == len(want), label + ": number")
        for n, (o, k), f in made:
            inside = keep(k, f)
            env.check((o in view) == inside, label + ": membership")
            if n is not None:
                env.check((n in view) == inside, label + ": membership of a name")
                if inside:
                    env.check(view[n] is o, label + ": look-up by name")
                else:
                    env.raises(KeyError, lambda: view[n], label + ": no such component")
        if want:
            extra = ConstantParameter(model(env), 1.0, name="extra")
            view.append(extra)
            view["any"] = extra
            env.check(list(view)[-2:] == [extra, extra] and len(view) == len(want) + 2, label + ": a list made longer")
            del view["extra"]
            env.check(len(view) == len(want) + 1, label + ": a list made shorter")


# ------------------------------------------------------------------ deleting

def whole(env, kind, m, a, z, l):
    """A node of each kind between a and z."""
    v = env.real("v", 1, 100)
    mk = {
        "link": lambda: Link(m, "p", max_flow=v),
        "storage": lambda: Storage(m, "p", max_volume=v, initial_volume=0),
        "storage many": lambda: Storage(m, "p", max_volume=v, initial_volume=0, inputs=3, outputs=2),
        "piecewise": lambda: N.PiecewiseLink(m, name="p", nsteps=2, max_flows=[v, v]),
        "split": lambda: N.MultiSplitLink(m, name="p", nsteps=1, factors=[1, v]),
        "break": lambda: N.BreakLink(m, "p", max_flow=v),
        "loss": lambda: N.LossLink(m, "p", loss_factor=0.5),
        "delay": lambda: N.DelayNode(m, "p", timesteps=2),
        "gauge": lambda: R.RiverGauge(m, name="p", mrf=v),
        "river split": lambda: R.RiverSplit(m, name="p", factors=[1, v]),
        "split gauge": lambda: R.RiverSplitWithGauge(m, name="p", factors=[1, v], mrf=v),
        "reservoir": lambda: R.Reservoir(m, name="p", max_volume=v, initial_volume=1, above_curve_cost=0, control_curve=0.5, cost=-1),
        "virtual": lambda: N.VirtualStorage(m, "p", [l], max_volume=v, initial_volume=0),
        "aggregated": lambda: N.AggregatedNode(m, "p", [l, a]),
        "aggregated storage": lambda: N.AggregatedStorage(m, "p", []),
    }
    p = mk[kind]()
    if kind in ("split", "river split", "split gauge"):
        a.connect(p)
        p.connect(z, from_slot=0)
        p.connect(z, from_slot=1)
    elif kind not in ("virtual", "aggregated", "aggregated storage"):
        a.connect(p, **(dict(to_slot=1) if kind == "storage many" else {}))
        p.connect(z, **(dict(from_slot=2) if kind == "storage many" else {}))
    return p


KINDS = ("link", "storage", "storage many", "piecewise", "split", "break", "loss", "delay", "gauge", "river split", "split gauge", "reservoir",
         "virtual", "aggregated", "aggregated storage")


def h_delete(env, kind, by):
    """A deleted node goes with its parts and connections; everything else stays."""
    m = model(env, (2,))
    a, l, z = (m.nodes[n] for n in ("in", "link", "out"))
    before = (list(m.graph.nodes()), sorted((x.name, y.name) for x, y in m.edges()))
    p = whole(env, kind, m, a, z, l)
    other = Link(m, "other") if by == "late" else None
    if other is not None:
        a.connect(other)
        other.connect(z)
    if kind != "storage many":       # all of whose inlets and outlets have to be connected
        m.check()
    if by != "unset":
        m.setup()
        env.check(not m.dirty, "a model that has been set up is not dirty")
    env.check(p in m.nodes and "p" in m.nodes, "the node is in the model")
    n = len(m.nodes)
    if by == "object":
        del m.nodes[p]
    else:
        del m.nodes["p"]
    env.check(m.dirty, "a model with a node less has to be set up anew")
    env.check("p" not in m.nodes and p not in m.nodes and len(m.nodes) == n - 1, "the node is not in the model")
    env.check(list(m.graph.nodes()) == before[0] + ([] if other is None else [other]), "every other node is left, and no part of the deleted one")
    more = [] if other is None else [("in", "other"), ("other", "out")]
    env.check(sorted((x.name, y.name) for x, y in m.edges()) == sorted(before[1] + more), "every other connection is left")
    m.check()
    # its name is free again
    q = Link(m, "p")
    a.connect(q)
    q.connect(z)
    m.setup()
    env.check(m.nodes["p"] is q, "the new node of that name")


# ------------------------------------------------------------------ parameters in use

USES = {
    "max_flow": lambda m, o, p: setattr(o["a"], "max_flow", p),
    "min_flow": lambda m, o, p: setattr(o["l"], "min_flow", p),
    "cost": lambda m, o, p: setattr(o["z"], "cost", p),
    "volume": lambda m, o, p: Storage(m, "s", max_volume=p, initial_volume=0, initial_volume_pc=0.0),
    "least volume": lambda m, o, p: Storage(m, "s", min_volume=p, max_volume=9, initial_volume=0),
    "storage cost": lambda m, o, p: Storage(m, "s", max_volume=9, initial_volume=0, cost=p),
    "level": lambda m, o, p: Storage(m, "s", max_volume=9, initial_volume=0, level=p),
    "area": lambda m, o, p: Storage(m, "s", max_volume=9, initial_volume=0, area=p),
    "aggregated max": lambda m, o, p: setattr(N.AggregatedNode(m, "s", [o["a"], o["b"]]), "max_flow", p),
    "aggregated min": lambda m, o, p: setattr(N.AggregatedNode(m, "s", [o["a"], o["b"]]), "min_flow", p),
    "factors": lambda m, o, p: setattr(N.AggregatedNode(m, "s", [o["a"], o["b"]]), "factors", [1.0, p]),
    "licence": lambda m, o, p: N.VirtualStorage(m, "s", [o["a"]], max_volume=p, initial_volume=0, initial_volume_pc=0.0),
    "licence min": lambda m, o, p: N.VirtualStorage(m, "s", [o["a"]], min_volume=p, max_volume=9, initial_volume=0),
    "step flow": lambda m, o, p: N.PiecewiseLink(m, name="s", nsteps=2, max_flows=[1, p]),
    "step cost": lambda m, o, p: N.PiecewiseLink(m, name="s", nsteps=2, costs=[1, p]),
    "split": lambda m, o, p: N.MultiSplitLink(m, name="s", nsteps=1, factors=[1, p]),
    "break flow": lambda m, o, p: N.BreakLink(m, "s", max_flow=p),
    "break least": lambda m, o, p: N.BreakLink(m, "s", min_flow=p),
    "break cost": lambda m, o, p: N.BreakLink(m, "s", cost=p),
    "loss": lambda m, o, p: N.LossLink(m, "s", loss_factor=p),
    "loss flow": lambda m, o, p: N.LossLink(m, "s", max_flow=p),
    "loss cost": lambda m, o, p: N.LossLink(m, "s", cost=p),
    "gauge": lambda m, o, p: R.RiverGauge(m, name="s", mrf=p),
    "gauge cost": lambda m, o, p: R.RiverGauge(m, name="s", mrf_cost=p),
    "catchment": lambda m, o, p: R.Catchment(m, name="s", flow=p),
    "parameter": lambda m, o, p: setattr(o["a"], "max_flow", AggregatedParameter(m, [p], agg_func="sum", name="s")),
    "recorder": lambda m, o, p: NumpyArrayParameterRecorder(m, p, name="s"),
    "curve": lambda m, o, p: setattr(o["a"], "max_flow", ControlCurveParameter(m, Storage(m, "t", max_volume=9, initial_volume=0), [p], values=[1, 2],
                                                                               name="s")),
}


def h_orphans(env, use):
    """The parameters nothing uses, and no others, are reported."""
    m, o, have = network(env, ())
    p = ConstantParameter(m, env.real("v", 0.125, 0.5), name="p")
    spare = ConstantParameter(m, 1.0, name="spare") if env.fork(env.bool("another")) else None
    chain = env.fork(env.bool("used through another"))
    used = env.fork(env.bool("used"))
    top = p
    if chain:
        top = AggregatedParameter(m, [p], agg_func="max", name="top")
    if used:
        USES[use](m, o, top)
    for n in m.graph.nodes():
        n.allow_isolated = True
    want = {q for q in (spare, None if used else top) if q is not None}
    env.check(m.find_orphaned_parameters() == want, "the parameters nothing uses")
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        m.check()
    about = [w for w in said if issubclass(w.category, OrphanedParameterWarning)]
    env.check(len(about) == (1 if want else 0), "a warning exactly when a parameter is not used")
    env.check(all(str(len(want)) in str(w.message) for w in about), "how many are not used")


# ------------------------------------------------------------------ results

class Telling(FreeFlow):
    """A solver with settings and figures to report."""
    settings = {"way": "free", "depth": 3}
    stats = {"total": 1.5}


def h_result(env, n, scen):
    """A run's result reports its steps, scenarios and solver; the combined frame holds each recorder's frame under its name."""
    m = model(env, scen, end="2015-01-%02d" % n, flow=flows(env, ("link", "out")))
    st = Storage(m, "st", max_volume=100, initial_volume=env.real("v", 1, 99))
    recs = {"flow": NumpyArrayNodeRecorder(m, m.nodes["link"], name="flow"), "out": NumpyArrayNodeRecorder(m, m.nodes["out"], name="out"),
            "volume": NumpyArrayStorageRecorder(m, st, name="volume")}
    TotalDeficitNodeRecorder(m, m.nodes["out"], name="number")
    m.solver = Telling(m.solver.fn)
    for run in range(2):
        r = m.run()
        ns = nscen(m)
        env.check(r.timesteps == n and r.num_scenarios == ns, "steps and scenarios of the run")
        env.check(r.solver_name == "freeflow" and r.timestep.index == n - 1, "solver and last step of the run")
        env.check(r.time_taken_with_overhead >= r.time_taken >= 0, "time taken")
        f = r.to_dataframe()
        for k, v in (("timesteps", n), ("num_scenarios", ns), ("solver_name", "freeflow"), ("solver_settings.way", "free"), ("solver_settings.depth", 3),
                     ("solver_stats.total", 1.5), ("timestep", pandas.Timestamp(2015, 1, n))):
            env.check(f.loc[k, "Value"] == v, "reported " + k)
        d = r.to_dict()
        env.check(set(k.split(".")[0] for k in f.index) == set(d), "every figure is reported")
        repr(r)
    df = m.to_dataframe()
    # the columns of each recorder's frame under its name, in the order of the recorders
    want = []
    for name, rec in recs.items():
        for c in rec.to_dataframe().columns:
            want.append((name,) + tuple(c if isinstance(c, tuple) else (c,)))
    env.check([tuple(c) for c in df.columns] == want, "recorders' columns")
    env.check(df.columns.names[0] == "Recorder", "name of the columns' first level")
    for name, rec in recs.items():
        sub = rec.to_dataframe()
        for j in range(ns):
            for t in range(n):
                at = want.index((name,) + tuple(sub.columns[0] if isinstance(sub.columns[0], tuple) else (sub.columns[0],))) + j
                env.eq(df.iloc[t, at], sub.iloc[t, j], "%s at step %d" % (name, t))
                log = {"flow": ("link", t, j), "out": ("out", t, j)}.get(name)
                if log:
                    env.eq(df.iloc[t, at], m.solver.log[log], "%s at step %d is the flow" % (name, t))


class Broken(Exception):
    pass


class Calls(Parameter):
    """Counts its calls; fails where told to."""

    def __init__(self, model, name, where=None, **kw):
        super().__init__(model, name=name, **kw)
        self.where, self.calls = where, {}

    def note(self, what, at=None):
        self.calls[what] = self.calls.get(what, 0) + 1
        if self.where is not None and self.where(what, at):
            raise Broken(what)

    def setup(self):
        super().setup()
        self.note("setup")

    def reset(self):
        super().reset()
        self.note("reset")

    def before(self):
        super().before()
        self.note("before", self.model.timestep.index)

    def value(self, ts, si):
        self.note("value", ts.index)
        return 1.0

    def after(self):
        super().after()
        self.note("after", self.model.timestep.index)

    def finish(self):
        super().finish()
        self.note("finish")


class Told(Link):
    done = 0

    def finish(self):
        super().finish()
        self.done += 1


def h_finish(env, n):
    """Every node and component of a run is finished once, also when a step of the run fails; the failure is reported."""
    m = model(env, (2,), end="2015-01-%02d" % n)
    k = env.choice("fails at", list(range(n)) + [None])
    what = env.choice("in", ["before", "value", "after"])
    good = Calls(m, "good")
    bad = Calls(m, "bad", lambda w, t: k is not None and w == what and t == k)
    told = Told(m, "told")
    m.nodes["in"].connect(told)
    told.connect(m.nodes["out"])
    last = Calls(m, "last")
    for run in (1, 2):
        if k is None:
            env.check(m.run().timesteps == n, "steps run")
        else:
            env.raises(Broken, m.run, "a failure of a step is reported")
        steps_ = n if k is None else k + 1
        env.check(told.done == run, "each node is finished once a run")
        for p in (good, bad, last):
            env.check(p.calls["finish"] == run, "each component is finished once a run")
            env.check(p.calls["setup"] == 1 and p.calls["reset"] == run, "set up once, reset for each run")
        env.check(bad.calls.get("before") == run * steps_, "steps begun")
    if k is None:
        for p in (good, bad, last):
            env.check(p.calls["before"] == p.calls["after"] == 2 * n and p.calls["value"] == 4 * n, "called for every step")


def h_nothing(env):
    """A run of no steps is an error, not an empty result."""
    m = model(env)
    a = env.int("end before start", 1, 40)
    m.timestepper.start = "2015-03-01"
    m.timestepper.end = pandas.Timestamp("2015-03-01") - pandas.Timedelta(days=env.choice("days", [1, 2, 30]))
    env.raises((RuntimeError, ValueError, IndexError), m.run, "a run of no steps")


def h_model(env):
    """What a model cannot be made with is refused."""
    env.raises(TypeError, lambda: Model(color="blue"), "an unknown attribute of a model")
    env.raises(KeyError, lambda: Model(solver="none such"), "an unknown solver")
    for s in ("glpk", "GLPK", "glpk-edge"):
        env.check(Model(solver=s).solver.name == s.lower(), "the solver named")
    m, w = Model(), Model()
    a, z = Input(m, "a"), Output(w, "z")
    env.raises(RuntimeError, lambda: a.connect(z), "nodes of different models")
    env.raises(TypeError, lambda: a.connect(N.AggregatedNode(m, "agg", [a])), "a node that cannot be connected")
    env.raises(TypeError, lambda: Input(m, "q", nonsense=1), "an unknown attribute of a node")
    env.check("q" not in m.nodes and len(m.nodes) == 2, "a node that could not be made is not in the model")
    o = Output(m, "o")
    a.connect(o)
    m.dirty = False
    env.raises(Exception, lambda: o.disconnect(a), "nodes that are not connected")
    env.check(list(m.edges()) == [(a, o)], "connections left")
    a.disconnect(o)
    env.check(list(m.edges()) == [] and m.dirty, "disconnected")
    b = Link(m, "b")
    for x in (o, b):
        a.connect(x)
    b.connect(o)
    a.disconnect()
    env.check(list(m.edges()) == [(b, o)], "every connection from a node is removed")


def harnesses(tier):
    out = []
    for middle in ("link", "input", "output"):
        for first in (False, True):
            for drop in ([("a", "z"), ("l", "m")], [("m", "l"), ("b", "m")]) if tier == "quick" else ([],):
                out.append(task(h_routes, name="routes(%s,%s,%s)" % (middle, first, "-".join(e[0] + e[1] for e in drop)),
                                params=dict(middle=middle, first=first, drop=drop)))
    out += sweep(h_isolated, over={"middle": ["link", "input", "output", "domain"],
                                    "drop": [(("a", "z"), ("l", "m"), ("b", "l"))] if tier == "quick" else [()]})
    out.append(task(h_registry, params=dict(n=2 if tier == "quick" else 3)))
    out += [task(h_components, params=dict(n=2, roles=True)), task(h_components, params=dict(n=3, roles=False))]
    out += sweep(h_delete, over={"kind": list(KINDS), "by": ["name", "object", "unset", "late"]})
    out += sweep(h_orphans, over={"use": list(USES)})
    out += [task(h_result, params=dict(n=n, scen=s)) for n, s in ((1, ()), (3, (2,)), (2, (2, 2)))]
    out += [task(h_finish, params=dict(n=n)) for n in (1, 3)]
    out += [task(h_nothing), task(h_model)]
    for what in ("output", "link", "storage", "input", "licence", "ratio"):
        for sv in ("route", "edge", "route-once"):
            out.append(removetask(what, sv))
    return out
