"""C31: coupled models advance together and exchange current values."""
import itertools
import json
import os
import shutil
import tempfile
import numpy as np
import pandas
from checks.lib import *
from pywr.nodes import *
from pywr.model import Model, MultiModel
from pywr.parameters import *
from pywr.parameters.multi_model_parameters import *
from pywr.recorders import NumpyArrayParameterRecorder, NumpyArrayIndexParameterRecorder, NumpyArrayNodeRecorder, NumpyArrayStorageRecorder

BOUNDS = ("two or three sub-models in every order, 4 scenarios at most (also chosen combinations), 3 time-steps of 1 or 7 days or a month, arbitrary flows, "
          "parameter values and indices; each kind of coupling (parameter, index, flow, storage, shadow node, shadow storage) in each direction, chains and "
          "mutual references of couplings; one run, two runs, runs after a change of a sub-model")
OUTSIDE = ["sub-models that are stepped on their own", "time-steps shorter than a day", "values of a node's previous flow"]


class Probe(Parameter):
    """Sees what a parameter of the model would see at its evaluation."""

    def __init__(self, model, fn, name, **kw):
        super().__init__(model, name=name, **kw)
        self.fn = fn
        self.seen = {}

    def setup(self):
        super().setup()
        self.seen = {}

    def value(self, ts, si):
        self.seen[(ts.index, si.global_id)] = self.fn(si.global_id)
        return 0.0


class Mark(Parameter):
    def __init__(self, model, log, name, **kw):
        super().__init__(model, name=name, **kw)
        self.log = log

    def before(self):
        self.log.append((self.name, "before", self.model.timestep.index, self.model.timestep.datetime))

    def value(self, ts, si):
        return 0.0

    def after(self):
        self.log.append((self.name, "after", self.model.timestep.index, self.model.timestep.datetime))


def sub(env, k, scen, end="2015-01-03", start="2015-01-01", step=1, v0=500.0):
    """Sub-model k: a link and a storage, an arbitrary parameter and an arbitrary index."""
    m = Model(start=start, end=end, timestep=step)
    for i, n in enumerate(scen):
        Scenario(m, "s%d" % i, size=n)
    if scen:
        m.scenarios.user_combinations = combos(scen)
    a, l, o = Input(m, "in%d" % k), Link(m, "link%d" % k), Output(m, "out%d" % k)
    a.connect(l)
    l.connect(o)
    st = Storage(m, "st%d" % k, max_volume=1000.0, initial_volume=v0)
    a.connect(st)
    st.connect(o)
    Var(m, env, "var%d" % k, -100, 100)
    IndexVar(m, env, "ind%d" % k, 3)
    m.solver = FreeFlow(flows(env, ["link%d" % k, "st%d" % k], -5, 5))
    return m


KINDS = ["parameter", "index", "flow", "storage", "shadow node", "shadow storage"]


def couple(m, kind, name, other, j):
    """In model m, couple to sub-model j called `other`; fn(t, s) that gives what was seen."""
    if kind == "parameter":
        p = OtherModelParameterValueParameter(m, other, "var%d" % j, name=name)
    elif kind == "index":
        p = OtherModelIndexParameterValueIndexParameter(m, other, "ind%d" % j, name=name)
        r = NumpyArrayIndexParameterRecorder(m, p, name="rec " + name)
        return lambda t, s: r.data[t, s]
    elif kind == "flow":
        p = OtherModelNodeFlowParameter(m, other, "link%d" % j, name=name)
    elif kind == "storage":
        p = OtherModelNodeStorageParameter(m, other, "st%d" % j, name=name)
    elif kind == "shadow node":
        n = ShadowNode(m, other, "link%d" % j, name="node " + name)
        p = Probe(m, lambda s: n.flow[s], name)
        return lambda t, s: p.seen[(t, s)]
    elif kind == "shadow storage":
        n = ShadowStorage(m, other, "st%d" % j, name="node " + name)
        p = Probe(m, lambda s: (n.volume[s], n.current_pc[s], n.flow[s]), name)
        return lambda t, s: p.seen[(t, s)]
    r = NumpyArrayParameterRecorder(m, p, name="rec " + name)
    return lambda t, s: r.data[t, s]


def truth(env, m, kind, j, t, s, days, v0=500.0):
    """What sub-model j offers at the end of its step t (-1: before the first)."""
    if kind == "parameter":
        return m.parameters["var%d" % j].at(t, s) if t >= 0 else 0.0
    if kind == "index":
        return m.parameters["ind%d" % j].at(t, s) if t >= 0 else 0
    f = lambda n, k: m.solver.log[(n, k, s)]
    if kind in ("flow", "shadow node"):
        return f("link%d" % j, t) if t >= 0 else 0.0
    v = v0
    for k in range(t + 1):
        v = v + f("st%d" % j, k) * days[k]
    if kind == "storage":
        return v
    return (v, v / 1000.0, f("st%d" % j, t) if t >= 0 else 0.0)


def same(env, got, want, label):
    if isinstance(want, tuple):
        for g, w, what in zip(got, want, ("volume", "proportional volume", "flow")):
            env.eq(g, w, label + ": " + what)
    else:
        env.eq(got, want, label)


def h_exchange(env, kind, first, how="once", scen=(2,), step=1, combos=None):
    """Model 0 sees what model 1 offers: of this time-step when model 1 has taken it already, else of the one before."""
    end = {1: "2015-01-03", 7: "2015-01-21", "M": "2015-03-31"}[step]
    days = {1: [1, 1, 1], 7: [7, 7, 7], "M": [31, 28, 31]}[step]
    ms = [sub(env, k, scen, end=end, step=step) for k in range(2)]
    for m in ms:
        if combos:
            m.scenarios.user_combinations = combos
    seen = couple(ms[0], kind, "c", "m1", 1)
    mm = MultiModel()
    for k in ((0, 1) if first else (1, 0)):
        mm.add_model("m%d" % k, ms[k])
    if how == "setup":
        mm.setup()
    mm.run()
    if how == "twice":
        mm.run()
    if how == "changed":
        Link(ms[1], "more")                    # the sub-model has to be set up again
        mm.run()
    if how == "longer":
        for m in ms:
            m.timestepper.end = "2015-01-02"
        mm.run()
        for m in ms:
            m.timestepper.end = end
        mm.run()
    n = nscen(ms[0])
    env.check(n == (len(combos) if combos else int(np.prod(scen))), "scenarios")
    for t in range(3):
        for s in range(n):
            same(env, seen(t, s), truth(env, ms[1], kind, 1, t - 1 if first else t, s, days), "value of the other model")


def h_mutual(env, order, kinds, how="once"):
    """Three models that each see the two others."""
    ms = [sub(env, k, (2,)) for k in range(3)]
    seen = {}
    for i in range(3):
        for j in range(3):
            if i != j:
                k = kinds[(i + j) % len(kinds)]
                seen[i, j] = couple(ms[i], k, "c%d%d" % (i, j), "m%d" % j, j), k
    mm = MultiModel()
    for k in order:
        mm.add_model("m%d" % k, ms[k])
    mm.run()
    if how == "twice":
        mm.run()
    for (i, j), (f, kind) in seen.items():
        late = order.index(j) > order.index(i)
        for t in range(3):
            for s in range(2):
                same(env, f(t, s), truth(env, ms[j], kind, j, t - 1 if late else t, s, [1] * 3), "m%d sees m%d" % (i, j))


def h_chain(env, order):
    """A coupling to a coupling: each link of the chain is current when its model runs later."""
    ms = [sub(env, k, (2,)) for k in range(3)]
    OtherModelParameterValueParameter(ms[1], "m0", "var0", name="one")
    two = OtherModelParameterValueParameter(ms[2], "m1", "one", name="two")
    r = NumpyArrayParameterRecorder(ms[2], two, name="r")
    mm = MultiModel()
    for k in order:
        mm.add_model("m%d" % k, ms[k])
    mm.run()
    lag = (order.index(0) > order.index(1)) + (order.index(1) > order.index(2))
    for t in range(3):
        for s in range(2):
            env.eq(r.data[t, s], ms[0].parameters["var0"].at(t - lag, s) if t >= lag else 0.0, "value at the end of the chain")


def h_feedback(env, first):
    """The other model's value limits a node, and what the node then has is seen back."""
    ms = [sub(env, k, (2,)) for k in range(2)]
    p = OtherModelParameterValueParameter(ms[0], "m1", "var1", name="limit")
    ms[0].nodes["link0"].max_flow = p
    agg = AggregatedParameter(ms[0], [p, ms[0].parameters["var0"]], agg_func="sum", name="sum")
    back = OtherModelParameterValueParameter(ms[1], "m0", "sum", name="back")
    r = NumpyArrayParameterRecorder(ms[1], back, name="r")
    mm = MultiModel()
    for k in ((0, 1) if first else (1, 0)):
        mm.add_model("m%d" % k, ms[k])
    mm.run()
    v = [[[ms[k].parameters["var%d" % k].at(t, s) for s in range(2)] for t in range(3)] for k in range(2)]
    for s, si in enumerate(ms[0].scenarios.combinations):
        env.eq(ms[0].nodes["link0"].get_max_flow(si), v[1][2 - (1 if first else 0)][s], "limit of the node")
        for t in range(3):
            if first:      # m0 then m1: back is of this step, the limit of the step before
                want = v[0][t][s] + (v[1][t - 1][s] if t else 0.0)
            else:          # m1 then m0: the limit is of this step, back of the step before
                want = v[0][t - 1][s] + v[1][t - 1][s] if t else 0.0
            env.eq(r.data[t, s], want, "what comes back")


def h_order(env, n, scen=(2,), step=1):
    """Every sub-model takes every time-step once, one model after the other in the declared order."""
    log = []
    order = env.choice("order", list(itertools.permutations(range(n))))
    end = env.choice("end", ["2015-01-01", "2015-01-08"])
    ms = {k: sub(env, k, scen, end=end, step=step) for k in range(n)}
    for k, m in ms.items():
        Mark(m, log, "mark%d" % k)
    mm = MultiModel()
    for k in order:
        mm.add_model("m%d" % k, ms[k])
    count = len(pandas.period_range("2015-01-01", end, freq="%dD" % step))
    for _ in range(2):
        del log[:]
        mm.run()
        want = []
        for t in range(count):
            d = pandas.Timestamp("2015-01-01") + pandas.Timedelta(days=step * t)
            for k in order:
                want += [("mark%d" % k, "before", t, d), ("mark%d" % k, "after", t, d)]
        env.check(log == want, "the steps and their order")


def h_sync(env, what):
    """Sub-models that do not have the same time-steps do not run together."""
    a, b = sub(env, 0, (1,)), sub(env, 1, (1,))
    exc = RuntimeError
    if what == "start":
        b.timestepper.start = "2015-01-02"
        b.timestepper.end = "2015-01-04"
    elif what == "longer":
        b.timestepper.end = "2015-01-04"
    elif what == "shorter":
        b.timestepper.end = "2015-01-02"
    elif what == "step":
        a.timestepper.end = b.timestepper.end = "2015-01-08"
        b.timestepper.delta = 7
    elif what == "one step":
        a.timestepper.end = b.timestepper.end = "2015-01-01"
        b.timestepper.delta = 7
    elif what == "month":
        for m in (a, b):
            m.timestepper.end = "2015-02-28"
        a.timestepper.delta = 31
        b.timestepper.delta = "M"
    elif what == "scenarios":
        Scenario(b, "more", size=2)
        exc = ValueError
    elif what == "size":
        a, b = sub(env, 0, (2,)), sub(env, 1, (3,))
        exc = ValueError
    elif what == "combinations":
        a, b = sub(env, 0, (2, 2)), sub(env, 1, (2, 2))
        a.scenarios.user_combinations = [[0, 0], [1, 1]]
        b.scenarios.user_combinations = [[0, 0], [0, 1]]
        exc = ValueError
    elif what == "number of combinations":
        a, b = sub(env, 0, (2, 2)), sub(env, 1, (2, 2))
        b.scenarios.user_combinations = [[0, 0], [0, 1]]
        exc = ValueError
    elif what == "slice":
        a, b = sub(env, 0, (3,)), sub(env, 1, (3,))
        a.scenarios.user_combinations = b.scenarios.user_combinations = None
        b.scenarios.scenarios[0].slice = slice(0, 2)
        exc = ValueError
    swap = env.choice("swap", [False, True])
    mm = MultiModel()
    for n, m in (("b", b), ("a", a)) if swap else (("a", a), ("b", b)):
        mm.add_model(n, m)
    env.raises(exc, lambda: mm.run(), what)


SYNC = ["start", "longer", "shorter", "step", "one step", "month", "scenarios", "size", "combinations", "number of combinations", "slice"]


def h_unknown(env, what):
    """A coupling to what is not there is an error, not a silent zero."""
    ms = [sub(env, k, (1,)) for k in range(2)]
    if what == "model":
        OtherModelParameterValueParameter(ms[0], "nobody", "var1", name="c")
    elif what == "parameter":
        OtherModelParameterValueParameter(ms[0], "m1", "nobody", name="c")
    elif what == "index":
        OtherModelIndexParameterValueIndexParameter(ms[0], "m1", "nobody", name="c")
    elif what == "flow":
        OtherModelNodeFlowParameter(ms[0], "m1", "nobody", name="c")
    elif what == "storage":
        OtherModelNodeStorageParameter(ms[0], "m1", "nobody", name="c")
    elif what == "shadow node":
        ShadowNode(ms[0], "m1", "nobody", name="c")
    elif what == "shadow storage":
        ShadowStorage(ms[0], "m1", "nobody", name="c")
    mm = MultiModel()
    for k in range(2):
        mm.add_model("m%d" % k, ms[k])
    env.raises(KeyError, lambda: mm.run(), what)


# ------------------------------------------------------------------ documents
def subdoc(k, extra):
    return {"metadata": {"title": "t%d" % k, "minimum_version": "0.1"}, "timestepper": {"start": "2001-01-01", "end": "2001-12-31", "timestep": 1},
            "scenarios": [{"name": "s", "size": 2}],
            "nodes": [{"name": "in", "type": "Input", "max_flow": 5.0 + k}, {"name": "link", "type": "Link"}, {"name": "out", "type": "Output", "cost": -10.0},
                      {"name": "st", "type": "Storage", "max_volume": 1000.0, "initial_volume": 10.0 + k}],
            "edges": [["in", "link"], ["link", "out"], ["in", "st"], ["st", "out"]],
            "parameters": dict({"p": {"type": "constantscenario", "scenario": "s", "values": [1.0 + k, 2.0 + k]},
                                "i": {"type": "constantscenarioindex", "scenario": "s", "values": [1, 2 + k]}}, **extra)}


COUPLINGS = {"cp": {"type": "othermodelparametervalue", "other_model": "one", "parameter": "p"},
             "ci": {"type": "OtherModelIndexParameterValueIndexParameter", "other_model": "one", "parameter": "i"},
             "cf": {"type": "othermodelnodeflow", "other_model": "one", "node": "link"},
             "cs": {"type": "othermodelnodestorage", "other_model": "one", "node": "st"}}


def h_doc(env, how, solvers=(None, "glpk-edge")):
    """Documents of several models: the sub-models, in the order of the document, with its period and time-step and the solvers asked for."""
    start, end, step = env.choice("period", [("2015-01-01", "2015-01-03", 1), ("2014-12-30", "2015-01-12", 7), ("2015-01-31", "2015-03-01", "M")])
    solver = env.choice("solver", list(solvers))
    own = env.choice("solver of a sub-model", list(reversed(solvers)))
    docs = [subdoc(0, {}), subdoc(1, COUPLINGS)]
    d = {"metadata": {"title": "all"}, "timestepper": {"start": start, "end": end, "timestep": step}, "models": []}
    path = tempfile.mkdtemp(prefix="vp-multi-")
    try:
        for k, name in enumerate(["one", "two"]):
            e = {"name": name}
            if how in ("files", "dict of files", "text of files"):
                e["filename"] = "sub%d.json" % k
                with open(os.path.join(path, e["filename"]), "w") as f:
                    json.dump(docs[k], f)
            else:
                e["data"] = docs[k]
            if k == 0 and own is not None:
                e["solver"] = own
            d["models"].append(e)
        top = os.path.join(path, "all.json")
        with open(top, "w") as f:
            json.dump(d, f)
        if how in ("files", "file"):
            mm = MultiModel.load(top, solver=solver)
        elif how == "open file":
            with open(top) as f:
                mm = MultiModel.load(f, path=top, solver=solver)
        elif how in ("text", "text of files"):
            mm = MultiModel.loads(json.dumps(d), path=path, solver=solver)
        else:
            mm = MultiModel.load(d, path=path, solver=solver)
    finally:
        shutil.rmtree(path, ignore_errors=True)
    env.check(list(mm.models) == ["one", "two"] and [m.metadata["title"] for m in mm.models.values()] == ["t0", "t1"], "sub-models in order")
    default = Model().solver.name
    for name, want in (("one", own or solver or default), ("two", solver or default)):
        env.check(mm.models[name].solver.name == want, "solver of model " + name)
    one, two = mm.models["one"], mm.models["two"]
    for m in (one, two):
        m.solver = FreeFlow(flows(env, ["link", "st"], 0, 5))
    recs = [NumpyArrayParameterRecorder(two, two.parameters[n], name="r" + n) for n in ("cp", "cf", "cs")]
    ri = NumpyArrayIndexParameterRecorder(two, two.parameters["ci"], name="ri")
    mm.run()
    want = pandas.period_range(start, end, freq=step if step == "M" else "%dD" % step)
    vol = [10.0, 10.0]
    for m in (one, two):
        env.check(len(m.timestepper) == len(want) and m.timestepper.start == pandas.Timestamp(start), "period and time-step")
    days = {1: [1, 1, 1], 7: [7, 7], "M": [31, 28, 31]}[step]
    for t in range(len(want)):
        for s in range(2):
            vol[s] = vol[s] + one.solver.log["st", t, s] * days[t]
            env.eq(recs[0].data[t, s], [1.0, 2.0][s], "parameter of the other model")
            env.eq(recs[1].data[t, s], one.solver.log["link", t, s], "flow of the other model")
            env.eq(recs[2].data[t, s], vol[s], "volume of the other model")
            env.check(ri.data[t, s] == [1, 2][s], "index of the other model")


def h_reject(env, what):
    d = {"timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1}, "models": [{"name": "one", "data": subdoc(0, {})}]}
    e = d["models"][0]
    exc = ValueError
    if what == "both":
        e["filename"] = "sub.json"
    elif what == "neither":
        del e["data"]
    elif what == "no models":
        del d["models"]
        exc = KeyError
    elif what == "no file":
        del e["data"]
        e["filename"] = "nobody.json"
        exc = FileNotFoundError
    elif what == "same name":
        d["models"].append({"name": "one", "data": subdoc(1, {})})
    env.raises(exc, lambda: MultiModel.load(d), what)


def harnesses(tier):
    deep = tier != "quick"
    out = sweep(h_exchange, over=dict(kind=KINDS, first=[True, False], how=["once", "twice", "setup", "changed", "longer"]))
    out += sweep(h_exchange, over=dict(kind=KINDS, first=[True, False], scen=[(2, 2)], step=[7]))
    out += sweep(h_exchange, over=dict(kind=KINDS, first=[True, False], scen=[(2, 2)], step=["M"], combos=[((1, 1), (0, 1))]))
    out += sweep(h_mutual, over=dict(order=list(itertools.permutations(range(3))), kinds=[("parameter", "storage", "flow"), ("index", "shadow node", "shadow storage")],
                                     how=["once", "twice"]))
    out += sweep(h_chain, over=dict(order=list(itertools.permutations(range(3)))))
    out += sweep(h_feedback, over=dict(first=[True, False]))
    out += sweep(h_order, over=dict(n=[2, 3], step=[1, 7]))
    out += sweep(h_sync, over=dict(what=SYNC))
    out += sweep(h_unknown, over=dict(what=["model"] + ["parameter", "index", "flow", "storage", "shadow node", "shadow storage"]))
    out += sweep(h_doc, over=dict(how=["files", "file", "open file", "text", "text of files", "dict", "dict of files"], solvers=[(None, "glpk", "glpk-edge") if deep else (None, "glpk-edge")]))
    out += sweep(h_reject, over=dict(what=["both", "neither", "no models", "no file", "same name"]))
    return out
