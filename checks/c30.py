"""C30: loading a document builds exactly the described model."""
import copy
import io
import itertools
import json
import os
import shutil
import tempfile
import numpy as np
from checks.lib import *
from checks.c25 import total
from pywr.nodes import *
from pywr.parameters import *
from pywr.parameters import load_parameter
from pywr.recorders import *
from pywr.recorders import load_recorder
from pywr.core import Model

BOUNDS = ("documents of up to 12 nodes, 10 parameters and 4 recorders; any reference graph among 3 parameters (known, unknown, to itself, circular) "
          "and any order of their definition; 50 parameter types and 20 recorder types, references given by name, defined before or after their user, or in place; "
          "definitions spread in any way over a document and up to two included ones; arbitrary values and flows over 2 time-steps")
OUTSIDE = ["documents read from data files (tables, url): C14", "the values of each parameter type: their own properties (C13 to C19)",
           "version requirements", "an existing model that is extended by a document"]

T = {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1}


def doc(nodes=None, edges=None, **kw):
    d = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": dict(T),
         "nodes": nodes if nodes is not None else [{"name": "in", "type": "Input"}, {"name": "link", "type": "Link"}, {"name": "out", "type": "Output"}],
         "edges": edges if edges is not None else [["in", "link"], ["link", "out"]]}
    d.update(kw)
    return d


def solve(env, m, names=("in", "link", "out")):
    m.solver = FreeFlow(flows(env, list(names), 0, 10))
    for t in steps(m):
        yield t


def names(it):
    return sorted(x.name for x in it)


def value(m, name, s=0):
    return m.parameters[name].get_value(m.scenarios.combinations[s])


# ------------------------------------------------------------------ reference graphs
def h_graph(env, kinds, inline=False):
    """Each parameter is the sum of a number and of any parameter, also itself or an unknown one: either the references can be
    followed, and each value is the one described, or the document is rejected."""
    n = len(kinds)
    nm = ["a", "b", "c"][:n]
    cands = nm + ["nobody"]
    ref = {x: env.choice("ref of " + x, cands) for x, k in zip(nm, kinds) if k == "sum"}
    c = {x: env.real("c_" + x, -10, 10) for x in nm}
    order = env.choice("order", list(itertools.permutations(range(n))) if n < 3 else [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    ps = {}
    for i in order:
        x = nm[i]
        if x in ref:
            r = ref[x]
            if inline:
                r = {"type": "aggregated", "agg_func": "sum", "parameters": [ref[x]]}
            ps[x] = {"type": "aggregated", "agg_func": "sum", "parameters": [r, c[x]] if inline else [r, {"type": "constant", "value": c[x]}]}
            if inline:
                ps[x]["parameters"][1] = {"type": "constant", "value": c[x]}
        else:
            ps[x] = {"type": "constant", "value": c[x]}

    def follow(x, seen=()):
        if x == "nobody" or x in seen:
            return None
        if x not in ref:
            return c[x]
        r = follow(ref[x], seen + (x,))
        return None if r is None else r + c[x]
    want = {x: follow(x) for x in nm}
    d = doc(parameters=ps)
    if any(w is None for w in want.values()):
        return env.raises(Exception, lambda: Model.load(d), "a reference that leads nowhere")
    m = Model.load(d)
    anonymous = sum(2 if inline else 1 for x in ref)
    env.check(len(list(m.parameters)) == n + anonymous, "each parameter is created once")
    for x in nm:
        env.check(sum(p.name == x for p in m.parameters) == 1, "one of the name")
    for x in ref:
        p = m.parameters[x]
        if not inline:
            env.check(any(q is m.parameters[ref[x]] for q in p.children), "refers to the parameter of the name")
            env.check(any(q is p for q in m.parameters[ref[x]].parents), "and is known to it")
    for _ in solve(env, m):
        for x in nm:
            env.eq(value(m, x), want[x], "value of " + x)


# ------------------------------------------------------------------ every type, references in every form
YEAR12 = [float(k) for k in range(1, 13)]
P = lambda k: ("ref", k)           # a parameter
I = lambda k: ("index", k)         # an index parameter
PARAMS = {
    "constant": dict(value=3.5, scale=2.0, offset=1.0),
    "monthlyprofile": dict(values=YEAR12),
    "dailyprofile": dict(values=[float(k) for k in range(366)]),
    "weeklyprofile": dict(values=[float(k) for k in range(52)]),
    "uniformdrawdownprofile": dict(reset_day=1, reset_month=4),
    "annualharmonicseries": dict(mean=0.5, amplitudes=[0.25], phases=[0.5]),
    "arrayindexed": dict(values=[4.0, 5.0]),
    "constantscenario": dict(scenario="s", values=[1.0, 2.0]),
    "constantscenarioindex": dict(scenario="s", values=[1, 0]),
    "arrayindexedscenariomonthlyfactors": dict(scenario="s", values=[2.0, 3.0], factors=[YEAR12, YEAR12[::-1]]),
    "scenariomonthlyprofile": dict(scenario="s", values=[YEAR12, YEAR12[::-1]]),
    "scenariowrapper": dict(scenario="s", parameters=[P(0), P(1)]),
    "aggregated": dict(agg_func="sum", parameters=[P(0), P(1)]),
    "aggregatedindex": dict(agg_func="sum", parameters=[I(0), I(1)]),
    "indexedarray": dict(index_parameter=I(0), parameters=[P(0), P(1)]),
    "controlcurve": dict(storage_node="st", control_curves=[P(0)], parameters=[P(1), P(2)]),
    "controlcurveindex": dict(storage_node="st", control_curves=[P(0)]),
    "controlcurveinterpolated": dict(storage_node="st", control_curves=[P(0)], values=[3.0, 2.0, 1.0]),
    "controlcurvepiecewiseinterpolated": dict(storage_node="st", control_curves=[P(0)], values=[[3.0, 2.0], [1.0, 0.0]], minimum=0.0),
    "weightedaverageprofile": dict(storages=["st", "st2"], profiles=[{"type": "monthlyprofile", "values": YEAR12}, {"type": "monthlyprofile", "values": YEAR12[::-1]}]),
    "division": dict(numerator=P(0), denominator=P(1)),
    "negative": dict(parameter=P(0)),
    "max": dict(parameter=P(0), threshold=0.5),
    "negativemax": dict(parameter=P(0), threshold=-0.5),
    "min": dict(parameter=P(0), threshold=0.5),
    "negativemin": dict(parameter=P(0), threshold=-0.5),
    "offset": dict(parameter=P(0), offset=2.0),
    "scaledprofile": dict(scale=2.0, profile={"type": "monthlyprofile", "values": YEAR12}),
    "deficit": dict(node="link"),
    "flow": dict(node="link", initial_value=2.0),
    "flowdelay": dict(node="link", timesteps=1, initial_flow=3.0),
    "rollingmeanflownode": dict(node="link", timesteps=2, initial_flow=3.0),
    "storage": dict(storage_node="st"),
    "interpolated": dict(parameter=P(0), x=[0.0, 1.0], y=[2.0, 5.0]),
    "interpolatedvolume": dict(node="st", volumes=[0.0, 100.0], values=[1.0, 3.0]),
    "interpolatedflow": dict(node="link", flows=[0.0, 10.0], values=[1.0, 3.0]),
    "interpolatedquadrature": dict(upper_parameter=P(0), lower_parameter=P(1), x=[0.0, 1.0], y=[1.0, 1.0]),
    "piecewiseintegral": dict(parameter=P(0), x=[0.0, 0.5, 1.0], y=[1.0, 2.0, 3.0]),
    "polynomial1d": dict(coefficients=[1.0, 2.0], parameter=P(0)),
    "polynomial1d node": dict(coefficients=[1.0, 2.0], node="link"),
    "polynomial1d storage": dict(coefficients=[1.0, 2.0], storage_node="st"),
    "polynomial2dstorage": dict(coefficients=[[1.0, 2.0], [3.0, 4.0]], storage_node="st", parameter=P(0)),
    "parameterthreshold": dict(parameter=P(0), threshold=P(1), predicate="<", values=[1.0, 2.0]),
    "storagethreshold": dict(storage_node="st", threshold=P(0), predicate=">", values=[1.0, 2.0]),
    "nodethreshold": dict(node="link", threshold=P(0), predicate=">", values=[1.0, 2.0]),
    "recorderthreshold": dict(recorder="rec", threshold=P(0), predicate="GT", values=[1.0, 2.0], initial_value=0.0),
    "multiplethresholdindex": dict(node="link", thresholds=[P(0), P(1)]),
    "multiplethresholdparameterindex": dict(parameter=P(2), thresholds=[P(0), P(1)]),
    "currentyearthreshold": dict(threshold=2015, predicate="LE", values=[1.0, 2.0]),
    "currentordinaldaythreshold": dict(threshold=735599, predicate="GT", values=[1.0, 2.0]),
    "discountfactor": dict(rate=0.05, base_year=2014),
    "hydropowertarget": dict(target=P(0), max_flow=P(1), water_elevation_parameter=P(2), turbine_elevation=-1.0),
    "timesteplicense": dict(node="link", amount=4.0),
    "rbfprofile": dict(days_of_year=[1, 100, 200], values=[1.0, 2.0, 3.0]),
    "binarystep": dict(value=0.5, lower_bounds=-1.0, upper_bounds=1.0, output=3.0),
    "rectifier": dict(value=0.5, lower_bounds=-1.0, upper_bounds=1.0, max_output=3.0),
    "logistic": dict(value=0.5, lower_bounds=-1.0, upper_bounds=1.0, max_output=3.0),
}
NAMES3 = ["p0", "p1", "p2"]


def fill(x, ref, used):
    if isinstance(x, tuple):
        used.add(x)
        return ref(*x)
    if isinstance(x, list):
        return [fill(y, ref, used) for y in x]
    if isinstance(x, dict):
        return {k: fill(v, ref, used) for k, v in x.items()}
    return x


def tdoc(env, kind, form, extra=()):
    """A document with one parameter x of the type; the parameters it uses are named and defined before or after, or in place."""
    p = {k: {"type": "constant", "value": env.real("p%d" % k, 0.1, 0.9)} for k in range(3)}
    i = {k: {"type": "constantscenarioindex", "scenario": "s", "values": [k % 2, 1 - k % 2]} for k in range(2)}

    def ref(what, k):
        if form == "inline":
            return copy.copy((p if what == "ref" else i)[k])
        return ("p%d" if what == "ref" else "i%d") % k
    used = set()
    x = fill(PARAMS[kind], ref, used)
    x["type"] = kind.split()[0]
    x["comment"] = "about x"
    x["tags"] = {"group": "g"}
    ps = {}
    if form == "after":
        ps["x"] = x
    for what, k in sorted(used):
        if form != "inline":
            ps[("p%d" if what == "ref" else "i%d") % k] = (p if what == "ref" else i)[k]
    if form != "after":
        ps["x"] = x
    nodes = [{"name": "in", "type": "Input", "max_flow": 20.0}, {"name": "link", "type": "Link", "max_flow": 15.0}, {"name": "out", "type": "Output"},
             {"name": "st", "type": "Storage", "max_volume": 100.0, "initial_volume": 60.0},
             {"name": "st2", "type": "Storage", "max_volume": 300.0, "initial_volume": 100.0}]
    d = doc(nodes, [["in", "link"], ["link", "out"], ["in", "st"], ["st", "out"], ["in", "st2"], ["st2", "out"]],
            scenarios=[{"name": "s", "size": 2}], parameters=ps,
            recorders={"rec": {"type": "numpyarraynode", "node": "link"}})
    return d, used, x


def h_type(env, kind, upper=False):
    """The same parameter whatever the form of its references, with its comment and tags, referring to what the document names."""
    vals = {}
    objs = {}
    for form in ("before", "after", "inline"):
        d, used, x = tdoc(env, kind, form)
        if not used and form != "before":
            continue
        if upper:
            x["type"] = x["type"].title() + "Parameter" if not kind.endswith("license") else x["type"].upper()
        m = Model.load(d)
        p = m.parameters["x"]
        env.check(p.comment == "about x" and p.tags == {"group": "g"} and p.name == "x", form + ": name, comment and tags")
        env.check(type(p).__name__.lower() in (kind.split()[0], kind.split()[0] + "parameter"), form + ": type")
        if form != "inline":
            env.check(set(q.name for q in m.parameters if q.name is not None) == set(d["parameters"]), form + ": the named parameters")
        for what, k in used:
            if form != "inline":
                q = m.parameters[("p%d" if what == "ref" else "i%d") % k]
                env.check(any(c is q for c in p.children), form + ": a reference is to the parameter of the name")
        env.check(len(list(m.recorders)) == 1, "one recorder")
        got = []
        for t in solve(env, m, ("in", "link", "out", "st")):
            for si in m.scenarios.combinations:
                got.append(p.get_value(si))
                if isinstance(p, IndexParameter):
                    got.append(p.get_index(si))
        vals[form] = got
        # the document can be used again
        env.check("type" in d["parameters"]["x"], "the document is not changed")
    env.check(len(vals["before"]) >= 4, "values of two steps")
    for form in vals:
        env.eqs(vals[form], vals["before"], "the value does not depend on how references are given: " + form)


RECS = {
    "numpyarraynode": dict(node="link"), "numpyarraynodedeficit": dict(node="link"), "numpyarraynodesuppliedratio": dict(node="link"),
    "numpyarraynodecurtailmentratio": dict(node="link"), "numpyarraynodecost": dict(node="link"), "numpyarraystorage": dict(node="st"),
    "numpyarrayparameter": dict(parameter=P(0)), "numpyarrayindexparameter": dict(parameter=I(0)), "meanparameter": dict(parameter=P(0), factor=2.0),
    "totalparameter": dict(parameter=P(0)), "totalflownode": dict(node="link"), "totaldeficitnode": dict(node="link"), "meanflownode": dict(node="link"),
    "rollingmeanflownode": dict(node="link", timesteps=2), "rollingwindowparameter": dict(parameter=P(0), window=2, agg_func="mean"), "deficitfrequencynode": dict(node="link"),
    "minimumvolumestorage": dict(node="st"), "minimumthresholdvolumestorage": dict(node="st", threshold=50.0), "numpyarraynormalisedstorage": dict(node="st", parameter=P(0)),
    "flowdurationcurve": dict(node="link", percentiles=[50.0]), "storagedurationcurve": dict(node="st", percentiles=[50.0]),
    "hydropower": dict(node="link", water_elevation_parameter=P(0), turbine_elevation=-1.0), "totalhydroenergy": dict(node="link", water_elevation_parameter=P(0), turbine_elevation=-1.0),
    "annualtotalflow": dict(nodes=["link", "in"], factors=[1.0, 2.0]),
    "event": dict(threshold={"type": "parameterthreshold", "parameter": P(0), "threshold": 0.5, "predicate": "GT"}),
    "aggregated": dict(recorders=["other", "third"], recorder_agg_func="sum"),
    "timestepcountindexparameter": dict(parameter=I(0), threshold=1), "annualcountindexparameter": dict(parameter=I(0), threshold=1),
}


DATA = ("numpyarrayindexparameter", "rollingwindowparameter", "numpyarraynode")


def h_recorder(env, kind, upper=False):
    """The same for recorders; also defined in any order."""
    out = {}
    for form in ("before", "after", "inline"):
        p = {k: {"type": "constant", "value": env.real("p%d" % k, 0.1, 0.9)} for k in range(3)}
        i = {k: {"type": "constantscenarioindex", "scenario": "s", "values": [k % 2, 1 - k % 2]} for k in range(2)}
        used = set()

        def ref(what, k):
            if form == "inline":
                return copy.copy((p if what == "ref" else i)[k])
            return ("p%d" if what == "ref" else "i%d") % k
        if form == "inline" and kind == "event":
            continue
        x = fill(RECS[kind], ref, used)
        if form == "inline" and not used:
            continue
        x["type"] = kind
        x["comment"] = "about x"
        x["tags"] = {"group": "g"}
        if upper:
            x["type"] = kind.title() + "Recorder"
        rs = {"other": {"type": "totalflownode", "node": "in"}, "third": {"type": "totalflownode", "node": "link"}}
        rs = dict([("x", x)] + list(rs.items())) if form == "after" else dict(list(rs.items()) + [("x", x)])
        ps = {} if form == "inline" else {("p%d" if w == "ref" else "i%d") % k: (p if w == "ref" else i)[k] for w, k in used}
        d, _, _ = tdoc(env, "constant", "before")
        d["parameters"], d["recorders"] = ps, rs
        m = Model.load(d)
        r = m.recorders["x"]
        env.check(names(m.recorders) == ["other", "third", "x"], form + ": the recorders of the document, once each")
        env.check(r.name == "x" and r.comment == "about x" and r.tags == {"group": "g"}, form + ": name, comment and tags")
        env.check(type(r).__name__.lower() in (kind, kind + "recorder"), form + ": type")
        if kind == "aggregated":
            env.check(all(any(c is m.recorders[n] for c in r.children) for n in ("other", "third")), form + ": recorders of the names")
        if form != "inline":
            env.check(set(q.name for q in m.parameters if q.name is not None) == set(ps), form + ": the named parameters")
            if kind != "event":
                for n in ps:
                    env.check(any(c is m.parameters[n] for c in r.children), form + ": parameter of the name")
        for t in solve(env, m, ("in", "link", "out", "st")):
            pass
        if kind not in ("event",):
            m.finish()
            out[form] = [v for v in np.asarray(r.data if kind in DATA else r.values()).ravel()]
    for form in out:
        env.eqs(out[form], out["before"], "the value does not depend on how references are given: " + form)


# ------------------------------------------------------------------ nodes and edges
def h_nodes(env, order, named):
    """Every attribute of every node is what the document says; order and form of the definitions do not matter."""
    c = {k: env.real(k, 1, 50) for k in ("a", "b", "cost", "vol", "minv", "f0", "f1")}
    ps = {}

    def par(k):
        if named == "literal":
            return c[k]
        if named == "inline":
            return {"type": "constant", "value": c[k]}
        ps[k] = {"type": "constant", "value": c[k]}
        return k
    nodes = [{"name": "in", "type": "Input", "max_flow": par("a"), "cost": par("cost")},
             {"name": "link", "type": "link", "max_flow": par("b"), "min_flow": par("a")},
             {"name": "out", "type": "OUTPUT", "cost": par("cost"), "comment": "end", "position": {"schematic": [1, 2]}},
             {"name": "st", "type": "Storage", "max_volume": par("vol"), "min_volume": 0.0, "initial_volume": 0.5, "cost": par("cost")},
             {"name": "agg", "type": "AggregatedNode", "nodes": ["link", "late"], "max_flow": par("b"), "factors": [c["f0"], c["f1"]]},
             {"name": "ags", "type": "AggregatedStorage", "storage_nodes": ["st", "st2"]},
             {"name": "vs", "type": "VirtualStorage", "nodes": ["late", "in"], "factors": [1.0, 2.0], "max_volume": 10.0, "initial_volume": 4.0},
             {"name": "late", "type": "Link", "max_flow": par("b")},
             {"name": "st2", "type": "Storage", "max_volume": 7.0, "initial_volume": 3.0}]
    edges = [["in", "link"], ["link", "out"], ["in", "late"], ["late", "out"], ["in", "st"], ["st", "out"], ["in", "st2"], ["st2", "out"]]
    nodes = [nodes[k] for k in order]
    d = doc(nodes, edges, parameters=ps)
    before = copy.deepcopy(d)
    m = Model.load(d)
    env.check(str(d) == str(before), "the document is not changed")
    env.check(names(m.nodes) == sorted(n["name"] for n in nodes), "each node once")
    kinds = dict(agg=AggregatedNode, ags=AggregatedStorage, vs=VirtualStorage, st=Storage, st2=Storage, late=Link, link=Link, out=Output)
    kinds["in"] = Input
    for n, k in kinds.items():
        env.check(type(m.nodes[n]) is k, "type of " + n)
    N = m.nodes
    env.check([x.name for x in N["agg"].nodes] == ["link", "late"] and N["agg"].nodes[0] is N["link"], "nodes of the aggregate")
    env.check([x.name for x in N["ags"].storage_nodes] == ["st", "st2"] and N["ags"].storage_nodes[1] is N["st2"], "storages of the aggregate")
    env.check([x.name for x in N["vs"].nodes] == ["late", "in"], "nodes of the licence")
    env.check(N["out"].comment == "end" and N["out"].position == {"schematic": [1, 2]}, "comment and position")
    # edges
    got = []
    for a, b in m.edges():
        f = lambda x: (x.parent.name if x.parent is not None else x.name)
        got.append((f(a), f(b)))
    env.check(sorted(got) == sorted(tuple(e) for e in edges), "exactly the edges of the document")
    if named == "named":
        env.check(sorted(p.name for p in m.parameters if p.name is not None) == sorted(ps), "each parameter once")
        env.check(N["in"].cost is N["out"].cost and N["in"].cost is m.parameters["cost"], "one parameter for all its users")
        env.check(N["link"].min_flow is m.parameters["a"] and N["agg"].max_flow is N["late"].max_flow, "parameters of the names")
    m.solver = FreeFlow(lambda node, t, s: 0.0 if node.name in ("in", "out", "link", "late", "st", "st2") else None)
    m.setup()
    m.step()
    si = m.scenarios.combinations[0]
    env.eq(N["in"].get_max_flow(si), c["a"], "limit")
    env.eq(N["in"].get_cost(si), c["cost"], "cost")
    env.eq(N["link"].get_min_flow(si), c["a"], "lower limit")
    env.eq(N["link"].get_max_flow(si), c["b"], "limit")
    env.eq(N["late"].get_max_flow(si), c["b"], "limit of a node defined later")
    env.eq(N["st"].get_max_volume(si), c["vol"], "volume")
    env.eq(N["st"].get_cost(si), c["cost"], "cost of the storage")
    env.eq(N["agg"].get_max_flow(si), c["b"], "limit of the aggregate")
    env.eqs([x for x in N["vs"].factors], [1.0, 2.0], "factors")
    env.eq(N["vs"].volume[0], 4.0, "volume of the licence")


def h_initial(env, how):
    """The initial volume of a storage can be given as other values are: as a number or as values."""
    v = env.real("v", 1, 50)
    given = {"number": v, "values": {"values": v}, "whole": 3}[how]
    nodes = [{"name": "in", "type": "Input"}, {"name": "out", "type": "Output"}, {"name": "st", "type": "Storage", "max_volume": 60.0, "initial_volume": given},
             {"name": "re", "type": "Reservoir", "max_volume": 60.0, "initial_volume": copy.copy(given)}]
    d = doc(nodes, [["in", "st"], ["st", "out"], ["in", "re"], ["re", "out"]])
    m = Model.load(d)
    m.solver = FreeFlow(lambda node, t, s: None)
    m.setup()
    for n in ("st", "re"):
        env.eq(m.nodes[n].volume[0], 3.0 if how == "whole" else v, "initial volume of " + n)
    env.raises(ValueError, lambda: Model.load(doc([dict(nodes[2], initial_volume={"nothing": 1})], [])), "no values")


def h_edges(env):
    """Slots of the edges."""
    nodes = [{"name": "in", "type": "Input"}, {"name": "in2", "type": "Input"}, {"name": "o1", "type": "Output"}, {"name": "o2", "type": "Output"},
             {"name": "st", "type": "Storage", "max_volume": 10.0, "initial_volume": 1.0, "inputs": 2, "outputs": 2},
             {"name": "ms", "type": "MultiSplitLink", "nsteps": 1, "max_flows": [1.0, 2.0], "costs": [1.0, 2.0], "extra_slots": 1, "slot_names": ["x", "y"], "factors": [1.0, 2.0]}]
    swap = env.choice("swap", [False, True])
    s = [1, 0] if swap else [0, 1]
    y = ["y", "x"] if swap else ["x", "y"]
    edges = [["in", "st", None, s[0]], ["in2", "st", None, s[1]], ["st", "ms", s[0], None], ["st", "o2", s[1], None],
             ["ms", "o1", y[0], None], ["ms", "o2", y[1], None]]
    order = env.choice("order", [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (3, 5, 1, 0, 4, 2)])
    m = Model.load(doc(nodes, [edges[k] for k in order]))
    N, G = m.nodes, m.graph
    st = N["st"]
    env.check(G.has_edge(N["in"], st.outputs[s[0]]) and not G.has_edge(N["in"], st.outputs[s[1]]), "slot into the storage")
    env.check(G.has_edge(N["in2"], st.outputs[s[1]]) and not G.has_edge(N["in2"], st.outputs[s[0]]), "other slot into the storage")
    env.check(G.has_edge(st.inputs[s[1]], N["o2"]) and not G.has_edge(st.inputs[s[0]], N["o2"]), "slot out of the storage")
    a, b = list(N["ms"].iter_slots(slot_name=y[0])), list(N["ms"].iter_slots(slot_name=y[1]))
    env.check(all(G.has_edge(x, N["o1"]) and not G.has_edge(x, N["o2"]) for x in a) and len(a) == 1, "slot of a split")
    env.check(all(G.has_edge(x, N["o2"]) and not G.has_edge(x, N["o1"]) for x in b) and len(b) == 1, "other slot of a split")
    env.check(a[0] is not b[0], "two slots")


def h_scenarios(env, how):
    sizes = (env.choice("size a", [1, 2, 3]), env.choice("size b", [2, 3]))
    sc = [{"name": "a", "size": sizes[0]}, {"name": "b", "size": sizes[1]}]
    want = list(itertools.product(range(sizes[0]), range(sizes[1])))
    kw = {}
    if how == "slice":
        sc[1]["slice"] = [1, None]
        want = [w for w in want if w[1] >= 1]
    elif how == "step":
        sc[1]["slice"] = [None, None, 2]
        want = [w for w in want if w[1] % 2 == 0]
    elif how == "user":
        kw["scenario_combinations"] = [[sizes[0] - 1, 1], [0, 0]]
        want = [(sizes[0] - 1, 1), (0, 0)]
    elif how == "names":
        sc[0]["ensemble_names"] = ["n%d" % k for k in range(sizes[0])]
    v = [env.real("v%d" % k, 0, 10) for k in range(sizes[1])]
    m = Model.load(doc(scenarios=sc, parameters={"p": {"type": "constantscenario", "scenario": "b", "values": v}}, **kw))
    m.setup()
    env.check([s.name for s in m.scenarios.scenarios] == ["a", "b"] and [s.size for s in m.scenarios.scenarios] == list(sizes), "scenarios")
    env.check([tuple(int(k) for k in si.indices) for si in m.scenarios.combinations] == want, "combinations")
    if how == "names":
        env.check(list(m.scenarios["a"].ensemble_names) == ["n%d" % k for k in range(sizes[0])], "names of the ensembles")
    for _ in solve(env, m):
        for s, w in enumerate(want):
            env.eq(value(m, "p", s), v[w[1]], "value of the scenario")


def h_time(env):
    """The period and the step of the document."""
    start, end, step = env.choice("period", [("2015-01-01", "2015-01-09", 1), ("2014-12-30", "2015-01-09", 7), ("2016-02-28", "2016-03-02", 2),
                                             ("2015-01-31", "2015-06-30", "M")])
    d = doc()
    d["timestepper"] = {"start": start, "end": end, "timestep": step}
    m = Model.load(d)
    import pandas
    m.setup()
    env.check(m.timestepper.start == pandas.Timestamp(start) and m.timestepper.end == pandas.Timestamp(end), "period")
    n = {1: 9, 7: 2, 2: 2, "M": 6}[step]
    env.check(len(m.timestepper) == n, "number of steps")


# ------------------------------------------------------------------ included documents
class Folder:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vp-doc-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def write(self, name, d):
        with open(os.path.join(self.path, name), "w") as f:
            json.dump(d, f)
        return os.path.join(self.path, name)


PIECES = ["node", "parameter", "recorder", "scenario"]


def h_include(env, how, nested):
    """Definitions spread over documents: the model is that of one document with all of them."""
    main = doc([{"name": "in", "type": "Input", "max_flow": 5.0}, {"name": "out", "type": "Output", "max_flow": "p"}], [["in", "l"]],
               parameters={"q": {"type": "negative", "parameter": "p"}}, recorders={})
    one, two = {"metadata": {"author": "x"}}, {}
    docs = [main, one, two]
    piece = {"node": ("nodes", {"name": "l", "type": "Link"}), "edge": ("edges", ["l", "out"]),
             "parameter": ("parameters", {"p": {"type": "constantscenario", "scenario": "s", "values": [2.0, 3.0]}}),
             "recorder": ("recorders", {"r": {"type": "numpyarraynode", "node": "l"}}), "scenario": ("scenarios", {"name": "s", "size": 2})}
    for k, (key, v) in piece.items():
        t = docs[env.choice("place of the " + k, [0, 1, 2])] if k != "edge" else one
        if isinstance(v, dict) and key in ("parameters", "recorders"):
            t.setdefault(key, {}).update(v)
        else:
            t.setdefault(key, []).append(v)
    main["includes"] = ["one.json"] if nested else ["one.json", "two.json"]
    if nested:
        one["includes"] = ["two.json"]
    if nested == "circle":
        two["includes"] = ["one.json"]
    with Folder() as f:
        f.write("one.json", one)
        f.write("two.json", two)
        path = f.write("main.json", main)
        if how == "path":
            m = Model.load(path)
        elif how == "file":
            with open(path) as h:
                m = Model.load(h, path=path)
        elif how == "text":
            m = Model.loads(json.dumps(main), path=path)
        else:
            m = Model.load(main, path=path)
    env.check(names(m.nodes) == ["in", "l", "out"], "each node once")
    env.check(names(m.parameters) == ["p", "q"] and names(m.recorders) == ["r"], "each component once")
    env.check([s.name for s in m.scenarios.scenarios] == ["s"], "each scenario once")
    env.check(sorted((a.name, b.name) for a, b in m.edges()) == [("in", "l"), ("l", "out")], "each edge once")
    env.check(m.nodes["out"].max_flow is m.parameters["p"] and m.metadata["title"] == "t", "references between documents")
    for t in solve(env, m, ("in", "l", "out")):
        for s in range(2):
            env.eq(value(m, "q", s), -[2.0, 3.0][s], "value")
    for s in range(2):
        for t in range(2):
            env.eq(m.recorders["r"].data[t, s], m.solver.log[("l", t, s)], "recorded")


def h_clash(env, what, where):
    """A name that is defined twice, in one document or in two, is reported."""
    base = doc(parameters={"p": {"type": "constant", "value": 1.0}}, recorders={"r": {"type": "totalflownode", "node": "in"}},
               scenarios=[{"name": "s", "size": 2}])
    again = {"node": ("nodes", {"name": "link", "type": "Link", "max_flow": 3.0}), "parameter": ("parameters", {"p": {"type": "constant", "value": 2.0}}),
             "recorder": ("recorders", {"r": {"type": "totalflownode", "node": "out"}}), "scenario": ("scenarios", {"name": "s", "size": 3}),
             "parameter and recorder": ("recorders", {"p": {"type": "totalflownode", "node": "out"}}),
             "recorder and parameter": ("parameters", {"r": {"type": "constant", "value": 2.0}})}
    key, v = again[what]
    if where == "same":
        if isinstance(base[key], list):
            base[key].append(v)
        else:
            base[key].update(v)
        return env.raises(ValueError, lambda: Model.load(base), "two of one name")
    inc = {key: v if isinstance(base[key], dict) else [v]}
    with Folder() as f:
        f.write("inc.json", inc)
        base["includes"] = ["inc.json"]
        env.raises(ValueError, lambda: Model.load(base, path=os.path.join(f.path, "main.json")), "two of one name in two documents")


def h_reject(env, what):
    """References to what is not there, and documents that describe nothing, are errors."""
    d = doc(parameters={"p": {"type": "constant", "value": 1.0}}, recorders={"r": {"type": "totalflownode", "node": "in"}}, scenarios=[{"name": "s", "size": 2}])
    n = d["nodes"]
    exc = KeyError
    if what == "edge from":
        d["edges"].append(["nobody", "out"])
    elif what == "edge to":
        d["edges"].append(["in", "nobody"])
    elif what == "parameter of a node":
        n[0]["cost"] = "nobody"
    elif what == "parameter of a recorder":
        d["recorders"]["x"] = {"type": "numpyarrayparameter", "parameter": "nobody"}
    elif what == "node of a recorder":
        d["recorders"]["x"] = {"type": "numpyarraynode", "node": "nobody"}
    elif what == "node of a parameter":
        d["parameters"]["x"] = {"type": "flow", "node": "nobody"}
    elif what == "storage of a parameter":
        d["parameters"]["x"] = {"type": "controlcurve", "storage_node": "nobody", "control_curves": [0.5], "values": [1.0, 2.0]}
    elif what == "node of an aggregate":
        n.append({"name": "a", "type": "AggregatedNode", "nodes": ["in", "nobody"]})
    elif what == "recorder of a recorder":
        d["recorders"]["x"] = {"type": "aggregated", "recorders": ["r", "nobody"]}
    elif what == "recorder of a parameter":
        d["parameters"]["x"] = {"type": "recorderthreshold", "recorder": "nobody", "threshold": 1.0, "predicate": "GT", "values": [0.0, 1.0]}
    elif what == "scenario of a parameter":
        d["parameters"]["x"] = {"type": "constantscenario", "scenario": "nobody", "values": [1.0, 2.0]}
    elif what == "type of a node":
        n.append({"name": "a", "type": "Nothing"})
    elif what == "type of a parameter":
        d["parameters"]["x"], exc = {"type": "nothing", "value": 1.0}, TypeError
    elif what == "type of a recorder":
        d["recorders"]["x"], exc = {"type": "nothing"}, NotImplementedError
    elif what == "number as a parameter":
        d["parameters"]["x"], exc = 3.0, (TypeError, AttributeError)
    elif what == "circle of aggregates":
        n += [{"name": "a", "type": "AggregatedNode", "nodes": ["b"]}, {"name": "b", "type": "AggregatedNode", "nodes": ["a"]}]
    elif what == "circle of recorders":
        d["recorders"].update({"x": {"type": "aggregated", "recorders": ["y"]}, "y": {"type": "aggregated", "recorders": ["x"]}})
    elif what == "include of another kind":
        d["includes"], exc = ["a.txt"], NotImplementedError
    elif what == "include that is not there":
        d["includes"], exc = ["nobody.json"], (FileNotFoundError, OSError)
    elif what == "attribute of a node":
        n[0]["nothing"], exc = 1.0, TypeError
    elif what == "attribute of a parameter":
        d["parameters"]["p"]["nothing"], exc = 1.0, TypeError
    elif what == "slot":
        d["edges"][0] = ["in", "link", "nothing", None]
        exc = ValueError
    env.raises(exc, lambda: Model.load(d), what)


REJECT = ["edge from", "edge to", "parameter of a node", "parameter of a recorder", "node of a recorder", "node of a parameter", "storage of a parameter",
          "node of an aggregate", "recorder of a recorder", "recorder of a parameter", "scenario of a parameter", "type of a node", "type of a parameter",
          "type of a recorder", "number as a parameter", "circle of aggregates", "circle of recorders", "include of another kind", "include that is not there",
          "attribute of a node", "attribute of a parameter", "slot"]


class Odd(Parameter):
    def __init__(self, model, number=0.0, **kw):
        super().__init__(model, **kw)
        self.number = number

    def value(self, ts, si):
        return self.number

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


def h_registered(env):
    """A user's own types, under their name with or without the suffix, in any case."""
    Odd.register()
    v = env.real("v", 0, 10)
    for ty in ("odd", "Odd", "oddparameter", "OddParameter"):
        m = Model.load(doc(parameters={"x": {"type": ty, "number": v}}))
        env.check(type(m.parameters["x"]) is Odd, "type " + ty)
        for _ in solve(env, m):
            env.eq(value(m, "x"), v, "value")


def harnesses(tier):
    deep = tier != "quick"
    out = [task(h_graph, params=dict(kinds=("sum", "sum"))), task(h_graph, params=dict(kinds=("sum", "constant", "sum"))),
           task(h_graph, params=dict(kinds=("sum", "constant"), inline=True)), task(h_graph, params=dict(kinds=("sum", "sum", "sum")))]
    if deep:
        out += [task(h_graph, params=dict(kinds=("sum", "sum", "sum"), inline=True))]
    out += sweep(h_type, over=dict(kind=list(PARAMS)))
    out += sweep(h_type, over=dict(kind=["constant", "aggregated", "controlcurveindex", "timesteplicense", "indexedarray"], upper=[True]))
    out += sweep(h_recorder, over=dict(kind=list(RECS)))
    out += sweep(h_recorder, over=dict(kind=["numpyarraynode", "aggregated", "totalparameter"], upper=[True]))
    for order in (tuple(range(9)), tuple(reversed(range(9))), (4, 6, 5, 8, 7, 1, 0, 2, 3)):
        out += sweep(h_nodes, over=dict(order=[order], named=["literal", "inline", "named"]))
    out += [task(h_edges), task(h_time), task(h_registered)]
    out += sweep(h_initial, over={"how": ["number", "values", "whole"]})
    out += sweep(h_scenarios, over=dict(how=["all", "slice", "step", "user", "names"]))
    out += sweep(h_include, over=dict(how=["path", "file", "text", "dict"], nested=[False, True]), ) if deep else []
    out += [task(h_include, params=dict(how=h, nested=n)) for h, n in (("path", True), ("text", False), ("dict", True), ("file", False))] if not deep else []
    out += [task(h_include, params=dict(how="path", nested="circle"))]
    out += sweep(h_clash, over=dict(what=["node", "parameter", "recorder", "scenario"], where=["include"]))
    out += sweep(h_clash, over=dict(what=["node", "scenario", "parameter and recorder", "recorder and parameter"], where=["same"]))
    out += sweep(h_reject, over=dict(what=REJECT))
    return out
