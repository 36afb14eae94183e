"""C37: schematics and flow diagrams show the model's network"""
import copy
import sys
from checks.lib import *
from checks.c34 import H5
from pywr.core import *
from pywr.nodes import *
from pywr.domains import river as R
from pywr.parameters import ConstantParameter, MonthlyProfileParameter
from pywr.notebook import pywr_model_to_d3_json, pywr_json_to_d3_json, PywrSchematic
from pywr.notebook.sankey import routes_to_sankey_links

BOUNDS = ("networks of an input, an output and up to two nodes between them, each of any of 14 kinds, with every choice of connections and of "
          "positions; one virtual or aggregated node of each kind; stored route flows of up to 3 routes, 2 steps and 2x2 scenarios of any value")
OUTSIDE = ["the JavaScript, HTML and style sheets that draw a schematic", "the plots of pywr.notebook.figures"]

# kind: attributes in a document
KIND = {
    "link": {"max_flow": 3}, "input": {}, "output": {}, "losslink": {"loss_factor": 0.1}, "breaklink": {},
    "piecewiselink": {"nsteps": 2, "max_flows": [1, 2], "costs": [1, 2]}, "delaynode": {"days": 1}, "river": {}, "rivergauge": {"mrf": 1, "mrf_cost": -1},
    "multisplitlink": {"nsteps": 1, "extra_slots": 1, "slot_names": ["x", "y"], "factors": [1, 1]},
    "riversplitwithgauge": {"slot_names": ["x", "y"], "factors": [1, 1]},
    "storage": {"max_volume": 9, "initial_volume": 1}, "reservoir": {"max_volume": 9, "initial_volume": 1}, "catchment": {"flow": 2},
}
SLOTS = ("multisplitlink", "riversplitwithgauge")
NOIN = ("input", "catchment")
BASES = {"river": ["link", "river"], "reservoir": ["storage", "reservoir"]}
VIRTUAL = {
    "virtualstorage": {}, "annualvirtualstorage": {}, "monthlyvirtualstorage": {}, "rollingvirtualstorage": {"timesteps": 2},
    "seasonalvirtualstorage": {"reset_day": 1, "reset_month": 1, "end_day": 2, "end_month": 3}, "aggregatednode": None, "aggregatedstorage": None,
}


def world(env, k1, k2, virtual=None, params=None, empty=False):
    """A document and what its schematic is to show: the nodes, and the connections."""
    nodes = [dict(name="a", type="Input"), dict(name="z", type="output", max_flow=4)]
    kinds = {"a": "input", "z": "output", "k": k1, "n": k2}
    for name, k in (("k", k1), ("n", k2)):
        if k:
            nodes.append(dict(copy.deepcopy(KIND[k]), name=name, type=k))
    pairs = [("a", "k"), ("a", "n"), ("k", "n"), ("n", "k"), ("k", "z"), ("n", "z"), ("a", "z")]
    edges = []
    for x, y in pairs:
        if not kinds[x] or not kinds[y] or kinds[y] in NOIN or kinds[x] == "output":
            continue
        if env.fork(env.bool("%s-%s" % (x, y))):
            if kinds[x] in SLOTS:
                edges.append([x, y, "x", None])
                if y == "z":
                    edges.append([x, y, "y", None])
            else:
                edges.append([x, y])
    for n in nodes:
        if n["name"] in ("n" if k2 else "ak") and env.fork(env.bool("placed %s" % n["name"])):
            n["position"] = {"schematic": [env.real("x " + n["name"], -100, 100), env.real("y " + n["name"], -100, 100)]}
        elif n["name"] == "a":
            n["position"] = {"geographic": [1, 2]}
    if virtual == "aggregatednode":
        nodes.append(dict(name="v", type="AggregatedNode", nodes=["a", "z"]))
    elif virtual == "aggregatedstorage":
        nodes.append(dict(name="s", type="Storage", max_volume=9, initial_volume=1))
        nodes.append(dict(name="v", type=virtual, storage_nodes=["s"]))
        edges += [["a", "s"], ["s", "z"]]
    elif virtual:
        nodes.append(dict(VIRTUAL[virtual], name="v", type=virtual, nodes=["a"], factors=[1], max_volume=5, initial_volume=5))
    d = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
         "nodes": nodes, "edges": edges}
    if params is not None:
        d["parameters"] = params
    return d


def shown(env, g, d, label):
    """The schematic g is that of the document d."""
    want = [n for n in d["nodes"] if n["name"] != "v"]
    names = [n["name"] for n in g["nodes"]]
    env.check(sorted(names) == sorted(n["name"] for n in want), "nodes " + label)
    got = dict(zip(names, g["nodes"]))
    for n in want:
        j = got[n["name"]]
        env.check(j["clss"][-1] == n["type"].lower(), "class of %s %s" % (n["name"], label))
        p = n.get("position", {}).get("schematic")
        env.check(("position" in j) == (p is not None), "position of %s is shown %s" % (n["name"], label))
        if p is not None:
            env.eqs(list(j["position"]), p, "position of %s %s" % (n["name"], label))
    links = [(names[l["source"]], names[l["target"]]) for l in g["links"]]
    env.check(set(links) == set((e[0], e[1]) for e in d["edges"]), "connections " + label)
    return got


def h_shown(env, k1, k2, virtual=None):
    """The same network from the document and from the model made of it."""
    d = world(env, k1, k2, virtual)
    j = shown(env, pywr_json_to_d3_json(clone(d)), d, "of the document")
    m = Model.load(clone(d))
    g = shown(env, pywr_model_to_d3_json(m), d, "of the model")
    for n in g:
        env.check(j[n]["clss"] == g[n]["clss"], "classes of %s" % n)
    s = PywrSchematic(m)
    shown(env, s.graph, d, "of the drawing")
    env.check(s.json is None, "a model has no document to save")
    c = clone(d)
    s = PywrSchematic(c)
    shown(env, s.graph, d, "of the drawn document")
    env.check(s.json is c, "the document is kept for saving")


def clone(d):
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    return [clone(v) for v in d] if isinstance(d, list) else d


def h_attributes(env, parameters):
    """The attributes listed are those of the node, by name for parameters."""
    params = {"p": {"type": "constant", "value": 2}, "q": {"type": "monthlyprofile", "values": [1] * 12}} if parameters else None
    d = world(env, "link", None, "rollingvirtualstorage" if parameters else "aggregatednode", params)
    c, mx = env.real("cost", -50, 50), env.real("max_flow", 0, 50)
    a, z, k = [n for n in d["nodes"] if n["name"] in "azk"]
    a["cost"] = c
    a["max_flow"] = "p" if parameters else mx
    z["max_flow"] = "q" if parameters else {"type": "constant", "value": 3}
    k["max_flow"] = mx
    k["comment"] = "p" if not parameters else "free text"
    j = shown(env, pywr_json_to_d3_json(clone(d), attributes=True), d, "of the document")
    m = Model.load(clone(d))
    g = shown(env, pywr_model_to_d3_json(m, attributes=True), d, "of the model")
    for what, x in (("document", j), ("model", g)):
        at = {n: {i["attribute"]: i["value"] for i in x[n]["attributes"]} for n in x}
        env.check("type" not in at["a"] and "model" not in at["a"], "attributes left out")
        env.check(at["a"]["name"] == "a" and at["k"]["name"] == "k", "names of the %s" % what)
        env.eq(env.parse(at["a"]["cost"]), c, "number of the %s" % what)
        env.eq(env.parse(at["k"]["max_flow"]), mx, "limit of the %s" % what)
        env.check(at["k"]["comment"] == k["comment"], "text of the %s" % what)
        if parameters:
            env.check(at["a"]["max_flow"] == "p - ConstantParameter" and at["z"]["max_flow"] == "q - MonthlyProfileParameter", "parameters of the %s" % what)
        else:
            env.eq(env.parse(at["a"]["max_flow"]), mx, "limit of the %s" % what)
            env.check("ConstantParameter" in at["z"]["max_flow"], "inline parameter of the %s" % what)


# ------------------------------------------------------------------ flow diagrams

ROUTES = {"pair": [("a", "z"), ("b", "z")], "same": [("a", "z"), ("a", "z"), ("b", "y")], "ring": [("a", "a"), ("a", "z")]}


def agg(env, how, xs):
    return {"mean": env.mean, "max": env.max, "sum": env.sum}[how](xs)


def h_sankey(env, routes, shape, time, tagg, scen, sagg, opt):
    """Each pair of ends is linked by the sum of the aggregated flows of its routes."""
    import numpy as np
    import tables
    ends = ROUTES[routes]
    nt, nr = 2, len(ends)
    dims = {1: (2,), 2: (2, 2)}[shape]
    flat = []
    for t in range(nt):
        for r in range(nr):
            flat.append([env.real("f%d_%d_%d" % (t, r, s), 0, 100) for s in range(int(np.prod(dims)))])

    def cell(t, r):
        return flat[t * nr + r]
    lo = env.real("threshold", 0, 100)
    fn = {"mean": np.mean, "max": np.max, "sum": np.sum}
    # what is to be shown
    def reduced(r):
        per = []
        for s in range(len(cell(0, r))):
            if scen is not None and len(dims) == 1 and not (s in range(2)[scen] if isinstance(scen, slice) else s == scen):
                continue
            ts = [cell(t, r)[s] for t in (range(nt) if time is None else [time] if isinstance(time, int) else range(nt)[time])]
            per.append(ts[0] if isinstance(time, int) else agg(env, tagg, ts))
        return agg(env, sagg, per)
    want = {}
    for r, (x, y) in enumerate(ends):
        if opt == "callback" and r == 1:
            continue
        if opt == "rename":
            x, y = x.upper(), "end-" + y
        if opt == "circular" and x == y:
            continue
        want.setdefault((x, y), []).append(reduced(r))
    want = {k: env.sum(v) for k, v in want.items()}
    kw = {}
    if time is not None:
        kw["time_slice"] = time
    if tagg != "mean":
        kw["time_agg_func"] = fn[tagg]
    if scen is not None:
        kw["scenario_slice"] = scen if isinstance(scen, slice) else [scen]
    if sagg != "mean":
        kw["scenario_agg_func"] = fn[sagg]
    calls = []
    if opt == "callback":
        def back(a, b, v):
            calls.append((a, b, v))
            return None if len(calls) == 2 else True
        kw["callback_func"] = back
    if opt == "rename":
        kw["rename_func"] = lambda n, first: n.upper() if first else "end-" + n
    if opt == "circular":
        kw["ignore_circular"] = True
    if opt == "threshold":
        kw["flow_threshold"] = lo

    class Open:
        def __init__(self, data, table):
            self.nodes = {"/flows": data, "/routes": table}

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def get_node(self, where, name=None):
            return self.nodes[where if name is None else where.rstrip("/") + "/" + name]

    data = env.array([v for row in flat for v in row])
    data = data.reshape((nt, nr) + dims)
    table = np.array([(x.encode(), y.encode()) for x, y in ends], dtype=[("start", "S8"), ("end", "S8")])
    sk = sys.modules[routes_to_sankey_links.__module__]
    was = sk.tables

    class T:
        @staticmethod
        def open_file(fname, mode="r"):
            return Open(data, table)
    sk.tables = T
    try:
        got = routes_to_sankey_links("file.h5", "flows", **kw)
    finally:
        sk.tables = was
    pairs = [(l["source"], l["target"]) for l in got]
    env.check(len(pairs) == len(set(pairs)), "each pair of ends once")
    vals = {p: l["value"] for p, l in zip(pairs, got)}
    if opt == "threshold":
        for p, v in want.items():
            if env.fork(v < lo):
                env.check(p not in vals, "links below the threshold are left out")
            else:
                env.check(p in vals, "links from the threshold up are shown")
    else:
        env.check(set(vals) == set(want), "links shown")
    for p in vals:
        env.eq(vals[p], want[p], "flow from %s to %s" % p)
    if opt == "callback":
        env.check([c[:2] for c in calls] == ends, "each route is offered to the callback")
        for r, c in enumerate(calls):
            env.eq(c[2], reduced(r), "flow offered")


def harnesses(tier):
    T = tier == "thorough"
    ks = list(KIND)
    out = sweep(h_shown, over=dict(k1=[k for k in ks], k2=[None]))
    two = [("link", "losslink"), ("storage", "breaklink"), ("multisplitlink", "reservoir"), ("rivergauge", "delaynode")]
    if T:
        two = [(x, y) for x in ks for y in ks]
    for x, y in two:
        out.append(task(h_shown, name="h_shown(%s,%s)" % (x, y), params=dict(k1=x, k2=y)))
    out += sweep(h_shown, over=dict(k1=["link"], k2=[None], virtual=list(VIRTUAL)))
    out += sweep(h_attributes, over=dict(parameters=[False, True]))
    base = dict(shape=1, time=None, tagg="mean", scen=None, sagg="mean", opt=None)
    rows = [dict(routes=r, opt=o) for r in ROUTES for o in (None, "callback", "rename", "circular", "threshold")]
    rows += [dict(routes="same", time=t, tagg=g, scen=s, sagg=h, shape=n) for t in (None, 1, slice(0, 1)) for g in ("mean", "max")
             for n, s in ((1, None), (1, slice(1, None)), (1, 0), (2, None)) for h in ("mean", "sum")]
    for r in rows:
        out.append(task(h_sankey, params=dict(base, **r), name="h_sankey(%s)" % ",".join("%s=%s" % i for i in r.items())))
    return out
