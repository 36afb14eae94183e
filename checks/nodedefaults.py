"""A node made without an attribute, or with None where None is allowed, poses the same problem and holds the same flows as
one made with the documented value."""
from checks.lpnet import *
from pywr.nodes import (PiecewiseLink, MultiSplitLink, BreakLink, LossLink, DelayNode, RiverGauge, RiverSplit,
                        RiverSplitWithGauge, River, Catchment)
from pywr.domains.river import Reservoir, Discharge

INF = float("inf")
NODE = dict(min_flow=0.0, max_flow=INF, cost=0.0)
# class: (given in both, documented defaults, those that can be None, slots)
ROWS = {
    "C01": {
        "Input": (Input, {}, dict(NODE, conversion_factor=1.0), ("min_flow", "max_flow")),
        "Output": (Output, {}, NODE, ("min_flow", "max_flow")),
        "Link": (Link, {}, NODE, ("min_flow", "max_flow")),
        "River": (River, {}, NODE, ("min_flow", "max_flow")),
    },
    "C33": {
        "Catchment": (Catchment, {}, dict(flow=0.0, cost=0.0), ()),
        "Discharge": (Discharge, dict(flow="q"), dict(cost=0.0), ()),
        "Reservoir": (Reservoir, dict(max_volume="v", initial_volume=1.0), dict(cost=0.0, min_volume=0.0, inputs=1, outputs=1), ("min_volume",)),
        "Reservoir above": (Reservoir, dict(max_volume="v", initial_volume=1.0, above_curve_cost="c"), dict(control_curve=1.0, cost=0.0), ("control_curve",)),
    },
    "C03": {
        "Storage": (Storage, dict(max_volume="v", initial_volume=1.0), dict(min_volume=0.0, cost=0.0, inputs=1, outputs=1), ("min_volume",)),
        "Storage empty": (Storage, dict(initial_volume=0.0), dict(min_volume=0.0, max_volume=0.0), ("min_volume",)),
    },
    "C05": {
        "AggregatedNode": (AggregatedNode, dict(max_flow="x"), dict(flow_weights=[1.0, 1.0], min_flow=0.0), ("flow_weights",)),
        "AggregatedNode least": (AggregatedNode, dict(min_flow="x", flow_weights=["w", "w"]), dict(max_flow=INF), ("max_flow",)),
        "AggregatedNode factors": (AggregatedNode, dict(factors=["w", "w"]), dict(max_flow=INF, min_flow=0.0), ("max_flow",)),
    },
    "C22": {
        "PiecewiseLink": (PiecewiseLink, dict(nsteps=2), dict(costs=[0.0, 0.0], max_flows=[None, None]), ("costs", "max_flows")),
        "PiecewiseLink costs": (PiecewiseLink, dict(nsteps=2, costs=["c", "c"]), dict(max_flows=[INF, INF]), ("max_flows",)),
        "MultiSplitLink": (MultiSplitLink, dict(nsteps=1), dict(extra_slots=1, slot_names=[0, 1], costs=[0.0, 0.0], max_flows=[None, None], factors=[None, None]),
                           ("costs", "max_flows", "factors")),
        "MultiSplitLink two": (MultiSplitLink, dict(nsteps=1, extra_slots=2), dict(slot_names=[0, 1, 2], costs=[0.0] * 3), ("costs",)),
        "MultiSplitLink one": (MultiSplitLink, dict(nsteps=1, factors=[None, "w"]), dict(extra_slots=1), ()),
        "RiverSplit": (RiverSplit, dict(factors=["w", "w"]), dict(nsteps=1, slot_names=[0, 1], costs=[0.0], max_flows=[None]), ()),
        "RiverSplitWithGauge": (RiverSplitWithGauge, dict(factors=["w", "w"]), dict(mrf=0.0, cost=0.0, mrf_cost=0.0, slot_names=[0, 1]), ()),
        "RiverGauge": (RiverGauge, {}, dict(mrf=0.0, cost=0.0, mrf_cost=0.0), ()),
        "BreakLink": (BreakLink, {}, NODE, ("min_flow", "max_flow")),
        "LossLink": (LossLink, {}, dict(NODE, loss_factor=0.0), ("min_flow", "max_flow")),
        "LossLink net": (LossLink, dict(loss_factor="w"), dict(NODE, loss_factor_type="net"), ()),
        "DelayNode": (DelayNode, dict(timesteps=1), dict(initial_flow=0.0, days=0), ()),
        "DelayNode days": (DelayNode, dict(days=1), dict(initial_flow=0.0, timesteps=0), ()),
    },
}
ATTRS = {AggregatedNode: ("max_flow", "min_flow", "factors")}


class Pair:
    """in (one or two) -> the node -> out, once with and once without its defaults."""

    def __init__(self, key, row, kw):
        self.key, self.row, self.kw = key, row, kw

    def build(self, env, m, probe=False):
        cls = self.row[0]
        kw = dict(self.kw)
        c = lambda n, lo=-50, hi=50: env.real(n, lo, hi)
        o = {"a": Input(m, "a", max_flow=c("a.max", 0, 100), cost=c("a.cost")), "x": Output(m, "x", max_flow=c("x.max", 0, 100), cost=c("x.cost")),
             "y": Output(m, "y", max_flow=c("y.max", 0, 100), cost=c("y.cost"))}
        name = "g"
        if cls is AggregatedNode:
            later = {k: kw.pop(k) for k in list(kw) if k in ("factors",) or k in ("max_flow", "min_flow")}
            g = cls(m, name, [o["x"], o["y"]], **kw)
            for k, v in later.items():
                setattr(g, k, v)
            o["a"].connect(o["x"])
            o["a"].connect(o["y"])
        else:
            if issubclass(cls, PiecewiseLink):
                g = cls(m, name=name, **kw)
            else:
                g = cls(m, name, **kw)
            if cls is Output:
                o["a"].connect(g)
                o["a"].connect(o["y"])
            elif issubclass(cls, Input) and cls is not Discharge:
                g.connect(o["x"])
                o["a"].connect(o["y"])
            else:
                o["a"].connect(g)
                o["a"].connect(o["y"])
                if issubclass(cls, MultiSplitLink):
                    for i in range(3 if "two" in self.key else 2):
                        g.connect(o["x" if i == 0 else "y"], from_slot=i)
                else:
                    g.connect(o["x"])
            if cls is Output:
                o["a"].connect(o["x"])
            if issubclass(cls, Input) and cls is not Discharge:
                o["a"].connect(o["x"])
        o["g"] = g
        return o

    def advance(self, env, t, probe):
        pass


def given(env, cls, kw):
    def val(v, n):
        if isinstance(v, list):
            return [val(x, "%s%d" % (n, i)) for i, x in enumerate(v)]
        if not isinstance(v, str) or v == "net":
            return v
        lo, hi = {"v": (20, 200), "c": (-50, 50), "w": (0.125, 8), "x": (0, 100), "q": (0, 10)}[v]
        return env.real(n, lo, hi)
    return {k: val(v, k) for k, v in kw.items()}


def h_same(env, key, row, how, solver):
    cls, fixed, doc, nones = row
    fixed = given(env, cls, fixed)
    less = dict(fixed)
    if how == "none":
        less.update({k: None for k in nones})
    full = dict(fixed, **doc)
    if key == "MultiSplitLink one":
        full["factors"] = None                       # a single factor is in proportion to nothing
    runs = []
    for kw in (less, full):
        p = Pair(key, row, kw)
        r = LPRun(env, p, solver, scenarios=(2,), nsteps=2)
        lps, flows = [], []

        def answer(t, s, lp):
            return [None] + [env.real("x_%d_%d_%d" % (t, s, j), 0, 1) for j in range(1, lp.ncols + 1)]
        for t in r.go(answer):
            lps.append(list(r.lps))
            flows.append([[r.objs[n].flow[s] for s in range(2)] + ([r.objs[n].volume[s] for s in range(2)] if isinstance(r.objs[n], Storage) else [])
                          for n in sorted(r.objs)])
        runs.append((lps, flows))
    (l1, f1), (l2, f2) = runs
    for t in range(2):
        for s in range(2):
            same_lp(env, l1[t][s], l2[t][s], "step %d scenario %d" % (t, s))
        for a, b in zip(f1[t], f2[t]):
            env.eqs(a, b, "flows and volumes at step %d" % t)


def extend(prop, harnesses):
    def more(tier):
        out = list(harnesses(tier))
        for key, row in ROWS[prop].items():
            for how in ("omitted", "none") if row[3] else ("omitted",):
                for sv in ("route",) if key == "Discharge" else ("route", "edge") if tier == "thorough" or how == "omitted" else ("route",):
                    out.append(task(h_same, name="node %s %s %s" % (key, how, sv), params=dict(key=key, row=row, how=how, solver=sv)))
        return out
    return more
