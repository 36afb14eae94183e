"""C07: solver options and repeated solves do not change the problem posed"""
from checks.lpnet import *

BOUNDS = "networks of up to 7 nodes, 2 scenarios, 2 time-steps, one reset"
OUTSIDE = ['edits other than limits, costs, factors, weights, connections and new nodes', 'disconnecting a storage or compound node from what it was connected to', 'numbers replaced by parameters (or the reverse) without setting the model up again']
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "limits, flows and volumes differ from the posed problem's by at most 2e-6 (snapping of values below 1e-8)"]


def harnesses(tier):
    out = []
    for sv in ("route", "edge", "route-once", "edge-once", "route-unsafe", "edge-unsafe"):
        base = sv.split("-")[0]
        for n, a in ((short, ()), (line, ("K",)), (cascade, ()), (agg_factors2, ()), (agg_factors, ("K", 3)),
                     (agg_limits, ("P", "C")), (virtual, ("K",)), (domains, ())):
            out.append(memtask(n, sv, args=a, reference=base))
        out.append(memtask(short, sv, reference=base, rerun=True))
        out.append(memtask(agg_factors2, sv, reference=base, rerun=True))
        for n, a in ((edit_factors, ()), (edit_weights, ()), (edit_virtual, ()), (edit_storage, ()), (line, ("S",))):
            out.append(edittask(n, sv, args=a, reference=base))
        out.append(memtask(reservoir, sv, args=("P", "K"), reference=base))
        for what in ("link", "unlink", "store", "isolate", "swap", "node"):
            out.append(rewiretask(what, sv))
        for kind in "TU":
            out.append(edittask(line, sv, args=(kind,), reference=base, rerun="setup"))
            out.append(edittask(stock, sv, args=(kind,), reference=base, rerun="setup"))
    return out
