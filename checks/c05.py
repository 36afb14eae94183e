"""C05: aggregated-node limits and flow ratios are enforced"""
from checks.lpnet import *

BOUNDS = "aggregated nodes of 2-3 members (two on one path), factors and weights in [1/8, 8], 2 scenarios, 2 time-steps"
OUTSIDE = ['members with zero weight']
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "limits, flows and volumes differ from the posed problem's by at most 2e-6 (snapping of values below 1e-8)"]
G = (AGG,)


def harnesses(tier):
    out = []
    for sv in ("route", "edge"):
        for mode in ("sound", "complete"):
            out.append(lptask(mode, agg_limits, sv, G, args=("C",)))
            out.append(lptask(mode, agg_limits, sv, G, args=("P", "C"), nsteps=2))
            out.append(lptask(mode, agg_series, sv, G))
            out.append(lptask(mode, agg_series2, sv, G))
            out.append(lptask(mode, agg_mixed, sv, G))
            out.append(lptask(mode, agg_factors, sv, G, args=("C", 3)))
            out.append(lptask(mode, agg_factors, sv, G, args=("P", 2), nsteps=2))
            out.append(lptask(mode, agg_factors2, sv, G))
        for mode in ("sound", "complete"):
            out.append(lptask(mode, agg_limits, sv, G, args=("S", "C"), nsteps=2))
            out.append(lptask(mode, agg_limits, sv, G, args=("C", "C"), swap=True))
            out.append(lptask(mode, agg_limits, sv, G, args=("P",), swap=True))
    for sv in ("route-once", "edge-once", "route-unsafe", "edge-unsafe"):
        for mode in ("sound", "complete"):
            out.append(lptask(mode, agg_factors, sv, G, args=("K", 3)))
            out.append(lptask(mode, agg_factors2, sv, G, nsteps=2))
            out.append(lptask(mode, agg_limits, sv, G, args=("P", "C")))
        for n in (edit_factors, edit_weights):
            out.append(edittask(n, sv, reference=sv.split("-")[0]))
    return out


from checks import nodedefaults
harnesses = nodedefaults.extend("C05", harnesses)
