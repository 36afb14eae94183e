"""C04: the allocation problem minimises the network's total cost"""
from checks.lpnet import *

BOUNDS = "networks of up to 7 nodes and 6 paths, 2 scenarios, 2 time-steps, costs in [-50, 50]"
OUTSIDE = ['larger networks', "that GLPK's answer is optimal for the problem posed"]
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "limits, flows and volumes differ from the posed problem's by at most 2e-6 (snapping of values below 1e-8)"]
G = (COST,)


def harnesses(tier):
    out = []
    for sv in ("route", "edge", "route-once", "edge-once", "route-unsafe", "edge-unsafe"):
        for n, a in ((line, ("C",)), (grid, ("P",)), (short, ()), (cascade, ()), (domains, ())):
            out.append(lptask("complete", n, sv, G, args=a, nsteps=2 if n is short or tier == "thorough" else 1))
    for sv in ("route", "edge"):
        out.append(lptask("complete", line, sv, G, args=("S",), nsteps=2))
        out.append(lptask("complete", reservoir, sv, G, args=("S", 200.0), nsteps=2))
        for a in ("C", "P"):
            out.append(lptask("complete", line, sv, G, args=(a,), swap=True))
        out.append(lptask("complete", cascade, sv, G, swap=True))
    for sv in ("route", "edge", "route-unsafe", "edge-unsafe"):
        out.append(task(fails, name="failing " + sv, params=dict(net=line, solver=sv)))
    for sv in ALL_SOLVERS:
        out.append(edittask(line, sv, args=("S",), reference=sv.split("-")[0]))
        out.append(edittask(edit_storage, sv, reference=sv.split("-")[0]))
    return out


from checks import allvals
harnesses = allvals.extend("C04", harnesses)
