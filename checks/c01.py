"""C01: every allocation respects each node's flow limits, and none that does is excluded."""
from checks.lpnet import *

BOUNDS = "networks of up to 7 nodes and 4 paths, 2 scenarios, 1-2 time-steps, limits in [0, 100], flows <= 1000"
OUTSIDE = ['larger networks', 'lpsolve and the null solver']
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "flows and limits differ by less than 2e-6 only through the solver's 1e-8 snapping to zero"]
G = (LIMITS,)


def harnesses(tier):
    out = []
    nets = [(line, ("C",)), (line, ("P",)), (short, ()), (grid, ("P",)), (cascade, ())]
    for sv in ("route", "edge"):
        for n, a in nets:
            for mode in ("sound", "complete"):
                out.append(lptask(mode, n, sv, G, args=a))
        for mode in ("sound", "complete"):
            out.append(lptask(mode, line, sv, G, args=("S",), nsteps=2))
            out.append(lptask(mode, line, sv, G, args=("C",), swap=True))
            out.append(lptask(mode, line, sv, G, args=("P",), swap=True))
    for sv in ("route-once", "edge-once", "route-unsafe", "edge-unsafe"):
        out.append(lptask("sound", short, sv, G, nsteps=2))
        out.append(lptask("complete", short, sv, G))
    for sv in ALL_SOLVERS:
        out.append(task(sublimits, name="sublimits " + sv, params=dict(solver=sv)))
        out.append(edittask(line, sv, args=("S",), reference=sv.split("-")[0]))
    return out


from checks import allvals
harnesses = allvals.extend("C01", harnesses)


from checks import nodedefaults
harnesses = nodedefaults.extend("C01", harnesses)
