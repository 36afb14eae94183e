"""C02: water is conserved through links, domains and storages"""
from checks.lpnet import *

BOUNDS = "networks of up to 7 nodes and 6 paths, 2 scenarios, 1-3 time-steps of 1 or 7 days, flows <= 1000 per path"
OUTSIDE = ['larger networks', 'lpsolve and the null solver']
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "limits, flows and volumes differ from the posed problem's by at most 2e-6 (snapping of values below 1e-8)"]
G = (CONSERVE, VOLUME)


def harnesses(tier):
    out = []
    for sv in ("route", "edge"):
        for n, a in ((short, ()), (grid, ("P",)), (reservoir, ("C",)), (cascade, ()), (domains, ()), (domains2, ()),
                     (fixedvol, ()), (agg_mixed, ())):
            out.append(lptask("sound", n, sv, G, args=a))
        for mode in ("sound", "complete"):
            out.append(lptask(mode, manyslots, sv, G))
        out.append(lptask("sound", cascade, sv, G, nsteps=2, timestep=7))
        out.append(lptask("complete", domains, sv, G))
        out.append(lptask("complete", domains2, sv, G))
        out.append(lptask("complete", cascade, sv, G, timestep=7))
        out.append(lptask("sound", reservoir, sv, G, args=("P", "K"), nsteps=3 if tier == "thorough" else 2))
        if tier == "thorough":
            out.append(lptask("sound", grid, sv + "-unsafe", G, args=("P",), nsteps=2))
            out.append(lptask("sound", cascade, sv + "-unsafe", G, nsteps=3))
    return out


from checks import allvals
harnesses = allvals.extend("C02", harnesses)
