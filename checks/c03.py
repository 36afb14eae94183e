"""C03: storage volumes stay within their minimum and maximum"""
from checks.lpnet import *

BOUNDS = "one or two storages, 2 scenarios, 1-3 time-steps of 1 or 7 days, volumes in [0, 200]"
OUTSIDE = ['limits that change so that the volume starts outside them by design (except a raised minimum)']
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "limits, flows and volumes differ from the posed problem's by at most 2e-6 (snapping of values below 1e-8)"]
G = (VOLUME,)


def harnesses(tier):
    out = []
    for sv in ("route", "edge"):
        for mode in ("sound", "complete"):
            out.append(lptask(mode, reservoir, sv, G, args=("C",), nsteps=2))
            out.append(lptask(mode, reservoir, sv, G, args=("C", "P"), nsteps=2))
            out.append(lptask(mode, reservoir, sv, G, args=("P", "K"), timestep=7))
            out.append(lptask(mode, cascade, sv, G, timestep=3))
            out.append(lptask(mode, fixedvol, sv, G, nsteps=2))
            out.append(lptask(mode, zerovol, sv, G))
            out.append(lptask(mode, manyslots, sv, G))
            out.append(lptask(mode, cascade, sv, G, nsteps=2))
        for mode in ("sound", "complete"):
            out.append(lptask(mode, reservoir, sv, G, args=("C",), swap=True))
            out.append(lptask(mode, reservoir, sv, G, args=("K",), swap=True))
            out.append(lptask(mode, cascade, sv, G, swap=True))
            out.append(lptask(mode, reservoir, sv, G, args=("S", 200.0), nsteps=2))
        for x in ("-unsafe", "-once"):
            out.append(lptask("sound", cascade, sv + x, G))
            out.append(lptask("complete", reservoir, sv + x, G, args=("C",)))
            out.append(lptask("sound", fixedvol, sv + x, G))
        if tier == "thorough":
            out.append(lptask("sound", cascade, sv, G, nsteps=3))
            out.append(lptask("complete", cascade, sv, G, nsteps=3, timestep=7))
            out.append(lptask("sound", reservoir, sv, G, args=("P", "P"), nsteps=3))
    for sv in ALL_SOLVERS:
        out.append(edittask(edit_storage, sv, reference=sv.split("-")[0]))
    return out


from checks import allvals
harnesses = allvals.extend("C03", harnesses)


from checks import nodedefaults
harnesses = nodedefaults.extend("C03", harnesses)
