"""C06: virtual storage accounts for exactly the flow it licenses"""
from checks.lpnet import *
from checks.lib import *
from pywr.nodes import AnnualVirtualStorage

BOUNDS = "virtual and rolling storages over 1-3 nodes, factors in [1/8, 8], 2 scenarios, up to 4 time-steps"
OUTSIDE = ['virtual storages that list a node twice', 'virtual storage costs']
ASSUMPTIONS = ["GLPK returns a point of the posed linear programme when it reports an optimal solution",
               "limits, flows and volumes differ from the posed problem's by at most 2e-6 (snapping of values below 1e-8)"]
G = (VIRTUAL,)


def harnesses(tier):
    out = []
    for sv in ("route", "edge"):
        for mode in ("sound", "complete"):
            out.append(lptask(mode, virtual, sv, G, args=("C",)))
            out.append(lptask(mode, virtual, sv, G, args=("K", (1.0, "C", 2.0), ("a", "b", "c")), nsteps=2, timestep=7))
            out.append(lptask(mode, virtual_through, sv, G))
            out.append(lptask(mode, virtual, sv, G, args=("C",), inactive=("lic",)))
        for mode in ("sound", "complete"):
            out.append(lptask(mode, virtual, sv, G, args=("C",), swap=True))
            out.append(lptask(mode, virtual, sv, G, args=("K",), swap=True))
        out.append(lptask("sound", rolling, sv, G, args=(3,), nsteps=3, scenarios=(2,)))
        out.append(lptask("sound", rolling, sv, G, args=(3, True), nsteps=2, timestep=7, scenarios=()))
        out.append(lptask("complete", rolling, sv, G, args=(2,), nsteps=2))
        out.append(lptask("sound", rolling_credit, sv, G, args=(2,), nsteps=2, scenarios=()))
        out.append(lptask("complete", rolling_credit, sv, G, args=(3,), nsteps=1))
        for mode in ("sound", "complete"):
            out.append(lptask(mode, virtual, sv, G, args=("C", ("C", "N", 1.0), ("a", "b", "c"))))
        if tier == "thorough":
            out.append(lptask("sound", rolling, sv, G, args=(4,), nsteps=5, scenarios=()))
    for sv in ("route-unsafe", "edge-unsafe", "route-once", "edge-once"):
        for mode in ("sound", "complete"):
            out.append(lptask(mode, virtual, sv, G, args=("C",)))
            out.append(lptask(mode, virtual, sv, G, args=("C",), inactive=("lic",)))
            out.append(lptask(mode, virtual_shut, sv, G, inactive=("lic",)))
    for sv in ("route", "edge"):
        for mode in ("sound", "complete"):
            out.append(lptask(mode, virtual_shut, sv, G))
            out.append(lptask(mode, virtual_shut, sv, G, inactive=("lic",)))
    for sv in ("route", "edge", "route-once", "edge-once"):
        out.append(edittask(edit_virtual, sv, reference=sv.split("-")[0]))
    out += sweep(h_roll, over=dict(kind=list(ROLL))) + sweep(h_roll_reject, over=dict(kind=list(REJECT)))
    return out


def rolling_world(env, kw, timestep=1, start="2015-01-01", end="2015-01-10"):
    m = model(env, (2,), start=start, end=end, timestep=timestep, flow=flows(env, ("in", "link"), 0, 100))
    return m, RollingVirtualStorage(m, "lic", [m.nodes["in"], m.nodes["link"]], **kw)


def h_roll(env, kind):
    """The volume of a rolling licence at every step, from the flows alone: what was used falls out of the window
    and is given back, and what the initial volume implies was used before is given back evenly."""
    delta, period, init, low, n = ROLL[kind]
    top, lo = env.real("max_volume", 1, 10000), (env.real("min_volume", 0, 100) if low else 0.0)
    kw = dict(period, max_volume=top)
    if low:
        kw["min_volume"] = lo
    fac = [env.real("fa", 0.125, 8), env.real("fb", 0.125, 8)]
    kw["factors"] = fac
    if init == "volume":
        v0 = kw["initial_volume"] = env.real("v0", 1, 10000)
    elif init == "pc":
        pc = kw["initial_volume_pc"] = env.real("pc", 0.125, 1)
        v0 = pc * top
    elif init == "both":
        pc = kw["initial_volume_pc"] = env.real("pc", 0.125, 1)
        kw["initial_volume"] = env.real("ignored", 0, 10000)
        v0 = pc * top
    elif init == "parameter":
        v0, pc = env.real("v0", 1, 10000), env.real("pc", 0.125, 1)
        kw.update(initial_volume=v0, initial_volume_pc=pc)
    else:
        v0 = 0.0
    env.assume(v0 <= top)
    env.assume(lo <= v0)
    m = model(env, (2,), end="2015-03-30", timestep=delta, flow=flows(env, ("in", "link"), 0, 100))
    if init == "parameter":
        kw["max_volume"] = Seq(m, lambda t, s: top, name="mx")
        implied = v0 / pc
    else:
        implied = top
    lic = RollingVirtualStorage(m, "lic", [m.nodes["in"], m.nodes["link"]], **kw)
    days = delta
    window = n - 1
    used = [[], []]
    vol = [v0, v0]
    for t, ts in enumerate(steps(m, n + 1)):
        for s in range(2):
            f = m.solver.log
            use = (fac[0] * f["in", t, s] + fac[1] * f["link", t, s]) * days
            back = (implied - v0) / window if t < window else used[s][t - window]
            used[s].append(use)
            vol[s] = vol[s] - use + back
            env.assume(lo + 0.01 <= vol[s])
            env.assume(vol[s] <= top - 0.01)
            env.eq(lic.volume[s], vol[s], "volume after step %d of scenario %d" % (t, s), 1e-5)
    env.eq(lic.timesteps, n, "length of the window in time-steps")


# kind: days per step, the window, initial volume given as, a least volume, the window in steps
ROLL = {
    "steps": (1, dict(timesteps=3), "volume", True, 3),
    "steps of 5 days": (5, dict(timesteps=3), "pc", False, 3),
    "days": (1, dict(days=3), "both", True, 3),
    "days in steps of 2": (2, dict(days=4), "volume", False, 2),
    "days and a part step": (2, dict(days=7), "pc", True, 3),
    "days before steps": (3, dict(days=6, timesteps=5), "volume", False, 2),
    "empty": (1, dict(timesteps=3), "none", False, 3),
    "parameter": (1, dict(timesteps=2), "parameter", False, 2),
}


def h_roll_reject(env, kind):
    """What has no meaning as a rolling licence is refused."""
    v = env.real("v", 1, 100)
    mk = lambda kw, **k: rolling_world(env, dict(kw, max_volume=v, initial_volume=v), **k)
    if kind == "no window":
        for kw in (dict(), dict(days=0), dict(timesteps=0), dict(days=None, timesteps=0)):
            env.raises(ValueError, lambda: mk(kw), "a window is needed")
        return
    if kind == "cost":
        c = env.real("c", 0, 10)
        env.assume(c > 0.001)
        for cls in ("rolling", "virtual", "annual"):
            m = model(env)
            kw = dict(max_volume=v, initial_volume=v, cost=c, nodes=[m.nodes["in"]])
            lic = (RollingVirtualStorage(m, "lic", timesteps=3, **kw) if cls == "rolling" else
                   AnnualVirtualStorage(m, "lic", **kw) if cls == "annual" else VirtualStorage(m, "lic", **kw))
            env.raises(NotImplementedError, lic.check, "a cost of a virtual storage is refused")
        for free in (0.0, 0):
            m = model(env)
            VirtualStorage(m, "lic", [m.nodes["in"]], max_volume=v, initial_volume=v, cost=free).check()
            RollingVirtualStorage(m, "rol", [m.nodes["in"]], max_volume=v, initial_volume=v, cost=free, days=2).check()
        return
    if kind == "one step":
        for kw, k in ((dict(timesteps=1), {}), (dict(days=1), {}), (dict(days=5), dict(timestep=3)), (dict(days=2), dict(timestep=3)),
                      (dict(days=3, timesteps=9), dict(timestep=2))):
            m, lic = mk(kw, **k)
            env.raises(ValueError, m.setup, "a window of fewer than two steps is refused")
        return
    if kind == "months":
        m, lic = mk(dict(days=60), timestep="M", end="2015-12-31")
        env.raises(TypeError, m.setup, "days need daily time-steps")
        return
    m = model(env)
    p = Seq(m, lambda t, s: v, name="mx")
    RollingVirtualStorage(m, "lic", [m.nodes["in"]], max_volume=p, initial_volume=0.0, initial_volume_pc=0.0, timesteps=3)
    env.raises(ValueError, m.setup, "an empty licence cannot have a parameter as its size")


REJECT = ("no window", "cost", "one step", "months", "empty parameter")


from checks import defaults
harnesses = defaults.extend("C06", harnesses)
