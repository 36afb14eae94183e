"""A compound node whose attributes are set anew after a run poses, in the next run, the problem of one made with the new values."""
from checks.nodedefaults import *
from pywr.parameters import ConstantParameter

# (class, as first made, set afterwards); "!" marks those for which the model has to be set up anew
EDITS = {
    "C22": {
        "BreakLink max_flow": (BreakLink, dict(max_flow="x"), dict(max_flow="x")),
        "BreakLink all": (BreakLink, {}, dict(min_flow="w", max_flow="x", cost="c")),
        "LossLink limits": (LossLink, dict(loss_factor="w"), dict(min_flow="w", max_flow="x", cost="c")),
        "LossLink! net to none": (LossLink, dict(loss_factor="w"), dict(loss_factor=0.0)),
        "LossLink! none to net": (LossLink, dict(max_flow="x"), dict(loss_factor="w")),
        "LossLink! net to net": (LossLink, dict(loss_factor="w"), dict(loss_factor="w")),
        "LossLink! gross to net": (LossLink, dict(loss_factor=0.25, loss_factor_type="gross"), dict(loss_factor_type="net")),
        "LossLink! gross to gross": (LossLink, dict(loss_factor=0.25, loss_factor_type="gross"), dict(loss_factor=0.5)),
        "LossLink! gross to none": (LossLink, dict(loss_factor=0.25, loss_factor_type="gross"), dict(loss_factor=0.0)),
        "LossLink! gross to all": (LossLink, dict(loss_factor=0.25, loss_factor_type="gross"), dict(loss_factor=1.0)),
        "LossLink! none to all": (LossLink, dict(loss_factor_type="gross"), dict(loss_factor=1.0)),
        "PiecewiseLink costs": (PiecewiseLink, dict(nsteps=2, costs=["c", "c"]), dict(costs=["c", "c"])),
        "PiecewiseLink max_flows": (PiecewiseLink, dict(nsteps=2, max_flows=["x", "x"], costs=["c", "c"]), dict(max_flows=["x", "x"])),
        "MultiSplitLink limits": (MultiSplitLink, dict(nsteps=1, max_flows=["x", "x"], factors=["w", "w"]), dict(max_flows=["x", "x"], costs=["c", "c"])),
        "RiverGauge mrf": (RiverGauge, dict(mrf="x", mrf_cost="c"), dict(mrf="x")),
        "RiverGauge costs": (RiverGauge, dict(mrf="x", mrf_cost="c", cost="c"), dict(mrf_cost="c", cost="c")),
        "RiverSplitWithGauge": (RiverSplitWithGauge, dict(factors=["w", "w"], mrf="x", mrf_cost="c"), dict(mrf="x", mrf_cost="c", cost="c")),
    },
    "C33": {
        "Catchment flow": (Catchment, dict(flow="x"), dict(flow="x")),
        "Catchment cost": (Catchment, dict(flow="x"), dict(cost="c")),
        "Discharge flow": (Discharge, dict(flow="x"), dict(flow="x")),
        "Reservoir": (Reservoir, dict(max_volume="v", initial_volume=1.0), dict(max_volume="v", cost="c")),
    },
}


def named(env, kw, tag):
    def val(v, n):
        if isinstance(v, list):
            return [val(x, "%s%d" % (n, i)) for i, x in enumerate(v)]
        if not isinstance(v, str) or v in ("net", "gross"):
            return v
        lo, hi = {"v": (20, 200), "c": (-50, 50), "w": (0.125, 8), "x": (0, 100), "q": (0, 10)}[v]
        return env.real(tag + n, lo, hi)
    return {k: val(v, k) for k, v in kw.items()}


def h_edit(env, key, row, solver, constant):
    cls, fixed, then = row
    fixed, then = named(env, fixed, "first "), named(env, then, "then ")
    p = Pair(key, (cls,), fixed)
    r = LPRun(env, p, solver, (2,), 1)
    m = r.m

    def answer(t, s, lp):
        return [None] + [env.real("x_%d_%d" % (s, j), 0, 1) for j in range(1, lp.ncols + 1)]
    for t in r.go(answer):
        pass
    g = r.objs["g"]

    def as_set(v, n):
        return ConstantParameter(m, v, name=n) if constant and not isinstance(v, str) else v
    for a, v in then.items():
        given = [as_set(x, "%s.%d" % (a, i)) for i, x in enumerate(v)] if isinstance(v, list) else as_set(v, a)
        setattr(g, a, given)
        # the flow of a catchment is both of its limits (its flow is what it supplied)
        got = getattr(g, "min_flow" if a == "flow" else a)
        for x, y in zip(got, given) if isinstance(v, list) else [(got, given)]:
            if constant or isinstance(y, str):
                env.check(x is y or x == y, "%s reads back as it was set" % a)
            else:
                env.eq(x, y, "%s reads back as it was set" % a)
    (m.setup if "!" in key or constant or m.dirty else m.reset)()
    m.setup = lambda *a, **k: None
    q = LPRun(env, Pair(key, (cls,), dict(fixed, **then)), solver.split("-")[0], (2,), 1)
    for t in r.go(answer):
        for t2 in q.go(answer):
            for s in range(2):
                same_lp(env, r.lps[s], q.lps[s], "scenario %d" % s)
                for n in r.objs:
                    env.eq(r.objs[n].flow[s], q.objs[n].flow[s], "flow of " + n)


def h_wrong_length(env, what):
    """Costs or limits of the wrong number are refused and change nothing."""
    m = model(env)
    c = [env.real("c%d" % i, 0, 10) for i in range(3)]
    g = PiecewiseLink(m, name="g", nsteps=2, **{what: c[:2]})
    for bad in (c[:1], c, []):
        env.raises(ValueError, lambda: setattr(g, what, bad), "the wrong number of " + what)
        env.eqs(getattr(g, what), c[:2], what)
    setattr(g, what, tuple(c[1:]))
    env.eqs(getattr(g, what), c[1:], what)
    for bad in (c[:1], c):
        env.raises(ValueError, lambda: PiecewiseLink(m, name="h%d" % len(bad), nsteps=2, **{what: bad}), "the wrong number of " + what)


def h_delay(env, n, initial, solver):
    """What leaves a delay node is what entered it so many steps ago (before that, its initial flow), in every feasible allocation."""
    class Line:
        def build(self, env, m, probe=False):
            f = 1.0 if probe else env.real("first", 0, 10)
            o = {"a": Input(m, "a", max_flow=100.0), "x": Output(m, "x"), "y": Output(m, "y")}
            g = DelayNode(m, "g", timesteps=n, **(dict(initial_flow=f) if initial else {}))
            o["a"].connect(g)
            o["a"].connect(o["x"])
            g.connect(o["y"])
            o["g"] = g
            return o

        def advance(self, env, t, probe):
            pass
    r = LPRun(env, Line(), solver, (2,), n + 2)
    got = [[], []]
    for t in r.go(lambda t, s, lp: env.feasible_point(lp, "%d_%d" % (t, s))):
        for s in range(2):
            o = {k: v.flow[s] for k, v in r.objs.items()}
            into = r.objs["g"].output.flow[s]
            env.eq(o["a"], o["x"] + into, "what is supplied is delivered or delayed", 1e-5)
            want = got[s][t - n] if t >= n else (env.real("first", 0, 10) if initial else 0.0)
            env.eq(o["y"], want, "what arrives after %d steps" % n, 1e-5)
            env.eq(o["g"], want, "the flow of the node itself", 1e-5)
            got[s].append(into)


def more(prop, harnesses):
    def f(tier):
        out = list(harnesses(tier))
        for key, row in EDITS[prop].items():
            for sv in ("route", "edge", "route-once") if not key.startswith("Discharge") else ("route",):
                for constant in (False, True) if "loss_factor" not in row[2] and "loss_factor_type" not in row[2] else (False,):
                    if sv.endswith("once") and constant:
                        continue
                    out.append(task(h_edit, name="set anew %s %s%s" % (key, sv, " constant" if constant else ""),
                                    params=dict(key=key, row=row, solver=sv, constant=constant)))
        if prop == "C22":
            out += sweep(h_wrong_length, over={"what": ["costs", "max_flows"]})
            for n in (1, 2):
                for sv in ("route", "edge"):
                    for init in (False, True):
                        out.append(task(h_delay, name="delay %d %s %s" % (n, init, sv), params=dict(n=n, initial=init, solver=sv)))
        return out
    return f
