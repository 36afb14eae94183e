"""C20: abstraction licences never allow more than the licensed volume."""
import datetime
from datetime import timedelta
from checks.lib import *
from pywr.parameters import load_parameter
from pywr.parameters.licenses import TimestepLicense, DailyLicense, StorageLicense, AnnualLicense, AnnualHyperbolaLicense, AnnualExponentialLicense

BOUNDS = "up to 6 time-steps of 1..120 days (also calendar months) over up to three calendar years, any start in 1895..2105 for three steps of " \
         "1, 7 or 30 days, 2 scenarios, two runs, any licensed amount up to 1000 and any use within (or, for the remaining allowance, beyond) what is allowed"
OUTSIDE = ["time-steps longer than a year", "licences held by several nodes"]


def leap(env, y):
    return env.And(y % 4 == 0, env.Or(y % 100 != 0, y % 400 == 0))


def year_len(env, y):
    return env.ite(leap(env, y), 366, 365)


def lmodel(env, start, n, delta, scen=2):
    return model(env, [scen], start=start, end=start + timedelta(days=n * delta - 1), timestep=delta)


def annual(env, m, p, amount, start, n, delta, over, runs=1):
    """Every allowance is what is left of the year's licence spread over the rest of the year, and no year's total exceeds it."""
    link = m.nodes["link"]
    seen = {}

    def fn(node, t, s):
        if node is not link:
            return None
        allowed = p.get_value(m.scenarios.combinations[s])
        q = env.real("q_%d_%d_%d" % (seen["run"], t, s), 0, 100000)
        if not over:
            env.assume(q <= allowed)
        return q
    m.solver.fn = fn
    m.setup()
    for run in range(runs):
        seen["run"] = run
        if run:
            m.reset()
        used = [0.0] * nscen(m)         # of the licence of the current step's year
        for t in range(n):
            a = start + timedelta(days=t * delta)
            b = a + timedelta(days=delta)
            left = year_len(env, a.year) - a.dayofyear + 1
            m.step()
            cross = left < delta
            here = env.ite(cross, left, delta)
            nxt = env.ite(cross, delta - left, 0)
            for si in m.scenarios.combinations:
                s = si.global_id
                v, q = p.get_value(si), link.flow[s]
                rest = env.max(amount - used[s], 0)
                # the allowance: the rest of this year's, and within the next year's where the step runs into it
                e = env.And(v * left <= rest + 1e-6, v * nxt <= amount + 1e-6)
                env.check(e, "never more than is left")
                env.check(env.Or(v * left >= rest - 1e-6, v * nxt >= amount - 1e-6), "all that is left is available")
                if not over:
                    env.check(v >= -1e-9, "an allowance is never negative")
                now = used[s] + q * here
                if not over:
                    env.check(now <= amount + 1e-6, "a year's use stays within the licence")
                new = env.Or(cross, left == delta)      # the next step is in a new year
                used[s] = env.ite(new, q * nxt, now)


def h_annual_any(env, delta, load=False):
    """Around any new year."""
    d = env.date("start", 1895, 2105)
    y = d.year
    m = lmodel(env, d, 3, delta, 1)
    amount = env.real("amount", 1, 1000)
    if load:
        p = load_parameter(m, {"type": "annuallicense", "node": "link", "amount": amount})
    else:
        p = AnnualLicense(m, m.nodes["link"], amount, name="p")
    annual(env, m, p, amount, d, 3, delta, False)


def h_annual(env, start, delta, n, over, runs):
    from pandas import Timestamp
    d = Timestamp(start)
    m = lmodel(env, d, n, delta)
    amount = env.real("amount", 1, 1000)
    p = AnnualLicense(m, m.nodes["link"], amount, name="p")
    annual(env, m, p, amount, d, n, delta, over, runs)


def h_annual_months(env):
    """Steps of calendar months: a year's months use its licence up exactly."""
    m = model(env, [2], start="2015-10-01", end="2016-03-31", timestep="M")
    amount = env.real("amount", 1, 1000)
    p = AnnualLicense(m, m.nodes["link"], amount, name="p")
    days = [31, 30, 31, 31, 29, 31]
    left = [92, 61, 31, 366, 335, 306]
    link = m.nodes["link"]

    def fn(node, t, s):
        if node is link:
            q = env.real("q_%d_%d" % (t, s), 0)
            env.assume(q <= p.get_value(m.scenarios.combinations[s]))
            return q
    m.solver.fn = fn
    m.setup()
    used = [0, 0]
    for t in range(6):
        if t == 3:
            used = [0, 0]
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            env.eq(p.get_value(si) * left[t], amount - used[s], "the rest of the licence")
            used[s] = used[s] + link.flow[s] * days[t]
            env.check(used[s] <= amount + 1e-6, "a year's use stays within the licence")


def h_curved(env, kind, start, n, delta):
    """Licences whose value depends on how far use is on track."""
    from pandas import Timestamp
    d = Timestamp(start)
    m = lmodel(env, d, n, delta)
    amount, val = env.real("amount", 1, 1000), env.real("val", 0, 100)
    k = env.real("k", 0.5, 4)
    link = m.nodes["link"]
    base = AnnualLicense(m, link, amount, name="base")
    if kind == "hyperbola":
        p = AnnualHyperbolaLicense(m, link, amount, val, name="p")
    elif kind == "exponential":
        p = AnnualExponentialLicense(m, link, amount, val, k=k, name="p")
    else:
        p = load_parameter(m, {"type": "annualexponentiallicense", "node": "link", "amount": amount, "max_value": val})
        k = 1.0

    def fn(node, t, s):
        if node is link:
            q = env.real("q_%d_%d" % (t, s), 0)
            env.assume(q * 2 <= base.get_value(m.scenarios.combinations[s]))
            return q
    m.solver.fn = fn
    m.setup()
    for t in range(n):
        m.step()
        for si in m.scenarios.combinations:
            y = (d + timedelta(days=t * delta)).year
            x = base.get_value(si) / (amount / (366 if y % 4 == 0 else 365))
            v = p.get_value(si)
            if kind == "hyperbola":
                env.eq(v * x, val, "inversely proportional to the ratio on track")
            else:
                env.eq(v, val * env.fn("exp", -x / k), "falls exponentially with the ratio on track")


def h_timestep(env, cls):
    m = model(env, [2], end="2015-01-02")
    amount = env.real("amount", 0, 1000)
    m.solver.fn = flows(env, ["link"])
    p = cls(m, m.nodes["link"], amount, name="p")
    m.setup()
    for t in range(2):
        m.step()
        for si in m.scenarios.combinations:
            env.eq(p.get_value(si), amount, "the same in every step")


def h_storage(env, delta, over):
    """A licence for the whole run."""
    m = model(env, [2], end="2015-01-%02d" % (3 * delta), timestep=delta)
    amount = env.real("amount", 0, 1000)
    link = m.nodes["link"]
    p = StorageLicense(m, link, amount, name="p")

    def fn(node, t, s):
        if node is link:
            q = env.real("q_%d_%d" % (t, s), 0, 2000)
            if not over:
                env.assume(q * delta <= p.get_value(m.scenarios.combinations[s]))
            return q
    m.solver.fn = fn
    m.setup()
    for run in range(2):
        used = [0, 0]
        for t in range(3):
            m.step()
            for si in m.scenarios.combinations:
                s = si.global_id
                env.eq(p.get_value(si), env.max(amount - used[s], 0), "what is left")
                used[s] = used[s] + link.flow[s] * delta
                if not over:
                    env.check(used[s] <= amount + 1e-6, "use stays within the licence")
        m.reset()


def harnesses(tier):
    out = [task(h_annual_any, params=dict(delta=d, load=d == 7)) for d in (1, 7, 30)]
    out += [task(h_annual, params=dict(start=a, delta=b, n=n, over=o, runs=r)) for a, b, n, o, r in [
        ("2015-12-29", 1, 5, False, 2), ("2016-12-29", 1, 5, False, 1), ("2015-12-31", 1, 2, True, 2), ("2015-01-01", 73, 6, False, 1),
        ("2016-01-01", 61, 6, False, 2), ("2015-12-20", 7, 4, False, 2), ("2015-12-10", 7, 4, True, 1), ("2015-12-31", 7, 3, False, 2),
        ("2016-12-30", 30, 4, False, 1), ("2015-06-01", 120, 6, False, 1), ("2099-12-31", 10, 3, False, 1), ("2015-12-18", 7, 4, False, 1)]]
    out += [task(h_annual_months)]
    out += [task(h_curved, params=dict(kind=k, start=s, n=3, delta=d)) for k, s, d in
            [("hyperbola", "2015-12-30", 1), ("exponential", "2015-12-30", 1), ("exponential", "2016-12-10", 10), ("hyperbola", "2016-06-10", 100),
             ("exponential_load", "2016-12-30", 1)]]
    out += sweep(h_timestep, over={"cls": [TimestepLicense, DailyLicense]}) + sweep(h_storage, over={"delta": [1, 5], "over": [False, True]})
    return out
