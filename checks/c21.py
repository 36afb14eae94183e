"""C21: virtual storages reset on the stated dates and only then."""
import datetime
from datetime import timedelta
from pandas import Timestamp
from checks.lib import *
from pywr.nodes import AnnualVirtualStorage, SeasonalVirtualStorage, MonthlyVirtualStorage, RollingVirtualStorage, VirtualStorage

BOUNDS = "3-4 time-steps of 1..7 days from any day of 1895..2105 (and up to 30 months in longer steps from given dates), 2 scenarios, two runs of " \
         "one model, any use, initial and maximum volumes; reset and end dates at month and year ends, 29 February included"
OUTSIDE = ["time-steps longer than a year, calendar-month frequencies", "a maximum volume that changes during the run"]


class Opening(Parameter):
    """Volumes and activation that a step starts with."""

    def value(self, ts, si):
        s = si.global_id
        self.seen[s] = (self.vs.volume[s], self.vs.current_pc[s], bool(self.vs.active))
        return 0.0


def use(env, run):
    return lambda t, s: env.real("use_r%d_%d_%d" % (run, t, s), 1, 5)


def follow(env, m, vs, start, n, delta, full, init, resets, active, factor=1.0, runs=1, to_initial=False, atol=None):
    """The store loses what is used, and returns to its stated volume when resets(t) says so."""
    op = Opening(m, name="opening")
    op.vs, op.seen = vs, {}
    cur = [None]
    m.solver.fn = lambda node, t, s: cur[0](t, s) if node.name == "in" else None
    m.setup()
    for run in range(runs):
        cur[0] = use(env, run)
        if run:
            m.reset()
        vol = [init] * nscen(m)
        for t in range(n):
            m.step()
            r = resets(t)
            a = active(t)
            for s in range(nscen(m)):
                v0 = env.ite(r, init if to_initial else full, vol[s])
                o = op.seen[s]
                env.eq(o[0], v0, "volume at the start of step %d" % t)
                env.eq(o[1] * full, v0, "fraction at the start of step %d" % t)
                env.check(env.Iff(o[2], a), "active in step %d" % t)
                vol[s] = env.ite(a, v0 - cur[0](t, s) * factor * delta, v0)
                env.eq(vs.volume[s], vol[s], "volume after step %d" % t)


def on(env, day, month, d, exact=False):
    """A date is the reset date; 29 February falls on 1 March when there is none."""
    e = env.And(d.month == month, d.day == day)
    if (month, day) == (2, 29) and not exact:
        leap = env.And(d.year % 4 == 0, env.Or(d.year % 100 != 0, d.year % 400 == 0))
        e = env.Or(e, env.And(d.month == 3, d.day == 1, env.Not(leap)))
    return e


def passed(env, day, month, start, delta, late=False):
    """resets(t): a reset date lies after the previous step's date and on or before this one's (on it for the first step, unless
    the maximum volume is not known before it)."""
    def resets(t):
        d = start + timedelta(days=t * delta)
        if t == 0:
            return False if late else on(env, day, month, d, True)
        return env.Or(*[on(env, day, month, d - timedelta(days=k)) for k in range(delta)]) if delta > 1 else on(env, day, month, d)
    return resets


def vmodel(env, start, n, delta, scen=2):
    return model(env, [scen], start=start, end=start + timedelta(days=n * delta - 1), timestep=delta)


def store(env, m, cls, pc=False, param=False, **kw):
    full = env.real("full", 200, 300)
    mx = ConstantParameter(m, full, name="full") if param else full
    if pc:
        p = env.real("pc", 0.25, 0.75)
        if param:
            kw["initial_volume"] = full * p
        vs = cls(m, "vs", nodes=[m.nodes["in"]], max_volume=mx, initial_volume_pc=p, **kw)
        return vs, full, full * p
    init = env.real("init", 100, 180)
    if param:
        kw["initial_volume_pc"] = 0.5
        full = init * 2
        mx = ConstantParameter(m, full, name="full2")
    vs = cls(m, "vs", nodes=[m.nodes["in"]], max_volume=mx, initial_volume=init, **kw)
    return vs, full, init


def h_annual(env, day, month, delta, to_initial, pc=False, start=None, n=3, param=False):
    d = env.date("start", 1895, 2105) if start is None else Timestamp(start)
    scen = 1 if start is None else 2
    m = vmodel(env, d, n, delta, scen)
    vs, full, init = store(env, m, AnnualVirtualStorage, pc, param, reset_day=day, reset_month=month, reset_to_initial_volume=to_initial)
    follow(env, m, vs, d, n, delta, full, init, passed(env, day, month, d, delta, param), lambda t: True, runs=1 if start is None else 2, to_initial=to_initial)


def h_factor(env, start):
    d = Timestamp(start)
    m = vmodel(env, d, 4, 2)
    f = env.real("factor", 0.125, 8)
    vs, full, init = store(env, m, AnnualVirtualStorage, factors=[f], reset_day=1, reset_month=1)
    follow(env, m, vs, d, 4, 2, full, init, passed(env, 1, 1, d, 2), lambda t: True, factor=f)


def season(env, rd, rm, ed, em, start, delta):
    def active(t):
        d = start + timedelta(days=t * delta)
        after = env.Or(d.month > rm, env.And(d.month == rm, d.day >= rd))
        before = env.Or(d.month < em, env.And(d.month == em, d.day < ed))
        return env.And(after, before) if (rm, rd) < (em, ed) else env.Or(after, before)
    return active


def h_seasonal(env, rd, rm, ed, em, delta, to_initial=False, start=None, n=3):
    d = env.date("start", 1895, 2105) if start is None else Timestamp(start)
    m = vmodel(env, d, n, delta, 1 if start is None else 2)
    vs, full, init = store(env, m, SeasonalVirtualStorage, reset_day=rd, reset_month=rm, end_day=ed, end_month=em, reset_to_initial_volume=to_initial)
    follow(env, m, vs, d, n, delta, full, init, passed(env, rd, rm, d, delta), season(env, rd, rm, ed, em, d, delta), runs=1 if start is None else 2, to_initial=to_initial)


def h_monthly(env, months, initial, delta, to_initial=False, start=None, n=3):
    """A reset falls on the first step of every `months`-th month since the period began, `initial` months before the run."""
    d = env.date("start", 1895, 2105) if start is None else Timestamp(start)
    m = vmodel(env, d, n, delta, 1 if start is None else 2)
    vs, full, init = store(env, m, MonthlyVirtualStorage, months=months, initial_months=initial, reset_to_initial_volume=to_initial)

    def periods(x):
        return ((x.year - d.year) * 12 + x.month - d.month + initial) // months

    def resets(t):
        if t == 0:
            return False
        return env.Not(periods(d + timedelta(days=t * delta)) == periods(d + timedelta(days=(t - 1) * delta)))
    follow(env, m, vs, d, n, delta, full, init, resets, lambda t: True, runs=1 if start is None else 2, to_initial=to_initial)


def harnesses(tier):
    out = []
    k = 2 if tier == "quick" else 3
    for day, month in ((1, 1), (31, 12), (29, 2), (1, 4), (1, 3), (28, 2), (30, 9)):
        out.append(task(h_annual, params=dict(day=day, month=month, delta=1, to_initial=(month % 2 == 0))))
    for day, month, delta in ((1, 1, 7), (31, 12, 3), (15, 6, 5), (29, 2, 2)):
        out.append(task(h_annual, params=dict(day=day, month=month, delta=delta, to_initial=(delta == 5), n=k)))
    for st, day, month, delta, n in (("2015-01-01", 1, 1, 1, 3), ("2015-12-30", 1, 1, 1, 4), ("2015-03-10", 1, 4, 100, 8), ("2014-06-30", 1, 7, 60, 8),
                                     ("2015-05-01", 1, 4, 300, 4), ("2016-02-29", 29, 2, 73, 8)):
        for pc, param in ((False, False), (True, False), (False, True)):
            out.append(task(h_annual, params=dict(day=day, month=month, delta=delta, to_initial=pc, pc=pc, start=st, n=n, param=param)))
    out += [task(h_factor, params=dict(start=s)) for s in ("2015-12-29", "2015-12-30")]
    S = [(1, 1, 31, 12), (1, 4, 1, 10), (1, 10, 1, 4), (31, 12, 2, 1), (29, 2, 1, 3), (15, 6, 16, 6)]
    for i, (a, b, c, e) in enumerate(S):
        out.append(task(h_seasonal, params=dict(rd=a, rm=b, ed=c, em=e, delta=1, to_initial=i % 2 == 0, n=k)))
        if i % 2:
            out.append(task(h_seasonal, params=dict(rd=a, rm=b, ed=c, em=e, delta=4, n=k)))
    for st, dl, n in (("2015-01-01", 30, 14), ("2014-03-31", 1, 4), ("2014-09-29", 1, 4), ("2015-11-15", 100, 7)):
        for a, b, c, e in S[:3]:
            out.append(task(h_seasonal, params=dict(rd=a, rm=b, ed=c, em=e, delta=dl, start=st, n=n, to_initial=(dl == 30))))
    for mo, ini, dl in ((1, 0, 1), (2, 0, 1), (2, 1, 1), (1, 0, 7)):
        out.append(task(h_monthly, params=dict(months=mo, initial=ini, delta=dl)))
    for mo, ini, dl, n in ((1, 0, 15, 8), (3, 0, 20, 10), (3, 1, 20, 10), (6, 2, 31, 14), (2, 1, 45, 8), (12, 5, 30, 16), (5, 0, 70, 9)):
        out.append(task(h_monthly, params=dict(months=mo, initial=ini, delta=dl, start="2014-11-20", n=n, to_initial=(mo == 3))))
    return out


from checks import defaults
harnesses = defaults.extend("C21", harnesses)
