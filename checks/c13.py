"""C13: profile parameters return the entry for the current date."""
import math
from datetime import timedelta
import numpy as np
from checks.lib import *
from pywr.parameters import *

BOUNDS = ("start date any day of 1895..2105, 2 daily (or two 10- or 40-day) time-steps, 2 scenarios; monthly values, "
          "harmonic coefficients and drawdown settings arbitrary; daily and weekly tables with distinct values")
OUTSIDE = ["sub-daily time-steps", "the radial basis interpolant itself (scipy) is taken as given", "cos is uninterpreted"]
Y0, Y1 = 1895, 2105
CUML = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335]
MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def dmodel(env, n=2, delta=1, scen=(2,)):
    d = env.date("start", Y0, Y1)
    m = model(env, scen, start=d, end=d + timedelta(days=(n - 1) * delta), timestep=delta)
    return m, d


def pick(env, i, table):
    """table[i] for an index counted from 0"""
    r = table[0]
    for k in range(1, len(table)):
        r = env.ite(i == k, table[k], r)
    return r


def idoy(env, d):
    """Zero-based day of a 366-day year."""
    return pick(env, d.month - 1, CUML) + d.day - 1


def run(env, m, d, delta=1):
    for ts in steps(m):
        day = d + timedelta(days=ts.index * delta)
        for si in m.scenarios.combinations:
            yield day, ts.index, si


def check_date(env, p, m, d, delta, fn, what):
    for day, t, si in run(env, m, d, delta):
        env.eq(p.get_value(si), fn(day, si), what)


DAILY = [3.0 * i + 1 for i in range(366)]
WEEKLY = [5.0 * i - 2 for i in range(52)]


def week(env, i):
    w = i // 7
    return env.ite(w > 51, 51, w)


def h_daily(env, delta):
    m, d = dmodel(env, 2, delta)
    p = DailyProfileParameter(m, DAILY, name="p")
    check_date(env, p, m, d, delta, lambda day, si: 3.0 * idoy(env, day) + 1, "daily")


def h_weekly(env, n53=False):
    m, d = dmodel(env)
    p = WeeklyProfileParameter(m, WEEKLY + ([999.0] if n53 else []), name="p")
    check_date(env, p, m, d, 1, lambda day, si: 5.0 * week(env, idoy(env, day)) - 2, "weekly")


def h_monthly(env, delta):
    m, d = dmodel(env, 2, delta)
    v, w = env.reals("v", 12, -100, 100), env.reals("w", 12, -100, 100)
    p = MonthlyProfileParameter(m, v, name="p")
    k = 0
    for day, t, si in run(env, m, d, delta):
        env.eq(p.get_value(si), pick(env, day.month - 1, v), "monthly")
    # updated values take effect from the next run on
    p.set_double_variables(np.array(w))
    m.reset()
    m.step()
    for si in m.scenarios.combinations:
        env.eq(p.get_value(si), pick(env, d.month - 1, w), "monthly after an update")


def _interp_spec(env, v, which, day):
    """Straight line between the knots of this month and its neighbour, on a 365-day calendar."""
    # 29 Feb repeats the 28th
    feb29 = env.And(day.month == 2, day.day == 29)
    r = None
    dd = env.ite(feb29, 28, day.day)
    for k in range(12):
        if which == "first":
            # knots on the first of each month
            e = v[k] + (v[(k + 1) % 12] - v[k]) * (dd - 1) / MLEN[k]
        else:
            e = v[(k - 1) % 12] + (v[k] - v[(k - 1) % 12]) * dd / MLEN[k]
        r = e if r is None else env.ite(day.month == k + 1, e, r)
    return r


def h_interp_table(env, which):
    """The whole interpolated year, for any values: one table of 366 entries, then again after an update."""
    m = model(env, [], end="2015-01-01")
    v, w = env.reals("v", 12, -100, 100), env.reals("w", 12, -100, 100)
    p = MonthlyProfileParameter(m, v, interp_day=which, name="p")
    m.setup()
    for vals in (v, w):
        dv = p.get_daily_values()
        i = 0
        import datetime as dt
        for i in range(366):
            day = dt.date(2016, 1, 1) + timedelta(days=i)
            k = day.month - 1
            dd = min(day.day, MLEN[k])
            if which == "first":
                e = vals[k] + (vals[(k + 1) % 12] - vals[k]) * (dd - 1) / MLEN[k]
            else:
                e = vals[k - 1] + (vals[k] - vals[k - 1]) * dd / MLEN[k]
            env.eq(dv[i], e, "interpolated day %d" % (i + 1))
        p.set_double_variables(np.array(w))
        m.reset()


def h_interp(env, which):
    m, d = dmodel(env, 2)
    c = [1, 0, -1, 2, 1, -2, -1, 1, 1, -1, -1, 0]
    v = [10.0]
    for k in range(11):
        v.append(v[k] + (c[k] * MLEN[k] if which == "first" else c[k + 1] * MLEN[k + 1]))
    p = MonthlyProfileParameter(m, v, interp_day=which, name="p")
    check_date(env, p, m, d, 1, lambda day, si: _interp_spec(env, v, which, day), "interpolated")


def h_monthly_daily(env):
    m = model(env, [], end="2015-01-01")
    v = env.reals("v", 12, -100, 100)
    p = MonthlyProfileParameter(m, v, name="p")
    m.setup()
    dv = p.get_daily_values()
    i = 0
    for k in range(12):
        for _ in range(29 if k == 1 else MLEN[k]):
            env.eq(dv[i], v[k], "daily values of month %d" % (k + 1))
            i += 1
    env.check(len(dv) == 366, "length")


def h_scenario(env, kind):
    """One profile per scenario member, in a model with two scenarios."""
    d = env.date("start", Y0, Y1)
    m = model(env, [2], start=d, end=d + timedelta(days=1))
    m.scenarios.user_combinations = None
    sc = Scenario(m, "prof", size=3)
    Scenario(m, "last", size=2)
    if kind == "monthly":
        n = 12
        v = [env.reals("v%d_" % j, 12, -100, 100) for j in range(3)]
        p = ScenarioMonthlyProfileParameter(m, sc, np.array(v), name="p")
    elif kind == "weekly":
        v = [[float(100 * j + i) for i in range(52)] for j in range(3)]
        p = ScenarioWeeklyProfileParameter(m, sc, v, name="p")
    else:
        v = [[float(1000 * j + i) for i in range(366)] for j in range(3)]
        p = ScenarioDailyProfileParameter(m, sc, v, name="p")
    for day, t, si in run(env, m, d):
        j = si.indices[1]
        if kind == "monthly":
            e = pick(env, day.month - 1, v[j])
        elif kind == "weekly":
            e = 100 * j + week(env, idoy(env, day))
        else:
            e = 1000 * j + idoy(env, day)
        env.eq(p.get_value(si), e, "scenario profile")


def h_factors(env):
    d = env.date("start", Y0, Y1)
    m = model(env, [2], start=d, end=d + timedelta(days=2))
    m.scenarios.user_combinations = None
    sc = Scenario(m, "fac", size=2)
    base = env.reals("b", 3, -100, 100)
    f = [[float(1 + j * 12 + i) for i in range(12)] for j in range(2)]
    p = ArrayIndexedScenarioMonthlyFactorsParameter(m, sc, base, f, name="p")
    for day, t, si in run(env, m, d):
        j = si.indices[1]
        env.eq(p.get_value(si), base[t] * pick(env, day.month - 1, f[j]), "factor")


def leap(env, y):
    return env.And(y % 4 == 0, env.Or(y % 100 != 0, y % 400 == 0))


def h_drawdown(env, month, day0):
    """The profile falls from one on the reset day along a straight line towards the residual."""
    m, d = dmodel(env, 2, 1, [1])
    res = env.int("residual", 0, 365)
    p = UniformDrawdownProfileParameter(m, reset_day=day0, reset_month=month, residual_days=res, name="p")
    r366 = CUML[month - 1] + day0 - 1
    for day, t, si in run(env, m, d):
        v = p.get_value(si)
        before = env.Or(day.month < month, env.And(day.month == month, day.day < day0))
        y = env.ite(before, day.year - 1, day.year)     # year of the last reset
        if month > 2:
            ylp = leap(env, y + 1)
            n = env.ite(ylp, 366, 365)
            # days since the reset: days left in the reset year plus days of this year
            doy = day.dayofyear
            rdoy = r366 + 1 - env.ite(leap(env, y), 0, 1)
            el = env.ite(before, 365 + env.ite(leap(env, y), 1, 0) - rdoy + doy, doy - rdoy)
        else:
            # a 366-day count in which 29 February has its place in every year
            n = env.ite(leap(env, y), 366, 365)
            i = idoy(env, day)
            el = env.ite(before, i - r366 + 366, i - r366)
        env.eq((v - 1) * n * n, (res - n) * el, "drawdown", 1e-3)
        isreset = env.And(day.month == month, day.day == day0)
        env.check(env.Implies(isreset, env.And(v > 1 - 1e-9, v < 1 + 1e-9)), "one on the reset day")


def h_harmonic(env, n, delta):
    m, d = dmodel(env, 2, delta)
    mean, a, ph = env.real("mean", -100, 100), env.reals("a", n, -10, 10), env.reals("ph", n, 0, 6)
    p = AnnualHarmonicSeriesParameter(m, mean, a, ph, name="p")

    def spec(day, si):
        r = mean
        for i in range(n):
            r = r + a[i] * env.fn("cos", (day.dayofyear - 1) * (i + 1) * math.pi * 2 / 365 + ph[i])
        return r
    check_date(env, p, m, d, delta, spec, "harmonic series")


DOYS = [1, 60, 200, 300]


def weights(days, at):
    """Weight of each of the mirrored points in the interpolant at a day."""
    from scipy.interpolate import Rbf
    x = [days[-1] - 365] + list(days) + [366, 366 + days[1] - 1]
    return [float(Rbf(x, [float(a == b) for b in range(len(x))], function="linear")(float(at))) for a in range(len(x))]


def h_rbf(env, clip, start):
    """Any interpolant through the mirrored points: clipped; 29 February repeats the 28th."""
    from pandas import Timestamp
    d = Timestamp(start)
    m = model(env, [], start=d, end=d + timedelta(days=3))
    v = env.reals("v", 4, -10, 10)
    lo, hi = (env.real("lo", -5, 0), env.real("hi", 1, 5)) if clip else (-math.inf, math.inf)
    kw = dict(min_value=lo, max_value=hi) if clip else {}
    p = RbfProfileParameter(m, DOYS, v, rbf_kwargs={"function": "linear"}, name="p", **kw)
    y = [v[-1]] + v + [v[0], v[1]]
    for day, t, si in run(env, m, d):
        k = CUML[day.month - 1] + day.day          # day of a leap year
        k = k - 1 if k >= 60 else k
        e = env.sum(a * b for a, b in zip(weights(DOYS, k), y))
        if clip:
            e = env.max(env.min(e, hi), lo)
        env.eq(p.get_value(si), e, "rbf profile")


def h_rbf_update(env):
    """Set variables move both the values and the days."""
    m = model(env, [], end="2015-03-02", start="2015-03-01")
    v, w = env.reals("v", 4, -10, 10), env.reals("w", 4, -10, 10)
    p = RbfProfileParameter(m, DOYS, v, variable_days_of_year_range=5, rbf_kwargs={"function": "linear"}, name="p")
    m.setup()

    def spec(days, vals):
        y = [vals[-1]] + list(vals) + [vals[0], vals[1]]
        return env.sum(a * b for a, b in zip(weights(days, 60), y))
    m.step()
    si = m.scenarios.combinations[0]
    env.eq(p.get_value(si), spec(DOYS, v), "before")
    p.set_double_variables(np.array(w))
    p.set_integer_variables(np.array([63, 197, 305], dtype=np.int32))
    m.reset()
    m.step()
    env.eq(p.get_value(si), spec([1, 63, 197, 305], w), "after")
    env.eqs(p.get_double_variables(), w, "variables")
    env.eqs(p.get_integer_lower_bounds(), [55, 195, 295], "lower")
    env.eqs(p.get_integer_upper_bounds(), [65, 205, 305], "upper")


def harnesses(tier):
    return ([task(h_daily, params={"delta": k}) for k in (1, 10)] + [task(h_weekly), task(h_weekly, params={"n53": True})]
             + [task(h_monthly, params={"delta": k}) for k in (1, 40)]
             + sweep(h_interp_table, over={"which": ["first", "last"]}) + sweep(h_interp, over={"which": ["first", "last"]})
             + [task(h_monthly_daily), task(h_factors), task(h_rbf_update)]
             + sweep(h_scenario, over={"kind": ["monthly", "weekly", "daily"]})
             + [task(h_drawdown, params={"month": a, "day0": b}) for a, b in [(1, 1), (2, 10), (2, 29), (3, 1), (4, 1), (7, 31), (12, 31)]]
             + sweep(h_harmonic, over={"n": [1, 2], "delta": [1, 40]})
             + sweep(h_rbf, over={"clip": [False, True], "start": ["2016-02-27", "2015-02-27", "2015-12-30", "2016-12-29"]}))


from checks import defaults
harnesses = defaults.extend("C13", harnesses)
