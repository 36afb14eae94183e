"""C09: time-steps cover the run period and carry correct calendar fields."""
from datetime import timedelta
import pandas
from checks.lib import *
from pywr.timestepper import Timestepper
from checks.c13 import pick, idoy, week, leap, CUML

BOUNDS = ("start any day of 1895..2105, run period of up to 3 further days (8 in the thorough tier) (or up to three steps of 7, 31 or 366 days), "
          "steps given as a number, text or timedelta")
OUTSIDE = ["month-based and sub-daily frequencies"]
Y0, Y1 = 1895, 2105


def fields(env, ts, d, delta, i):
    """All fields of the i-th step of `delta` days from d."""
    day = d + timedelta(days=i * delta)
    env.check(ts.index == i, "index")
    env.eq(ts.days, delta, "days")
    env.eq(ts.year, day.year, "year")
    env.eq(ts.month, day.month, "month")
    env.eq(ts.day, day.day, "day")
    env.eq(ts.dayofyear, day.dayofyear, "day of year")
    lp = leap(env, day.year)
    env.check(env.Iff(ts.is_leap_year, lp), "leap year")
    x = idoy(env, day)
    env.eq(ts.dayofyear_index, x, "day of year index")
    env.eq(ts.week_index, week(env, x), "week index")
    left = env.ite(lp, 366, 365) - day.dayofyear + 1
    env.eq(ts.days_in_current_year(), env.min(left, delta), "days in current year")
    env.eq(ts.days_in_next_year(), env.max(delta - left, 0), "days in next year")
    env.check(ts.period.start_time == day, "start of the period")
    env.check(ts.datetime == day, "datetime")


def h_steps(env, delta, style, maxn):
    d = env.date("start", Y0, Y1)
    k = env.int("extra", 0, maxn)
    dl = {"int": delta, "text": "%dD" % delta, "td": timedelta(days=delta)}[style]
    k = k.__index__()
    t = Timestepper(d, d + timedelta(days=k), dl)
    n = k // delta + 1
    env.check(len(t) == n, "number of steps")
    env.check(len(t.datetime_index) == n, "length of the date index")
    env.check(t.current is None, "no current step before the first")
    seen = 0
    for ts in t:
        fields(env, ts, d, delta, seen)
        env.check(t.current is ts, "current step")
        seen += 1
        env.check(seen <= n, "not too many steps")
        if seen > n:
            break
    env.check(seen == n, "every step is visited")
    # again, from the beginning
    t.reset()
    env.check(t.current is None, "no current step after a reset")
    fields(env, next(t), d, delta, 0)


def h_restart(env, delta):
    """Resetting to a date continues with the step that contains it."""
    d = env.date("start", Y0, Y1)
    n = 4 if delta == 1 else 2
    t = Timestepper(d, d + timedelta(days=delta * n - 1), delta)
    off = env.int("off", -2, delta * n + 1).__index__()
    try:
        t.reset(d + timedelta(days=off))
    except ValueError:
        env.check(off < 0 or off >= delta * n, "only dates outside the period are rejected")
        return
    env.check(0 <= off < delta * n, "dates outside the period are rejected")
    i = off // delta
    for ts in t:
        fields(env, ts, d, delta, i)
        i += 1
    env.check(i == n, "the rest of the period is covered")


def h_changed(env):
    """A model picks up a changed run period."""
    d, e = env.date("start", Y0, Y1), env.date("other", Y0, Y1)
    m = model(env, [2], start=d, end=d + timedelta(days=2))
    m.setup()
    env.check(not m.timestepper.dirty, "clean after setup")
    m.step()
    m.timestepper.start = e
    env.check(m.timestepper.dirty, "a new start makes it dirty")
    m.timestepper.end = e + timedelta(days=3)
    m.timestepper.delta = 2
    r = m.run()
    env.check(r.num_scenarios == 2, "scenarios")
    env.check(r.timesteps == 2, "time-steps run")
    fields(env, m.timestep, e, 2, 1)
    for what, v in (("end", e + timedelta(days=5)), ("delta", 3), ("start", d)):
        m.timestepper.setup()
        env.check(not m.timestepper.dirty, "clean after setup")
        setattr(m.timestepper, what, v)
        env.check(m.timestepper.dirty, "a new %s makes it dirty" % what)


def h_moved(env, what, by):
    """One end of the run period, or the step, is changed between two runs."""
    d = env.date("start", Y0, Y1)
    seen = []
    m = model(env, [2], start=d, end=d + timedelta(days=3), flow=lambda node, t, s: seen.append(t) if node.name == "in" and s == 0 else None)
    m.run()
    env.check(len(seen) == 4, "steps of the first run")
    del seen[:]
    a, b, k = d, d + timedelta(days=3), 1
    if what == "start":
        a = m.timestepper.start = d + timedelta(days=by)
    elif what == "end":
        b = m.timestepper.end = b + timedelta(days=by)
    else:
        k = m.timestepper.delta = by
    n = ((b - a).days // k) + 1
    r = m.run()
    env.check(seen == list(range(n)), "a changed %s is taken up: %r" % (what, seen))
    env.check(r.timesteps == n, "time-steps of the second run")
    env.check(len(m.timestepper) == n, "number of steps")
    fields(env, m.timestep, a, k, n - 1)


def h_run(env):
    """A run visits every step once, in order, from the beginning; stepping can go on from any date."""
    d = env.date("start", Y0, Y1)
    seen = []
    m = model(env, [], start=d, end=d + timedelta(days=4), flow=lambda node, t, s: seen.append(t) if node.name == "in" else None)
    m.step()
    m.step()
    env.check(seen == [0, 1], "steps in order: %r" % (seen,))
    fields(env, m.timestep, d, 1, 1)
    for _ in range(2):
        del seen[:]
        m.run()
        env.check(seen == [0, 1, 2, 3, 4], "a run covers the whole period: %r" % (seen,))
        fields(env, m.timestep, d, 1, 4)
    env.raises(StopIteration, m.step, "no step after the end")
    m.reset(start=d + timedelta(days=3))
    del seen[:]
    m.step()
    m.step()
    env.check(seen == [3, 4], "reset to a date: %r" % (seen,))
    fields(env, m.timestep, d, 1, 4)


def harnesses(tier):
    big = tier == "thorough"
    out = [task(h_steps, params=dict(delta=1, style=s, maxn=8 if big else 3)) for s in ("int", "text", "td")]
    out += [task(h_steps, params=dict(delta=a, style=s, maxn=b)) for a, s, b in ((2, "int", 4), (7, "text", 8))]
    out += sweep(h_restart, over=dict(delta=[1, 3]))
    out += [task(h_long, params=dict(delta=k)) for k in (10, 31, 366)]
    out += [task(h_changed), task(h_run)]
    out += [task(h_moved, params=dict(what=w, by=k)) for w, k in (("start", 1), ("start", -1), ("end", -2), ("end", 1), ("delta", 2))]
    return out


def h_long(env, delta):
    d = env.date("start", Y0, Y1)
    n = 2 if delta > 100 else 3
    t = Timestepper(d, d + timedelta(days=n * delta - 1), delta)
    env.check(len(t) == n, "number of steps")
    for i, ts in enumerate(t):
        fields(env, ts, d, delta, i)
