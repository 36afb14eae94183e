"""Dates with a symbolic year and day, standing in for pandas.Timestamp / Period / PeriodIndex.

A date is an arbitrary base day plus a whole number of days, so differences between dates of the same base
are plain numbers while year, month, day and day of year are integer terms (proleptic Gregorian calendar).
"""
import datetime
import numbers

import numpy as np

from . import sym
from .sym import SymInt, issym, EngineError

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def is_leap(y):
    if not issym(y):
        import calendar
        return calendar.isleap(int(y))
    import z3
    z = y.z
    return sym.mkbool(z3.And(z % 4 == 0, z3.Or(z % 100 != 0, z % 400 == 0)))


def leapi(y):
    return sym.ite(is_leap(y), 1, 0)


def cum(k, leap):
    """Days before month k+1 (k in 0..12)."""
    return CUM[k] + (leap if k >= 2 else 0)


def ylen(y):
    return 365 + leapi(y)


def ordinal(y, doy):
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 + doy


class Days:
    """A length of time in whole days (minus 1 ns for the end of a period)."""

    def __init__(self, n):
        self.n = n

    @property
    def days(self):
        return self.n

    def total_seconds(self):
        return self.n * 86400


class SymDate:
    """A day; compares and subtracts like a timestamp."""
    _hour = 0

    def __init__(self, y, doy, base=None, off=0, end=False):
        self.year, self.dayofyear = y, doy
        self.base = base if base is not None else (self, 0)
        self.off = off
        self.end = end
        self._md = None

    day_of_year = property(lambda self: self.dayofyear)

    def _monthday(self):
        if self._md is None:
            l = leapi(self.year)
            m, d = 1, self.dayofyear
            for k in range(1, 12):
                c = self.dayofyear > cum(k, l)
                m = sym.ite(c, k + 1, m)
                d = sym.ite(c, self.dayofyear - cum(k, l), d)
            self._md = (m, d)
        return self._md

    @property
    def month(self):
        return self._monthday()[0]

    @property
    def day(self):
        return self._monthday()[1]

    @property
    def is_leap_year(self):
        return is_leap(self.year)

    @property
    def dayofweek(self):
        return (self.toordinal() + 6) % 7

    def toordinal(self):
        return ordinal(self.year, self.dayofyear)

    @property
    def value(self):
        # nanoseconds since 1970
        return (self.toordinal() - 719163) * 86400 * 10**9 + (86400 * 10**9 - 1 if self.end else 0)

    def shift(self, n, end=False):
        n = int(n)
        y, d = self.year, self.dayofyear
        k = abs(n) // 365 + 1
        d = d + n
        if n > 0:
            for _ in range(k):
                l = ylen(y)
                c = d > l
                y, d = sym.ite(c, y + 1, y), sym.ite(c, d - l, d)
        elif n < 0:
            for _ in range(k):
                c = d < 1
                l = ylen(y - 1)
                y, d = sym.ite(c, y - 1, y), sym.ite(c, d + l, d)
        return SymDate(y, d, self.base, self.off + n, end)

    @staticmethod
    def _n(o):
        if isinstance(o, Days):
            return o.n
        if isinstance(o, datetime.timedelta):
            if o.seconds or o.microseconds:
                raise EngineError("sub-daily shift of a symbolic date")
            return o.days
        if hasattr(o, "n") and type(o).__name__ in ("Day",):
            return o.n
        if hasattr(o, "days"):
            return o.days
        if isinstance(o, np.timedelta64):
            return int(o / np.timedelta64(1, "D"))
        return None

    def __add__(self, o):
        n = self._n(o)
        return NotImplemented if n is None else self.shift(n, self.end)

    __radd__ = __add__

    def diff(self, o):
        if self.base[0] is o.base[0]:
            d = self.off - o.off
        else:
            d = self.toordinal() - o.toordinal()
        return d + (1 if self.end else 0) - (1 if o.end else 0)

    def __sub__(self, o):
        o = aslike(o)
        if isinstance(o, SymDate):
            return Days(self.diff(o))
        n = self._n(o)
        return NotImplemented if n is None else self.shift(-n, self.end)

    def __rsub__(self, o):
        o = aslike(o)
        return Days(o.diff(self)) if isinstance(o, SymDate) else NotImplemented

    def _cmp(self, o, f):
        o = aslike(o)
        if not isinstance(o, SymDate):
            return NotImplemented
        if self.base[0] is o.base[0]:
            return f(2 * self.off + self.end, 2 * o.off + o.end)
        return f(2 * self.toordinal() + int(self.end), 2 * o.toordinal() + int(o.end))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash((id(self.base[0]), self.off, self.end))

    def strftime(self, fmt):
        return "<date>"

    def isoformat(self, *a):
        return "<date>"

    def to_pydatetime(self):
        return self

    def __str__(self):
        return "<date>"

    def __repr__(self):
        return "<date+%d>" % self.off


class SymPeriod:
    """n days from a date on."""

    def __init__(self, date, n):
        self.date, self.n = date, n

    year = property(lambda self: self.date.year)
    month = property(lambda self: self.date.month)
    day = property(lambda self: self.date.day)
    dayofyear = property(lambda self: self.date.dayofyear)
    day_of_year = property(lambda self: self.date.dayofyear)
    is_leap_year = property(lambda self: self.date.is_leap_year)
    start_time = property(lambda self: self.date)

    @property
    def end_time(self):
        return self.date.shift(self.n - 1, True)

    def to_timestamp(self, freq=None, how="start"):
        return self.end_time if str(how)[:1].lower() == "e" else self.date

    def __add__(self, o):
        n = SymDate._n(o)
        if n is None and isinstance(o, numbers.Integral):
            n = int(o) * self.n
        return SymPeriod(self.date.shift(n), self.n)

    def __sub__(self, o):
        n = SymDate._n(o)
        return SymPeriod(self.date.shift(-n), self.n)

    def _key(self, o, f):
        if isinstance(o, SymPeriod):
            return f(self.date, o.date)
        return NotImplemented

    def __eq__(self, o): return self._key(o, lambda a, b: a == b)
    def __lt__(self, o): return self._key(o, lambda a, b: a < b)
    def __le__(self, o): return self._key(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._key(o, lambda a, b: a > b)
    def __ge__(self, o): return self._key(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash((self.date, self.n))

    def strftime(self, fmt):
        return "<date>"

    def __str__(self):
        return "<period>"


class _Secs:
    """difference of two indexes: total_seconds() per entry"""

    def __init__(self, days):
        self.d = days

    def total_seconds(self):
        from . import krt
        return krt.np_shim.array([x * 86400.0 - 1e-9 for x in self.d])


class _Stamps:
    def __init__(self, dates):
        self.dates = dates

    def __len__(self):
        return len(self.dates)

    def __getitem__(self, i):
        return self.dates[i]

    def __iter__(self):
        return iter(self.dates)

    def __sub__(self, o):
        return _Secs([a.diff(b) for a, b in zip(self.dates, o.dates)])


class SymPeriodIndex:
    def __init__(self, periods):
        self.periods = list(periods)

    def __len__(self):
        return len(self.periods)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymPeriodIndex(self.periods[i])
        return self.periods[i]

    def __iter__(self):
        return iter(self.periods)

    def to_timestamp(self, freq=None, how="start"):
        return _Stamps([p.to_timestamp(how=how) for p in self.periods])


def parse_freq(freq):
    f = str(freq)
    if not f.endswith("D"):
        raise EngineError("symbolic dates with frequency %r" % freq)
    return int(f[:-1] or 1)


def period_range(start, end, freq):
    n = parse_freq(freq)
    start, end = aslike(start), aslike(end)
    d = end.diff(start)
    if issym(d):
        d = d.__index__()
    return SymPeriodIndex([SymPeriod(start.shift(k), n) for k in range(0, d + 1, n)])


def aslike(o):
    """timestamps and dates -> SymDate"""
    if isinstance(o, SymDate):
        return o
    if isinstance(o, (datetime.date, datetime.datetime)):
        # Timestamp is a datetime
        doy = o.timetuple().tm_yday
        return SymDate(o.year, doy, (_EPOCH, 0), o.toordinal())
    return o


_EPOCH = object()


def from_ymd(y, m, d):
    """Any of the three may be symbolic."""
    if not any(issym(v) for v in (y, m, d)):
        return None
    l = leapi(y)
    # an impossible date is an error
    ml = 31
    before = 0
    for k in range(1, 12):
        c = (m == k + 1)
        ml = sym.ite(c, cum(k + 1, l) - cum(k, l), ml)
        before = sym.ite(c, cum(k, l), before)
    bad = sym.ite(m < 1, True, sym.ite(m > 12, True, sym.ite(d < 1, True, d > ml)))
    if bool(bad):
        raise ValueError("day is out of range for month")
    return SymDate(y, before + d)
