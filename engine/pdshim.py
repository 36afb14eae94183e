"""pandas for symbolic cells: frames with symbolic values hold them as objects.  Element-wise moves (reindexing, slicing,
forward filling, resampling into groups) are done by the real pandas on the objects; named aggregations of a group and the
hand-over of values to pywr's own arrays are redirected here."""
import sys

import numpy as np
import pandas as pd

from . import krt, sym
from .sym import EngineError, issym


def _cells(s):
    out = []
    for x in s:
        if issym(x):
            out.append(x)
        elif x is not None and x == x:
            out.append(x)
    return out


def _median(v):
    return krt._s_median(v)


AGG = {
    "mean": lambda v: sum(v[1:], v[0]) / len(v),
    "sum": lambda v: sum(v[1:], v[0]),
    "max": lambda v: krt._s_max(v),
    "min": lambda v: krt._s_min(v),
    "median": _median,
    "first": lambda v: v[0],
    "last": lambda v: v[-1],
}


def _agg(name):
    f = AGG[name]

    def g(s):
        v = _cells(s)
        return f(v) if v else (0.0 if name == "sum" else np.nan)
    g.__name__ = name
    return g


def symframe(x):
    """Does the frame or series hold symbolic cells?"""
    if isinstance(x, pd.Series):
        return x.dtype == object and any(issym(c) for c in x.array)
    if isinstance(x, pd.DataFrame):
        return any(symframe(x.iloc[:, k]) for k in range(x.shape[1]))
    return False


def _inpywr():
    f = sys._getframe(2)
    return str(f.f_globals.get("__name__", "")).split(".")[0] in ("pywr", "checks")


DONE = []


def patch():
    if DONE:
        return
    DONE.append(1)
    from pandas.core.resample import Resampler
    real_agg = Resampler.aggregate

    def aggregate(self, func=None, *a, **k):
        obj = self._selected_obj if hasattr(self, "_selected_obj") else self.obj
        if isinstance(func, str) and symframe(obj):
            if func not in AGG:
                raise EngineError("resampling symbolic values with %r" % func)
            func = _agg(func)
        return real_agg(self, func, *a, **k)
    Resampler.aggregate = Resampler.agg = aggregate
    for nm in AGG:
        real = getattr(Resampler, nm)

        def named(self, *a, _n=nm, _r=real, **k):
            obj = self._selected_obj if hasattr(self, "_selected_obj") else self.obj
            return real_agg(self, _agg(_n)) if symframe(obj) else _r(self, *a, **k)
        setattr(Resampler, nm, named)
    from pandas.core.groupby.generic import DataFrameGroupBy, SeriesGroupBy
    for cls in (DataFrameGroupBy, SeriesGroupBy, pd.Series):
        real = cls.aggregate

        def reduce(self, func=None, *a, _r=real, **k):
            obj = getattr(self, "_selected_obj", self)
            if isinstance(func, str) and symframe(obj):
                if func not in AGG:
                    raise EngineError("aggregating symbolic values with %r" % func)
                if isinstance(self, pd.Series):
                    return _agg(func)(self)
                func = _agg(func)
            return _r(self, func, *a, **k)
        cls.aggregate = cls.agg = reduce
    for cls in (pd.DataFrame, pd.Series):
        real_values = cls.values

        def get(self, _r=real_values):
            v = _r.__get__(self)
            if _inpywr() and krt.SYMBOLIC[0] and isinstance(v, np.ndarray):
                s = krt._to_sarr(v) if v.dtype == object else krt.wrap(v)
                return v if s is None else s
            return v
        cls.values = property(get)

        real_np = cls.to_numpy

        def to_numpy(self, dtype=None, copy=False, na_value=None, _r=real_np):
            if _inpywr() and symframe(self):
                return krt._to_sarr(np.array(_r(self, dtype=object)), dtype)
            kw = {} if na_value is None else {"na_value": na_value}
            return _r(self, dtype, copy, **kw)
        cls.to_numpy = to_numpy

        real_astype = cls.astype

        def astype(self, dtype, *a, _r=real_astype, **k):
            if symframe(self):
                try:
                    if np.dtype(dtype).kind == "f":
                        return self.copy()
                except TypeError:
                    pass
            return _r(self, dtype, *a, **k)
        cls.astype = astype
