"""Stand-ins for the few scipy functions pywr uses, for symbolic arguments (concrete ones go to scipy)."""
import types

import numpy as np
import z3

from . import krt, sym
from .sym import issym, EngineError


def _lst(a):
    if isinstance(a, (list, tuple)):
        return list(a)
    return list(krt._raw(krt._to_sarr(a)).reshape(-1))


def _anysym(*vs):
    for v in vs:
        if issym(v):
            return True
        if isinstance(v, krt.SArr):
            if any(issym(x) for x in krt._raw(v).reshape(-1)):
                return True
        elif isinstance(v, (list, tuple)) and any(_anysym(x) for x in v):
            return True
    return False


class Interp1d:
    """Piecewise-linear scipy.interpolate.interp1d with its bounds handling."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan,
                 assume_sorted=False):
        self.kind = kind
        self.x, self.y = _lst(x), _lst(y)
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted and not _anysym(self.x):
            o = sorted(range(len(self.x)), key=lambda i: self.x[i])
            self.x = [self.x[i] for i in o]
            self.y = [self.y[i] for i in o]
        self.extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        if self.extrapolate:
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            self.bounds_error = False
        else:
            self.bounds_error = True if bounds_error is None else bounds_error
            if isinstance(fill_value, tuple):
                self.below, self.above = fill_value
            else:
                self.below = self.above = fill_value
        self.real = None
        if kind not in ("linear", "slinear"):
            if _anysym(self.x, self.y):
                raise EngineError("interp1d kind %s with symbolic data" % kind)
            from scipy.interpolate import interp1d
            self.real = interp1d(self.x, self.y, kind=kind, bounds_error=bounds_error, fill_value=fill_value)

    def inside(self, v):
        x, y = self.x, self.y
        r = None
        for i in reversed(range(len(x) - 1)):
            t = y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])
            r = t if r is None else sym.ite(v <= x[i + 1], t, r)
        return r

    def one(self, v):
        if self.real is not None:
            if issym(v):
                raise EngineError("interp1d kind %s at a symbolic point" % self.kind)
            return float(self.real(v))
        if isinstance(v, krt.SArr):
            v = krt._raw(v).item()
        if not self.extrapolate:
            if bool(v < self.x[0]):
                if self.bounds_error:
                    raise ValueError("A value in x_new is below the interpolation range's minimum value.")
                return self.below
            if bool(v > self.x[-1]):
                if self.bounds_error:
                    raise ValueError("A value in x_new is above the interpolation range's maximum value.")
                return self.above
        return self.inside(v)

    def __call__(self, v):
        if isinstance(v, krt.SArr) and v.ndim:
            w = np.empty(v.shape, dtype=object)
            for j in np.ndindex(*v.shape):
                w[j] = self.one(krt._raw(v)[j])
            return krt.SArr(w, krt._KIND_DT["d"])
        if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim):
            return self(krt._to_sarr(v))
        return self.one(v)

    def primitive(self, t):
        """Integral from x[0] to t."""
        x, y = self.x, self.y
        r = 0
        for i in range(len(x) - 1):
            c = sym.smin2(sym.smax2(t, x[i]), x[i + 1])
            d = c - x[i]
            s = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
            r = r + y[i] * d + s * d * d / 2
        if self.extrapolate:
            d = sym.smin2(t - x[0], 0)
            s = (y[1] - y[0]) / (x[1] - x[0])
            r = r + y[0] * d + s * d * d / 2
            d = sym.smax2(t - x[-1], 0)
            s = (y[-1] - y[-2]) / (x[-1] - x[-2])
            r = r + y[-1] * d + s * d * d / 2
        elif not self.bounds_error:
            r = r + self.below * sym.smin2(t - x[0], 0) + self.above * sym.smax2(t - x[-1], 0)
        return r


def interp1d(x, y, **kw):
    return Interp1d(x, y, **kw)


def quad(f, a, b, *args, **kw):
    if not isinstance(f, Interp1d) or f.real is not None:
        if _anysym(a, b):
            raise EngineError("quad of an arbitrary function")
        from scipy.integrate import quad as q
        return q(f, a, b, *args, **kw)
    if not bool(a == b) and not f.extrapolate and f.bounds_error:
        for v in (a, b):
            if bool(v < f.x[0]) or bool(v > f.x[-1]):
                raise ValueError("A value in x_new is outside the interpolation range.")
    return f.primitive(b) - f.primitive(a), 0.0


class Rbf:
    """Radial basis interpolation is linear in the data values: one real Rbf per basis vector."""

    def __init__(self, x, y, **kw):
        from scipy.interpolate import Rbf as R
        self.x, self.y = _lst(x), _lst(y)
        self.kw = kw
        if _anysym(self.x):
            raise EngineError("Rbf with symbolic positions")
        if kw.get("smooth") or callable(kw.get("function")):
            pass
        xs = np.array([float(v) for v in self.x])
        if not _anysym(self.y):
            self.real = R(xs, np.array([float(v) for v in self.y]), **kw)
            self.basis = None
        else:
            self.real = None
            # coefficients below 1e-9 are noise of the numerical solution
            self.basis = [R(xs, np.eye(len(xs))[i], **kw) for i in range(len(xs))]

    def __call__(self, t):
        ts = np.array([float(v) for v in _lst(t)])
        if self.real is not None:
            return krt.np_shim.array(self.real(ts))
        cols = [b(ts) for b in self.basis]
        w = np.empty(len(ts), dtype=object)
        zy = [sym.zreal(y) for y in self.y]
        for j in range(len(ts)):
            ks = [(float(c[j]), y) for c, y in zip(cols, zy)]
            ks = [sym.zreal(k) * y for k, y in ks if abs(k) > 1e-9]
            w[j] = sym.mkreal(z3.Sum(ks)) if ks else 0.0
        return krt.SArr(w, krt._KIND_DT["d"])


def percentileofscore(a, score, kind="rank", nan_policy="propagate"):
    a = _lst(a)
    n = len(a)
    if n == 0:
        return 100.0

    def count(f):
        r = 0
        for v in a:
            r = r + sym.ite(f(v), 1, 0)
        return r
    def one(s):
        left = count(lambda v: v < s)
        right = count(lambda v: v <= s)
        if kind == "rank":
            plus1 = sym.ite(left < right, 1, 0)
            return (left + right + plus1) * 50.0 / n
        if kind == "strict":
            return left * 100.0 / n
        if kind == "weak":
            return right * 100.0 / n
        if kind == "mean":
            return (left + right) * 50.0 / n
        raise ValueError("kind can only be 'rank', 'strict', 'weak' or 'mean'")
    if isinstance(score, (krt.SArr, np.ndarray, list, tuple)):
        s = krt._to_sarr(score)
        w = np.empty(s.shape, dtype=object)
        for j in np.ndindex(*s.shape):
            w[j] = one(krt._raw(s)[j])
        return krt.SArr(w, krt._KIND_DT["d"])
    return one(score)


class gaussian_kde:
    """One-dimensional Gaussian kernels (Scott's factor, no weights).  The normal density and distribution, as functions of the
    distance and of the variance of the data, are uninterpreted apart from their symmetry and range."""

    def __init__(self, dataset, bw_method=None, weights=None):
        if bw_method is not None or weights is not None:
            raise sym.EngineError("gaussian_kde: bandwidth or weights")
        self.v = [x for x in krt._raw(krt._to_sarr(dataset)).ravel()]
        if len(self.v) < 2:
            raise ValueError("`dataset` input should have multiple elements.")
        self.var = krt._s_var(self.v, 1)

    def _uf(self, name, d):
        c = sym.ctx()
        canon = lambda x: sym.mkreal(z3.simplify(sym.zreal(x), som=True, sort_sums=True))
        a, m, b = canon(d), canon(-d), canon(self.var)
        r, o = c.uf("kde_%s_%d" % (name, len(self.v)), a, b), c.uf("kde_%s_%d" % (name, len(self.v)), m, b)
        zr, zo = sym.zreal(r), sym.zreal(o)
        c.assume_raw(z3.And(zr >= 0, zr <= 1, zr + zo == 1) if name == "cdf" else z3.And(zr >= 0, zr == zo))
        return r

    def integrate_box_1d(self, low, high):
        return krt._pymean([self._uf("cdf", high - x) - self._uf("cdf", low - x) for x in self.v])

    def evaluate(self, points):
        pts = krt._raw(krt._to_sarr(points)).ravel()
        w = np.empty(len(pts), dtype=object)
        for j, t in enumerate(pts):
            w[j] = krt._pymean([self._uf("pdf", t - x) for x in self.v])
        return krt.SArr(w, krt._KIND_DT["d"])

    __call__ = pdf = evaluate


class _Mod(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


_cache = {}


def module(nm):
    if nm not in _cache:
        import importlib
        real = importlib.import_module(nm)
        over = {"scipy.interpolate": dict(interp1d=interp1d, Rbf=Rbf), "scipy.integrate": dict(quad=quad),
                "scipy.stats": dict(percentileofscore=percentileofscore, gaussian_kde=gaussian_kde)}.get(nm)
        if nm == "scipy":
            over = {k: module("scipy." + k) for k in ("interpolate", "integrate", "stats")}
        _cache[nm] = _Mod(real, **over) if over else real
    return _cache[nm]
