"""Run-time support for lowered modules: C typing, typed memoryviews, C buffers, numpy shim."""
import builtins as _b
import inspect
import math
import numbers
import operator
from fractions import Fraction
import sys
import types

import numpy as np

from . import sym
from .sym import SymReal, SymInt, SymBool, issym, EngineError

SYMBOLIC = [False]   # symbolic arrays on/off


class MemoryFault(Exception):
    """Out-of-bounds access to C memory (undefined behaviour in the real build)."""


# ------------------------------------------------------------------------------ coercions

def _k_d(x):
    t = type(x)
    if t is float or t is SymReal:
        return x
    if t is SymInt or t is SymBool:
        return SymReal(sym.zreal(x))
    if t is SArr and x.ndim == 0:
        return _k_d(x.item())
    return float(x) if not isinstance(x, (str, bytes)) else _raise(TypeError("must be real number, not str"))


def _raise(e):
    raise e


def _k_i(x):
    t = type(x)
    if t is int or t is SymInt:
        return x
    if t is SymBool:
        return SymInt(sym.zint(x))
    if t is SymReal:
        if z3_is_int_valued(x):
            return sym.mkint(sym.z3.ToInt(x.z))
        raise TypeError("an integer is required")
    if t is bool:
        return int(x)
    if t is SArr and x.ndim == 0:
        return _k_i(x.item())
    if isinstance(x, (str, bytes)) or x is None:
        raise TypeError("an integer is required")
    if isinstance(x, float):
        # C conversion of a Python float object
        return int(x)
    return int(operator.index(x)) if hasattr(x, "__index__") else int(x)


def z3_is_int_valued(x):
    z = x.z
    return sym.z3.is_to_real(z) or bool(x.is_integer())


def _k_b(x):
    if type(x) in (bool, SymBool):
        return x
    if isinstance(x, (SymReal, SymInt)):
        return x != 0
    return bool(x)


def _k_t(x, cls):
    if x is None or isinstance(x, cls):
        return x
    raise TypeError("Cannot convert %s to %s" % (type(x).__name__, getattr(cls, "__name__", cls)))


_PYT = {"list": (list,), "dict": (dict,), "tuple": (tuple,), "set": (set,), "frozenset": (frozenset,),
        "str": (str,), "unicode": (str,), "basestring": (str,), "bytes": (bytes,),
        "slice": (slice,), "bytearray": (bytearray,)}


def _k_py(x, name):
    if x is None:
        return x
    ts = _PYT[name]
    if type(x) in ts or (name in ("slice",) and isinstance(x, slice)):
        return x
    if isinstance(x, ts) and name in ("str", "basestring", "unicode"):
        return x
    raise TypeError("Expected %s, got %s" % (name, type(x).__name__))


def _k_notnone(x):
    if x is None:
        raise TypeError("Argument must not be None")


def _k_trunc(x):
    return sym.trunc(x) if not isinstance(x, (bool, int)) else int(x)


def _k_fmt(v, conv, spec):
    if issym(v):
        return format(v, "" if spec == "d" else spec)
    if conv == "r":
        v = repr(v)
    elif conv == "s":
        v = str(v)
    elif conv == "a":
        v = ascii(v)
    return format(v, spec)


def _k_cdiv(op, a, b):
    if not issym(b) and b == 0 or (issym(b) and bool(b == 0)):
        if sym._isint(a) and sym._isint(b):
            raise MemoryFault("C integer division by zero")
        if issym(a) and bool(a == 0) or (not issym(a) and (a == 0 or a != a)):
            return math.nan
        if op == "%":
            return math.nan
        return math.inf if bool(a > 0) else -math.inf
    if op == "/":
        return a / b
    if sym._isint(a) and sym._isint(b):
        # C truncation
        q = abs(a) // abs(b)
        neg = (a < 0) != (b < 0)
        q = sym.ite(neg, -q, q) if isinstance(neg, SymBool) else (-q if neg else q)
        return q if op == "//" else a - q * b
    return a // b if op == "//" else a % b


# ------------------------------------------------------------------------------ attributes

_DEF = {"d": 0.0, "i": 0, "b": False}
_CO = {"d": _k_d, "i": _k_i, "b": _k_b}


class _k_attr:
    __slots__ = ("name", "spec", "kind", "key")

    def __init__(self, name, spec):
        self.name = name
        self.spec = spec
        self.kind = spec[0]
        self.key = name

    def __set_name__(self, owner, name):
        self.key = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__
        try:
            return d[self.key]
        except KeyError:
            pass
        k = self.kind
        if k in _DEF:
            return _DEF[k]
        if k == "struct":
            v = d[self.key] = _k_newstruct(self.spec[1], self.spec[2]())
            return v
        if k == "carr":
            v = d[self.key] = CBuf(self.spec[1], self.spec[2])
            return v
        return None

    def __set__(self, obj, v):
        k = self.kind
        if k in _CO:
            v = _CO[k](v)
        elif k == "mv":
            v = _k_mv(v, self.spec[1], self.spec[2])
        elif k == "cls":
            v = _k_t(v, self.spec[1]())
        elif k == "py":
            v = _k_py(v, self.spec[1])
        elif k == "carr":
            buf = self.__get__(obj)
            for i, x in enumerate(v):
                buf[i] = x
            return
        obj.__dict__[self.key] = v

    def __delete__(self, obj):
        obj.__dict__.pop(self.key, None)


_KID = [0]


class _KBase:
    def __hash__(self):
        # creation order: iteration over sets of objects is the same on every re-execution
        return self._kid

    def __new__(cls, *args, **kwargs):
        self = object.__new__(cls)
        _KID[0] += 1
        self._kid = _KID[0]
        for c in reversed(cls.__mro__):
            f = c.__dict__.get("__cinit__")
            if f is not None:
                code = f.__code__
                if code.co_argcount == 1 and not (code.co_flags & inspect.CO_VARARGS):
                    f(self)
                else:
                    f(self, *args, **kwargs)
        return self


def _no_own_init(cls):
    return True


class _KStruct:
    def __getitem__(self, i):
        if i != 0:
            raise MemoryFault("struct pointer index")
        return self


class _KEnum(int):
    pass


def _k_struct(x):
    return x


def _k_newstruct(name, g):
    cls = g.get(name)
    if cls is None:
        b = g.get("__builtins__")
        cls = b.get(name) if isinstance(b, dict) else getattr(b, name, None)
    if cls is None:
        return _KStruct()
    return cls()


# ------------------------------------------------------------------------------ C buffers

_SIZE = {"d": 8, "i": 4, "b": 4}


class _Raw:
    def __init__(self, nbytes):
        self.nbytes = nbytes


def _k_malloc(n, m=None):
    if m is not None:
        n = n * m
    n = operator.index(n)
    return _Raw(n)


class CBuf:
    """C array with bounds."""

    def __init__(self, kind, n, data=None, off=0):
        self.kind, self.n, self.off = kind, n, off
        self.data = data if data is not None else [None] * n
        self.freed = False

    def _ix(self, i):
        i = operator.index(i) + self.off
        if self.freed:
            raise MemoryFault("use after free")
        if not 0 <= i < len(self.data):
            raise MemoryFault("C array index %d outside 0..%d" % (i, len(self.data) - 1))
        return i

    def __getitem__(self, i):
        v = self.data[self._ix(i)]
        if v is None:
            raise MemoryFault("read of uninitialised C memory")
        return v

    def __setitem__(self, i, v):
        self.data[self._ix(i)] = _CO[self.kind](v)


def _k_carr(kind, n):
    return CBuf(kind, n)


def _k_cast_ptr(p, kind):
    if isinstance(p, _Raw):
        return CBuf(kind, p.nbytes // _SIZE[kind])
    return p


class _ElemPtr:
    """&base[i] : pointer into a 1-d buffer."""

    def __init__(self, base, i):
        self.base, self.i = base, operator.index(i)

    def __getitem__(self, j):
        k = self.i + operator.index(j)
        if k < 0 or k >= len(self.base):
            raise MemoryFault("pointer outside its array")
        return self.base[k]

    def __setitem__(self, j, v):
        k = self.i + operator.index(j)
        if k < 0 or k >= len(self.base):
            raise MemoryFault("pointer outside its array")
        self.base[k] = v


def _k_addr(base, i):
    if isinstance(base, CBuf):
        return CBuf(base.kind, 0, base.data, base.off + operator.index(i))
    return _ElemPtr(base, i)


def free(p):
    if isinstance(p, CBuf):
        if p.freed:
            raise MemoryFault("double free")
        p.freed = True


# ------------------------------------------------------------------------------ arrays

_KIND_DT = {"d": np.dtype("float64"), "i": np.dtype("int64"), "b": np.dtype("bool")}


def _dtkind(dt):
    if dt.kind == "f":
        return "d"
    if dt.kind in "iu":
        return "i"
    if dt.kind == "b":
        return "b"
    return "o"


def _anysym(a):
    for x in a.flat:
        if issym(x):
            return True
    return False


def _coerce_el(kind, x):
    if kind == "d":
        if isinstance(x, SymReal) or type(x) is float:
            return x
        return _k_d(x)
    if kind == "i":
        if isinstance(x, SymReal):
            return sym.trunc(x)
        if isinstance(x, float):
            return int(x)
        return _k_i(x)
    if kind == "b":
        return _k_b(x)
    return x


class SArr(np.ndarray):
    """Array of Python objects standing for a numeric numpy array (may hold symbolic values)."""

    def __new__(cls, obj, kdt):
        a = np.empty(np.shape(obj) if not isinstance(obj, np.ndarray) else obj.shape, dtype=object)
        if isinstance(obj, np.ndarray):
            a[...] = obj
        else:
            a[...] = obj
        r = a.view(cls)
        r.kdt = np.dtype(kdt)
        return r

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kdt = getattr(obj, "kdt", np.dtype(object))

    @property
    def dtype(self):
        return self.kdt

    @property
    def kind(self):
        return _dtkind(self.kdt)

    @property
    def itemsize(self):
        return self.kdt.itemsize

    # -------- element access
    def __getitem__(self, ix):
        ix = _fixidx(ix)
        if _symidx(ix):
            return _sym_getitem(self, ix)
        r = np.ndarray.__getitem__(self, ix)
        if not isinstance(r, np.ndarray) and not issym(r):
            return _npscalar(r, self.kdt)
        return r

    def __setitem__(self, ix, v):
        ix = _fixidx(ix)
        k = self.kind
        if isinstance(v, MView):
            v = v.a
        if isinstance(v, (list, tuple)):
            v = _to_sarr(v)
        if isinstance(v, np.ndarray):
            if v.dtype.kind == "O" or isinstance(v, SArr) or v.dtype != object:
                w = np.empty(v.shape, dtype=object)
                src = _raw(v)
                for i in np.ndindex(*v.shape):
                    w[i] = _coerce_el(k, src[i])
                v = w
        else:
            v = _coerce_el(k, v)
        if _symidx(ix):
            return _sym_setitem(self, ix, v)
        np.ndarray.__setitem__(self, ix, v)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def item(self, *args):
        r = np.ndarray.item(self, *args)
        return r

    def tolist(self):
        return np.ndarray.tolist(self)

    def __float__(self):
        if self.size == 1:
            x = np.ndarray.item(self)
            if issym(x):
                raise EngineError("float() of symbolic array")
            return float(x)
        raise TypeError("only length-1 arrays can be converted")

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __reduce__(self):
        raise EngineError("pickling a symbolic array")

    def copy(self, order="C"):
        return SArr(_raw(self).copy(), self.kdt)

    def astype(self, dtype, **kw):
        dt = np.dtype(_cdt(dtype))
        k = _dtkind(dt)
        w = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            w[i] = _coerce_el(k, _raw(self)[i])
        return SArr(w, dt)

    # -------- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce("sum", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce("mean", self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("min", self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("max", self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce("prod", self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("any", self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce("all", self, axis, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _reduce("std", self, axis, keepdims, ddof=ddof)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _reduce("var", self, axis, keepdims, ddof=ddof)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis)

    def argmax(self, axis=None, **kw):
        return np_argmax(self, axis)

    def argmin(self, axis=None, **kw):
        return np_argmax(-self, axis)

    def sort(self, axis=-1, **kw):
        self[...] = np_sort(self, axis)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def dot(self, o):
        return np_dot(self, o)

    def fill(self, v):
        self[...] = v

    def flatten(self, order="C"):
        return SArr(_raw(self).flatten(), self.kdt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return _arrfunc(func, args, kwargs)


def _raw(a):
    """plain object ndarray view"""
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def _npscalar(x, dt):
    k = _dtkind(dt)
    if k == "d" and not isinstance(x, np.floating):
        return np.float64(x) if dt.itemsize == 8 else dt.type(x)
    return x


def _fixidx(ix):
    if isinstance(ix, MView):
        ix = ix.a
    if isinstance(ix, tuple):
        return tuple(_fixidx(i) for i in ix)
    if isinstance(ix, SArr):
        if ix.kind == "b":
            return np.array([bool(x) for x in _raw(ix).flat], dtype=bool).reshape(ix.shape)
        if ix.kind == "i":
            return np.array([operator.index(x) for x in _raw(ix).flat], dtype=int).reshape(ix.shape)
    if isinstance(ix, SymBool):
        return bool(ix)
    if isinstance(ix, slice):
        f = lambda v: operator.index(v) if isinstance(v, (SymInt,)) else v
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    if isinstance(ix, list) and any(issym(i) for i in ix):
        return [bool(i) if isinstance(i, SymBool) else operator.index(i) for i in ix]
    return ix


def _symidx(ix):
    if isinstance(ix, SymInt):
        return True
    if isinstance(ix, tuple):
        return any(isinstance(i, SymInt) for i in ix)
    return False


def _sym_getitem(a, ix):
    """Select with a symbolic integer index: merge all in-range alternatives."""
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(i is Ellipsis or i is None for i in ix):
        raise EngineError("symbolic index with ellipsis")
    pos = [p for p, i in enumerate(ix) if isinstance(i, SymInt)][0]
    i = ix[pos]
    n = a.shape[pos]
    if bool(sym.SymBool(sym.z3.And(i.z >= -n, i.z < n)) if not _inrange(i, n) else True) is False:
        raise IndexError("index out of bounds")
    neg = bool(i < 0)
    lo = -n if neg else 0
    cands = []
    for v in range(lo, lo + n):
        cands.append(v)
    # merge from last to first
    vals = [np_get(a, ix[:pos] + (v,) + ix[pos + 1:]) for v in cands]
    if isinstance(vals[0], np.ndarray):
        shape = vals[0].shape
        w = np.empty(shape, dtype=object)
        for j in np.ndindex(*shape):
            w[j] = _sel(i, cands, [_raw(v)[j] for v in vals])
        return SArr(w, a.kdt)
    return _sel(i, cands, vals)


def _inrange(i, n):
    return False


def np_get(a, ix):
    r = a[ix if len(ix) > 1 else ix[0]]
    return r


def _sel(i, cands, vals):
    if all((not issym(v)) and v == vals[0] for v in vals):
        return vals[0]
    if any(sym._special(v) for v in vals):
        return vals[cands.index(i.__index__())]
    if len(vals) > 3 and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals):
        return _sel_const(i, cands, vals)
    r = vals[-1]
    for c, v in zip(reversed(cands[:-1]), reversed(vals[:-1])):
        r = sym.ite(i == c, v, r)
    return r


def _sel_const(i, cands, vals):
    """Table of numbers: exact arithmetic progressions become one linear term each."""
    fr = [Fraction(v) for v in vals]
    segs = []
    k, n = 0, len(vals)
    while k < n:
        e = k + 1
        if e < n:
            d = fr[e] - fr[k]
            while e + 1 < n and fr[e + 1] - fr[e] == d:
                e += 1
            if e - k == 1:
                e, d = k, 0
        else:
            e, d = k, 0
        segs.append((k, e, d))
        k = e + 1
    isint = all(isinstance(v, int) for v in vals)
    r = None
    for k, e, d in reversed(segs):
        if d == 0:
            t = vals[k]
        else:
            z = sym.zreal(i) * sym.zreal(d) + sym.zreal(fr[k] - d * cands[k])
            t = sym.SymReal(z)
            if isint and d.denominator == 1:
                t = i * int(d) + int(fr[k] - d * cands[k])
        r = t if r is None else sym.ite(i <= cands[e], t, r)
    return r


def _sym_setitem(a, ix, v):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = tuple(i.__index__() if isinstance(i, SymInt) else i for i in ix)
    np.ndarray.__setitem__(a, ix if len(ix) > 1 else ix[0], v)


def _cdt(dt):
    return dt


def _guess_dt(vals):
    k = "b"
    for v in vals:
        if isinstance(v, (SymBool, bool, np.bool_)):
            continue
        if isinstance(v, (SymInt,)) or (isinstance(v, numbers.Integral) and not isinstance(v, SymReal)):
            if k == "b":
                k = "i"
        elif isinstance(v, (SymReal, float, np.floating)):
            k = "d"
        else:
            return None
    return _KIND_DT[k]


def _nested(x):
    if isinstance(x, MView):
        return x.a
    if isinstance(x, (list, tuple)):
        return [_nested(i) for i in x]
    return x


def _nested_shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, list):
        if not x:
            return (0,)
        s = _nested_shape(x[0])
        for y in x[1:]:
            if _nested_shape(y) != s:
                raise ValueError("inhomogeneous shape")
        return (len(x),) + s
    return ()


def _fill(a, ix, x):
    if isinstance(x, np.ndarray):
        r = _raw(x)
        for j in np.ndindex(*x.shape):
            a[ix + j] = r[j]
    elif isinstance(x, list):
        for j, y in enumerate(x):
            _fill(a, ix + (j,), y)
    else:
        a[ix] = x


def _has_sym(x):
    if issym(x):
        return True
    if isinstance(x, (SArr,)):
        return True
    if isinstance(x, MView):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _anysym(x)
    return _symframe(x)


def _symframe(x):
    if type(x).__module__.startswith("pandas") and type(x).__name__ in ("DataFrame", "Series"):
        from . import pdshim
        return pdshim.symframe(x)
    return False


def _to_sarr(x, dtype=None):
    """Convert anything array-like numeric to SArr; returns None if not numeric."""
    if isinstance(x, MView):
        x = x.a
    if isinstance(x, SArr):
        return x if dtype is None or np.dtype(dtype) == x.kdt else x.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype != object:
        if x.dtype.kind not in "fiub":
            return None
        s = SArr(x.astype(object), x.dtype)
        return s if dtype is None else s.astype(dtype)
    if isinstance(x, np.ndarray):
        vals = list(x.flat)
        dt = _guess_dt(vals)
        if dt is None:
            return None
        s = SArr(x, dt)
        return s if dtype is None else s.astype(dtype)
    if hasattr(x, "__array__") and not isinstance(x, (list, tuple)) and not issym(x) \
            and not isinstance(x, np.generic):
        return _to_sarr(np.asarray(x), dtype)
    if isinstance(x, types.GeneratorType) or isinstance(x, (range, map)):
        x = list(x)
    y = _nested(x)
    if isinstance(y, np.ndarray):
        return _to_sarr(y, dtype)
    shape = _nested_shape(y)
    a = np.empty(shape, dtype=object)
    _fill(a, (), y)
    vals = list(a.flat)
    dt = _guess_dt(vals) if vals else _KIND_DT["d"]
    if dt is None:
        return None
    s = SArr(a, dt)
    return s if dtype is None else s.astype(dtype)


def materialise(x):
    """SArr/MView -> plain numpy array when fully concrete (else EngineError)."""
    if isinstance(x, MView):
        x = x.a
    if isinstance(x, SArr):
        if _anysym(x):
            raise EngineError("symbolic array passed to native code")
        return np.array(_raw(x).tolist(), dtype=x.kdt).reshape(x.shape)
    if isinstance(x, (list, tuple)) and any(isinstance(i, (SArr, MView, list, tuple)) for i in x):
        return type(x)(materialise(i) for i in x) if type(x) in (list, tuple) else x
    if isinstance(x, dict):
        return {k: materialise(v) for k, v in x.items()}
    return x


def _concrete(x):
    if isinstance(x, MView):
        x = x.a
    if isinstance(x, SArr):
        return not _anysym(x)
    if issym(x):
        return False
    if isinstance(x, (list, tuple)):
        return all(_concrete(i) for i in x)
    if isinstance(x, dict):
        return all(_concrete(i) for i in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return not _anysym(x)
    return not _symframe(x)


def wrap(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SArr) and r.dtype.kind in "fiub" and SYMBOLIC[0]:
        return SArr(r.astype(object), r.dtype)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(i) for i in r)
    return r


# ---- reductions over symbolic elements

def _s_sum(v):
    r = 0
    for x in v:
        r = r + x
    return r


def _pymean(v):
    if not v:
        return math.nan
    return _s_sum(v) / len(v)


def _isnan_el(x):
    return (not issym(x)) and x != x


def _s_min(v):
    r = v[0]
    for x in v[1:]:
        r = x if _isnan_el(x) else (r if _isnan_el(r) else sym.smin2(r, x))
    return r


def _s_max(v):
    r = v[0]
    for x in v[1:]:
        r = x if _isnan_el(x) else (r if _isnan_el(r) else sym.smax2(r, x))
    return r


def _s_prod(v):
    r = 1
    for x in v:
        r = r * x
    return r


def _s_any(v):
    zs = []
    for x in v:
        b = _k_b(x)
        if b is True:
            return True
        if b is not False:
            zs.append(b.z)
    return sym.mkbool(sym.z3.Or(*zs)) if zs else False


def _s_all(v):
    zs = []
    for x in v:
        b = _k_b(x)
        if b is False:
            return False
        if b is not True:
            zs.append(b.z)
    return sym.mkbool(sym.z3.And(*zs)) if zs else True


def sorted_net(v):
    """Sorting network with if-then-else."""
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(0, n - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = sym.smin2(a, b), sym.smax2(a, b)
    return v


def _s_median(v):
    if any(_isnan_el(x) for x in v):
        return math.nan
    if not v:
        return math.nan
    s = sorted_net(v)
    n = len(s)
    return s[n // 2] + 0.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _s_percentile(v, q):
    if any(_isnan_el(x) for x in v):
        return math.nan
    s = sorted_net(v)
    n = len(s)
    if issym(q):
        raise EngineError("symbolic percentile rank")
    from fractions import Fraction
    pos = Fraction(repr(float(q))) / 100 * (n - 1)
    lo = int(pos)
    if lo >= n - 1:
        return s[n - 1] + 0.0
    fr = float(pos - lo)
    return s[lo] + (s[lo + 1] - s[lo]) * fr


def _s_var(v, ddof=0):
    if any(_isnan_el(x) for x in v):
        return math.nan
    m = _pymean(v)
    d = _s_sum([(x - m) * (x - m) for x in v])
    n = len(v) - ddof
    return d / n if n else math.nan


def _s_std(v, ddof=0):
    x = _s_var(v, ddof)
    return sym.sqrt(x)


_RED = {"sum": _s_sum, "mean": _pymean, "min": _s_min, "max": _s_max, "prod": _s_prod,
        "any": _s_any, "all": _s_all, "median": _s_median, "std": _s_std, "var": _s_var}


def _along(a, axis, f, keepdims=False, outk=None):
    """Apply f(list)->scalar along axis/axes."""
    a = _to_sarr(a)
    raw = _raw(a)
    if axis is None:
        r = f(list(raw.flat))
        if keepdims:
            w = np.empty((1,) * raw.ndim, dtype=object)
            w[...] = r
            return SArr(w, outk or _KIND_DT["d"])
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(operator.index(x) % raw.ndim if -raw.ndim <= x < raw.ndim else _raise(
        np.exceptions.AxisError(x, raw.ndim)) for x in axes)
    rest = [i for i in range(raw.ndim) if i not in axes]
    t = np.transpose(raw, rest + list(axes))
    shape = tuple(raw.shape[i] for i in rest)
    w = np.empty(shape, dtype=object)
    for j in np.ndindex(*shape):
        w[j] = f(list(np.asarray(t[j], dtype=object).flat))
    if not shape:
        return w.item()
    if keepdims:
        w = w.reshape(tuple(1 if i in axes else raw.shape[i] for i in range(raw.ndim)))
    return SArr(w, outk or _KIND_DT["d"])


def _reduce(name, a, axis=None, keepdims=False, **kw):
    a = _to_sarr(a)
    if not _anysym(a):
        f = {"min": np.min, "max": np.max}.get(name) or getattr(np, name)
        return wrap(f(materialise(a), axis=axis, keepdims=keepdims, **kw))
    f = _RED[name]
    k = a.kind
    if name in ("any", "all"):
        outk = _KIND_DT["b"]
    elif name in ("min", "max"):
        outk = a.kdt
    elif name in ("sum", "prod"):
        outk = _KIND_DT["d"] if k == "d" else _KIND_DT["i"]
    else:
        outk = _KIND_DT["d"]
    g = (lambda v: f(v, **kw)) if kw else f
    if k == "b" and name in ("sum", "mean"):
        h = g
        g = lambda v: h([_k_i(x) for x in v])
    return _along(a, axis, g, keepdims, outk)


def np_cumsum(a, axis=None):
    a = _to_sarr(a)
    if axis is None:
        out, r = [], 0
        for x in _raw(a).flat:
            r = r + x
            out.append(r)
        return SArr(np.array(out + [None], dtype=object)[:-1], a.kdt)
    w = np.empty(a.shape, dtype=object)
    raw = np.moveaxis(_raw(a), axis, 0)
    wm = np.moveaxis(w, axis, 0)
    r = None
    for i in range(raw.shape[0]):
        r = raw[i] if r is None else r + raw[i]
        wm[i] = r
    return SArr(w, a.kdt)


def np_argmax(a, axis=None):
    a = _to_sarr(a)
    def f(v):
        best, bi = v[0], 0
        for i, x in enumerate(v[1:], 1):
            c = x > best
            best, bi = sym.ite(c, x, best), sym.ite(c, i, bi)
        return bi
    return _along(a, axis, f, outk=_KIND_DT["i"])


def np_sort(a, axis=-1, **kw):
    a = _to_sarr(a)
    if not _anysym(a):
        return wrap(np.sort(materialise(a), axis=axis))
    w = _raw(a).copy()
    m = np.moveaxis(w, axis, -1)
    for j in np.ndindex(*m.shape[:-1]):
        s = sorted_net(list(m[j]))
        for i, x in enumerate(s):
            m[j + (i,)] = x
    return SArr(w, a.kdt)


def np_round(a, decimals=0):
    raise EngineError("round of symbolic array")


def np_dot(a, b):
    a, b = _to_sarr(a), _to_sarr(b)
    ra, rb = _raw(a), _raw(b)
    dt = _KIND_DT["d"] if "d" in (a.kind, b.kind) else _KIND_DT["i"]
    if ra.ndim == 1 and rb.ndim == 1:
        if ra.shape != rb.shape:
            raise ValueError("shapes not aligned")
        return _s_sum([x * y for x, y in zip(ra, rb)])
    if ra.ndim == 0 or rb.ndim == 0:
        return a * b
    if ra.ndim == 2 and rb.ndim == 1:
        return SArr(np.array([np_dot(SArr(r, dt), b) for r in ra] + [None], dtype=object)[:-1], dt)
    if ra.ndim == 2 and rb.ndim == 2:
        w = np.empty((ra.shape[0], rb.shape[1]), dtype=object)
        for i in range(ra.shape[0]):
            for j in range(rb.shape[1]):
                w[i, j] = _s_sum([x * y for x, y in zip(ra[i], rb[:, j])])
        return SArr(w, dt)
    if ra.ndim == 1 and rb.ndim == 2:
        return SArr(np.array([_s_sum([x * y for x, y in zip(ra, rb[:, j])]) for j in range(rb.shape[1])]
                             + [None], dtype=object)[:-1], dt)
    raise EngineError("dot shapes")


# ---- elementwise functions

def _ieee_div(a, b):
    if issym(a) or issym(b):
        if (issym(b) and bool(b == 0)) or (not issym(b) and b == 0):
            if issym(a) and bool(a == 0):
                return math.nan
            return math.inf if bool(a > 0) else -math.inf
        return a / b
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def _el_isnan(x):
    return False if issym(x) else bool(x != x)


def _el_isinf(x):
    return False if issym(x) else x in (math.inf, -math.inf)


def _el_isfinite(x):
    return True if issym(x) else (x == x and x not in (math.inf, -math.inf))


def _el_min(a, b):
    if _isnan_el(a) or _isnan_el(b):
        return math.nan
    return sym.smin2(a, b)


def _el_max(a, b):
    if _isnan_el(a) or _isnan_el(b):
        return math.nan
    return sym.smax2(a, b)


def _uf1(name, f):
    def g(x):
        if issym(x):
            return sym.ctx().uf(name, x)
        try:
            return f(x)
        except (OverflowError,):
            return math.inf
    return g


def _el_pow(a, b):
    if issym(a) or issym(b):
        return a ** b
    with np.errstate(all="ignore"):
        return np.float64(a) ** b if (isinstance(a, float) or isinstance(b, float)) else a ** b


def _el_sqrt(x):
    if issym(x):
        if bool(x < 0):
            return math.nan
        return sym.sqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan


_EL = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": _ieee_div, "true_divide": _ieee_div, "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b, "power": _el_pow,
    "float_power": _el_pow,
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": abs, "fabs": abs,
    "minimum": _el_min, "maximum": _el_max, "fmin": sym.smin2, "fmax": sym.smax2,
    "isnan": _el_isnan, "isinf": _el_isinf, "isfinite": _el_isfinite,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: _s_all([a, b]), "logical_or": lambda a, b: _s_any([a, b]),
    "logical_not": lambda a: _not(a), "invert": lambda a: _not(a) if isinstance(a, (bool, SymBool)) else ~a,
    "bitwise_and": lambda a, b: _s_all([a, b]) if isinstance(a, (bool, SymBool)) else a & b,
    "bitwise_or": lambda a, b: _s_any([a, b]) if isinstance(a, (bool, SymBool)) else a | b,
    "sqrt": _el_sqrt, "square": lambda a: a * a,
    "exp": _uf1("exp", math.exp), "log": _uf1("log", math.log), "cos": _uf1("cos", math.cos),
    "sin": _uf1("sin", math.sin), "log10": _uf1("log10", math.log10), "tanh": _uf1("tanh", math.tanh),
    "floor": lambda a: _k_d(a._floor()) if issym(a) else math.floor(a),
    "ceil": lambda a: _k_d(-((-a)._floor())) if issym(a) else math.ceil(a),
    "rint": lambda a: _k_d(round(a)),
    "sign": lambda a: sym.ite(a > 0, 1.0, sym.ite(a < 0, -1.0, 0.0)) if issym(a) else float(np.sign(a)),
    "reciprocal": lambda a: _ieee_div(1.0, a),
    "conjugate": lambda a: a,
}
_BOOL_OUT = {"isnan", "isinf", "isfinite", "less", "less_equal", "greater", "greater_equal", "equal",
             "not_equal", "logical_and", "logical_or", "logical_not"}


def _not(a):
    b = _k_b(a)
    return (not b) if b in (True, False) and isinstance(b, bool) else ~b


def _elementwise(name, *args):
    f = _EL[name]
    arrs = [_to_sarr(a) if not issym(a) and not np.isscalar(a) else a for a in args]
    isarr = any(isinstance(a, np.ndarray) for a in arrs)
    if not isarr:
        return f(*args)
    raws = []
    for a in arrs:
        if isinstance(a, np.ndarray):
            raws.append(_raw(a))
        else:
            c = np.empty((), dtype=object)
            c[()] = a
            raws.append(c)
    bs = np.broadcast_arrays(*raws)
    shape = bs[0].shape
    w = np.empty(shape, dtype=object)
    for j in np.ndindex(*shape):
        w[j] = f(*[b[j] for b in bs])
    kinds = []
    for a, o in zip(arrs, args):
        if isinstance(a, SArr):
            kinds.append(a.kind)
        else:
            kinds.append("b" if isinstance(a, (bool, SymBool)) else "i" if sym._isint(a) else "d")
    if name in _BOOL_OUT:
        dt = _KIND_DT["b"]
    elif name in ("divide", "true_divide", "sqrt", "exp", "log", "reciprocal", "float_power"):
        dt = _KIND_DT["d"]
    elif "d" in kinds:
        dt = _KIND_DT["d"]
    elif "i" in kinds:
        dt = _KIND_DT["i"]
    else:
        dt = _KIND_DT["b"] if name in ("invert", "bitwise_and", "bitwise_or", "minimum", "maximum") else _KIND_DT["i"]
    return SArr(w, dt)


def _ufunc(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    if where is not True:
        raise EngineError("ufunc where=")
    kw.pop("casting", None)
    kw.pop("subok", None)
    if all(_concrete(i) for i in inputs):
        r = getattr(ufunc, method)(*[materialise(i) if isinstance(i, (SArr, MView)) else
                                     (_densify(i)) for i in inputs], **kw)
        r = wrap(r)
    elif method == "__call__":
        if ufunc.__name__ == "matmul":
            r = np_dot(*inputs)
        elif ufunc.__name__ == "clip":
            r = f_clip(*inputs)
        elif ufunc.__name__ in _EL:
            r = _elementwise(ufunc.__name__, *inputs)
        else:
            raise EngineError("ufunc %s" % ufunc.__name__)
    elif method == "reduce":
        name = {"add": "sum", "multiply": "prod", "minimum": "min", "maximum": "max",
                "logical_and": "all", "logical_or": "any"}.get(ufunc.__name__)
        if name is None:
            raise EngineError("ufunc reduce %s" % ufunc.__name__)
        r = _reduce(name, inputs[0], kw.get("axis", 0), kw.get("keepdims", False))
    elif method == "accumulate" and ufunc.__name__ == "add":
        r = np_cumsum(inputs[0], kw.get("axis", 0))
    elif method == "accumulate" and ufunc.__name__ in ("maximum", "minimum"):
        f = _EL[ufunc.__name__]
        axis = kw.get("axis", 0)
        a = _to_sarr(inputs[0])
        w = np.moveaxis(_raw(a).copy(), axis, 0)
        for i in range(1, w.shape[0]):
            for j in np.ndindex(*w.shape[1:]):
                w[(i,) + j] = f(w[(i - 1,) + j], w[(i,) + j])
        r = SArr(np.moveaxis(w, 0, axis), a.kdt)
    else:
        raise EngineError("ufunc method %s.%s" % (ufunc.__name__, method))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r


def _densify(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        s = _to_sarr(x)
        return materialise(s) if s is not None else x
    return x


def _deep(x, f):
    if isinstance(x, (SArr, MView)):
        return f(x)
    if type(x) in (list, tuple):
        return type(x)(_deep(i, f) for i in x)
    return x


_FUNCS = {}


def _fn(*names):
    def d(f):
        for n in names:
            _FUNCS[n] = f
        return f
    return d


@_fn("sum")
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _out(_reduce("sum", a, axis, keepdims), out)


def _out(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


@_fn("mean")
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _out(_reduce("mean", a, axis, keepdims), out)


@_fn("min", "amin")
def f_min(a, axis=None, out=None, keepdims=False, **kw):
    return _out(_reduce("min", a, axis, keepdims), out)


@_fn("max", "amax")
def f_max(a, axis=None, out=None, keepdims=False, **kw):
    return _out(_reduce("max", a, axis, keepdims), out)


@_fn("prod")
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _out(_reduce("prod", a, axis, keepdims), out)


@_fn("any")
def f_any(a, axis=None, out=None, keepdims=False, **kw):
    return _out(_reduce("any", a, axis, keepdims), out)


@_fn("all")
def f_all(a, axis=None, out=None, keepdims=False, **kw):
    return _out(_reduce("all", a, axis, keepdims), out)


@_fn("median")
def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _out(_reduce("median", a, axis, keepdims), out)


@_fn("std")
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return _reduce("std", a, axis, keepdims, ddof=ddof)


@_fn("var")
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return _reduce("var", a, axis, keepdims, ddof=ddof)


def _nan(name):
    def f(a, axis=None, **kw):
        g = _RED[name]
        def h(v):
            w = [x for x in v if not _isnan_el(x)]
            if not w:
                return {"sum": 0.0, "prod": 1.0}.get(name, math.nan)
            return g(w)
        return _along(a, axis, h, kw.get("keepdims", False))
    return f


for _n in ("sum", "mean", "min", "max", "prod", "median", "std", "var"):
    _FUNCS["nan" + _n] = _nan(_n)


def _pct(scale, dropnan):
    def f(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
        if method != "linear":
            raise EngineError("percentile method")
        qs = q.a if isinstance(q, MView) else q
        scalar = np.ndim(qs) == 0
        ql = [qs] if scalar else list(_raw(_to_sarr(qs)).flat)
        if any(issym(x) for x in ql):
            raise EngineError("symbolic percentile rank")
        res = []
        for x in ql:
            def g(v, x=x):
                w = [y for y in v if not _isnan_el(y)] if dropnan else v
                return _s_percentile(w, x * scale) if w else math.nan
            res.append(_along(a, axis, g, keepdims))
        if scalar:
            return _out(res[0], out)
        return _out(_to_sarr(res), out)
    return f


_FUNCS["percentile"] = _pct(1, False)
_FUNCS["quantile"] = _pct(100, False)
_FUNCS["nanpercentile"] = _pct(1, True)
_FUNCS["nanquantile"] = _pct(100, True)


@_fn("sort")
def f_sort(a, axis=-1, **kw):
    return np_sort(a, axis)


@_fn("cumsum")
def f_cumsum(a, axis=None, **kw):
    return np_cumsum(a, axis)


@_fn("dot", "matmul", "inner")
def f_dot(a, b, out=None):
    return np_dot(a, b)


@_fn("argmax")
def f_argmax(a, axis=None, **kw):
    return np_argmax(a, axis)


@_fn("argmin")
def f_argmin(a, axis=None, **kw):
    return np_argmax(-_to_sarr(a), axis)


@_fn("argsort")
def f_argsort(a, axis=-1, **kw):
    """Forks on the order."""
    a = _to_sarr(a)
    if a.ndim != 1:
        raise EngineError("argsort of nd")
    v = list(_raw(a))
    idx = list(range(len(v)))
    import functools
    # insertion sort with forking comparisons (stable)
    out = []
    for i in idx:
        p = len(out)
        while p > 0 and bool(v[out[p - 1]] > v[i]):
            p -= 1
        out.insert(p, i)
    return SArr(np.array(out, dtype=object), _KIND_DT["i"])


@_fn("where")
def f_where(c, *ab):
    c = _to_sarr(c)
    if not ab:
        m = np.array([bool(x) for x in _raw(c).flat]).reshape(c.shape)
        return wrap(np.where(m))
    a, b = ab
    A = [x if issym(x) or np.isscalar(x) else _raw(_to_sarr(x)) for x in (c, a, b)]
    dts = []
    for x in (a, b):
        s = _to_sarr(x)
        dts.append(s.kind)
    A = [x if isinstance(x, np.ndarray) else _objscalar(x) for x in A]
    bs = np.broadcast_arrays(*A)
    w = np.empty(bs[0].shape, dtype=object)
    for j in np.ndindex(*w.shape):
        k = _k_b(bs[0][j])
        if isinstance(k, bool):
            w[j] = bs[1][j] if k else bs[2][j]
        else:
            w[j] = sym.ite(k, bs[1][j], bs[2][j])
    dt = _KIND_DT["d"] if "d" in dts else _KIND_DT["i"] if "i" in dts else _KIND_DT["b"]
    return SArr(w, dt)


def _objscalar(x):
    c = np.empty((), dtype=object)
    c[()] = x
    return c


@_fn("clip")
def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    r = a
    if a_min is not None:
        r = _elementwise("maximum", r, a_min)
    if a_max is not None:
        r = _elementwise("minimum", r, a_max)
    return _out(r, out)


@_fn("count_nonzero")
def f_count_nonzero(a, axis=None, keepdims=False):
    return _along(a, axis, lambda v: _s_sum([_k_i(_k_b(x)) for x in v]), keepdims, _KIND_DT["i"])


@_fn("isclose")
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = _elementwise("absolute", _elementwise("subtract", a, b))
    lim = _elementwise("add", _elementwise("multiply", _elementwise("absolute", b), rtol), atol)
    return _elementwise("less_equal", d, lim)


@_fn("allclose")
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(_reduce("all", r)) if isinstance(r, np.ndarray) else bool(r)


@_fn("array_equal")
def f_array_equal(a, b, **kw):
    a, b = _to_sarr(a), _to_sarr(b)
    if a.shape != b.shape:
        return False
    return bool(_reduce("all", _elementwise("equal", a, b)))


@_fn("diff")
def f_diff(a, n=1, axis=-1, **kw):
    a = _to_sarr(a)
    if n != 1:
        raise EngineError("diff n")
    m = np.moveaxis(_raw(a), axis, 0)
    w = np.empty((m.shape[0] - 1,) + m.shape[1:], dtype=object)
    for i in range(w.shape[0]):
        w[i] = m[i + 1] - m[i]
    return SArr(np.moveaxis(w, 0, axis), a.kdt)


@_fn("interp")
def f_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(_raw(_to_sarr(xp))), list(_raw(_to_sarr(fp)))
    def one(x):
        if bool(x < xp[0]):
            return fp[0] if left is None else left
        if bool(x > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(x < xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (x - xp[i])
        return fp[-1]
    if issym(x) or np.isscalar(x):
        return one(x)
    a = _to_sarr(x)
    w = np.empty(a.shape, dtype=object)
    for j in np.ndindex(*a.shape):
        w[j] = one(_raw(a)[j])
    return SArr(w, _KIND_DT["d"])


@_fn("round", "around")
def f_round(a, decimals=0, out=None):
    if decimals != 0:
        raise EngineError("rounding to decimals")
    return _out(_elementwise("rint", a), out)


def _inf_sign(value):
    def f(x, out=None):
        if issym(x):
            return False
        if np.isscalar(x):
            return x == value
        a = _to_sarr(x)
        return np.array([not issym(v) and v == value for v in _raw(a).ravel()], dtype=bool).reshape(a.shape)
    return f


_fn("isneginf")(_inf_sign(-math.inf))
_fn("isposinf")(_inf_sign(math.inf))


@_fn("nan_to_num")
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = _to_sarr(x)
    w = np.empty(a.shape, dtype=object)
    for j in np.ndindex(*a.shape):
        v = _raw(a)[j]
        w[j] = nan if _isnan_el(v) else v
    return SArr(w, a.kdt)


@_fn("searchsorted")
def f_searchsorted(a, v, side="left", sorter=None):
    a = list(_raw(_to_sarr(a)))
    def one(x):
        r = 0
        for y in a:
            r = r + sym.ite((y < x) if side == "left" else (y <= x), 1, 0)
        return r
    if issym(v) or np.isscalar(v):
        return one(v)
    s = _to_sarr(v)
    w = np.empty(s.shape, dtype=object)
    for j in np.ndindex(*s.shape):
        w[j] = one(_raw(s)[j])
    return SArr(w, _KIND_DT["i"])


@_fn("ptp")
def f_ptp(a, axis=None, **kw):
    return _reduce("max", a, axis) - _reduce("min", a, axis)


@_fn("average")
def f_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return _reduce("mean", a, axis)
    w = _to_sarr(weights)
    a = _to_sarr(a)
    if a.ndim == 1:
        return np_dot(a, w) / _reduce("sum", w)
    raise EngineError("average")


_STRUCT = {"concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "tile", "repeat",
           "reshape", "transpose", "moveaxis", "swapaxes", "squeeze", "expand_dims", "atleast_1d",
           "atleast_2d", "broadcast_to", "ravel", "copy", "roll", "flip", "split", "array_split",
           "take", "delete", "insert", "append", "copyto", "rollaxis", "flipud", "fliplr", "diagonal",
           "rot90", "resize", "put", "ndim", "shape", "size", "broadcast_arrays"}


def _arrfunc(func, args, kwargs):
    name = func.__name__
    if _concrete(args) and _concrete(kwargs) and name not in ("copyto", "put"):
        r = func(*_deep(args, materialise), **{k: _deep(v, materialise) for k, v in kwargs.items()})
        if "out" in kwargs and kwargs["out"] is not None:
            kwargs["out"][...] = r
            return kwargs["out"]
        return wrap(r)
    if name in _FUNCS:
        return _FUNCS[name](*args, **kwargs)
    if name in _STRUCT:
        # structural: run on object arrays
        kinds = []
        def conv(x):
            s = x.a if isinstance(x, MView) else x
            s = _to_sarr(s)
            kinds.append(s.kdt)
            return _raw(s)
        a2 = _deep(args, conv)
        k2 = {k: _deep(v, conv) for k, v in kwargs.items()}
        r = func(*a2, **k2)
        dt = np.result_type(*kinds) if kinds else _KIND_DT["d"]
        def rw(x):
            return SArr(x, dt) if isinstance(x, np.ndarray) else (type(x)(rw(i) for i in x) if type(x) in (list, tuple) else x)
        return rw(r)
    raise EngineError("numpy function %s on symbolic data" % name)


# ------------------------------------------------------------------------------ memoryviews

class MView:
    """Typed memoryview slice."""
    __slots__ = ("a", "kind", "nd", "__weakref__")

    def __init__(self, a, kind):
        self.a, self.kind, self.nd = a, kind, a.ndim

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def nbytes(self):
        return self.a.size * _SIZE.get(self.kind, 8)

    @property
    def itemsize(self):
        return _SIZE.get(self.kind, 8)

    @property
    def strides(self):
        return self.a.strides

    @property
    def base(self):
        return self.a

    @property
    def T(self):
        return MView(self.a.T, self.kind)

    def copy(self):
        return MView(self.a.copy(), self.kind)

    def __array__(self, dtype=None, copy=None):
        a = self.a
        if isinstance(a, SArr):
            return a
        return np.asarray(a, dtype=dtype) if not copy else np.array(a, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [i.a if isinstance(i, MView) else i for i in inputs]
        if method == "__call__" and ufunc.__name__ in (
                "add", "subtract", "multiply", "divide", "true_divide") and False:
            raise TypeError
        return getattr(ufunc, method)(*ins, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = lambda x: x.a
        def deep(x):
            if isinstance(x, MView):
                return x.a
            if type(x) in (list, tuple):
                return type(x)(deep(i) for i in x)
            return x
        return func(*deep(args), **{k: deep(v) for k, v in kwargs.items()})

    def __len__(self):
        return self.a.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _el(self, x):
        if self.kind == "d" and not issym(x):
            return float(x)
        if self.kind in ("i", "b") and not issym(x):
            return int(x)
        return x

    def __getitem__(self, ix):
        r = self.a[ix]
        if isinstance(r, np.ndarray) and (r.ndim or ix is Ellipsis):
            return MView(r, self.kind)
        return self._el(r)

    def __setitem__(self, ix, v):
        a = self.a
        if isinstance(v, MView):
            v = v.a
        if isinstance(v, np.ndarray) and v.ndim:
            tgt = a[ix]
            if not isinstance(tgt, np.ndarray):
                raise TypeError("only length-1 arrays can be converted")
            if v.dtype.kind != self._npkind() and not (isinstance(v, SArr) and v.kind == self.kind):
                raise ValueError("Buffer dtype mismatch")
            vs, ts = v.shape, tgt.shape
            if len(vs) > len(ts) or any(x not in (1, y) for x, y in zip(vs[::-1], ts[::-1])):
                raise ValueError("got differing extents")
        elif isinstance(v, (list, tuple)):
            raise TypeError("a bytes-like object is required, not 'list'")
        else:
            v = (_k_d if self.kind == "d" else _k_i if self.kind in ("i", "b") else (lambda x: x))(v)
        if not isinstance(a, SArr) and (issym(v) or (isinstance(v, SArr) and _anysym(v))):
            raise EngineError("symbolic value stored in a native array")
        if isinstance(v, SArr) and not isinstance(a, SArr):
            v = materialise(v)
        a[ix] = v

    def _npkind(self):
        return {"d": "f", "i": "i", "b": "b"}.get(self.kind, "O")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    # arithmetic is a compile-time error in Cython
    def _na(self, *a):
        raise TypeError("unsupported operand type for memoryview")
    __add__ = __sub__ = __mul__ = __truediv__ = __neg__ = _na


def _k_mv(x, kind, nd):
    if x is None:
        return None
    if kind == "b":
        kind = "i"      # bint elements are C ints
    if isinstance(x, MView):
        if x.kind != kind:
            raise ValueError("Buffer dtype mismatch")
        if x.ndim != nd:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (nd, x.ndim))
        return x
    if isinstance(x, SArr):
        if x.kind != kind:
            raise ValueError("Buffer dtype mismatch, expected %s got %s" % (kind, x.kdt))
        if x.ndim != nd:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (nd, x.ndim))
        return MView(x, kind)
    if isinstance(x, CVArray):
        return _k_mv(x.mv, kind, nd)
    if isinstance(x, np.ndarray):
        k = _dtkind(x.dtype)
        if k != kind and not (kind == "i" and k == "b" and False):
            raise ValueError("Buffer dtype mismatch, expected %s got %s" % (kind, x.dtype))
        if x.dtype.kind == "f" and x.dtype.itemsize != 8:
            raise ValueError("Buffer dtype mismatch, expected 'double' but got 'float'")
        if x.ndim != nd:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (nd, x.ndim))
        if not x.flags.writeable:
            raise ValueError("buffer source array is read-only")
        if SYMBOLIC[0]:
            return MView(SArr(x.astype(object), x.dtype), kind)
        return MView(x, kind)
    import array
    if isinstance(x, array.array):
        return _k_mv(np.array(x), kind, nd)
    raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)


class CVArray:
    """cython.view.array"""

    def __init__(self, shape, itemsize, format, mode="c", allocate_buffer=True):
        kind = {"d": "d", "i": "i"}[format if isinstance(format, str) else format.decode()]
        if any(operator.index(s) <= 0 for s in shape):
            raise ValueError("Invalid shape in axis 0: %s." % (shape,))
        shape = tuple(operator.index(s) for s in shape)
        dt = np.dtype("float64") if kind == "d" else np.dtype("int32")
        a = np.zeros(shape, dtype=dt)
        if SYMBOLIC[0]:
            a = SArr(a.astype(object), dt)
        self.mv = MView(a, kind)
        self.shape = shape

    def __getitem__(self, i):
        return self.mv[i]

    def __setitem__(self, i, v):
        self.mv[i] = v

    def __len__(self):
        return len(self.mv)

    def __array__(self, dtype=None, copy=None):
        return self.mv.__array__()

    @property
    def memview(self):
        return self.mv

    def __getattr__(self, n):
        if n in ("mv", "__array_interface__", "__array_struct__"):
            raise AttributeError(n)
        return getattr(self.mv, n)


# ------------------------------------------------------------------------------ numpy shim

def _mk(shape, fillv, dtype):
    dt = np.dtype(dtype if dtype is not None else np.float64)
    if not SYMBOLIC[0] or dt.kind not in "fiub":
        return None
    if isinstance(shape, (SymInt,)):
        shape = shape.__index__()
    if isinstance(shape, (tuple, list)):
        shape = tuple(operator.index(s) for s in shape)
    a = np.empty(shape, dtype=object)
    a[...] = _coerce_el(_dtkind(dt), fillv)
    return SArr(a, dt)


class _Join:
    """numpy.r_ for values and one-dimensional arrays"""

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        flat, some = [], False
        for k in key:
            if isinstance(k, (str, slice)):
                return np.r_[key]
            if issym(k) or np.isscalar(k):
                flat.append(k)
                some = some or issym(k)
            else:
                a = _to_sarr(k)
                if a is None:
                    return np.r_[key]
                v = list(_raw(a).ravel())
                some = some or any(issym(x) for x in v)
                flat += v
        return _to_sarr(flat, np.float64) if some else np.r_[tuple(materialise(k) if isinstance(k, (SArr, MView)) else k for k in key)]


class NPShim(types.ModuleType):
    r_ = _Join()

    def __init__(self, real, name="numpy"):
        super().__init__(name)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        r = getattr(self._real, name)
        if isinstance(r, types.ModuleType):
            return r
        if callable(r) and not isinstance(r, type) and SYMBOLIC[0]:
            return _shimcall(name, r)
        return r

    # creation
    def zeros(self, shape, dtype=None, order="C", **kw):
        r = _mk(shape, 0, dtype)
        return r if r is not None else self._real.zeros(_ishape(shape), dtype=dtype or float, **kw)

    def empty(self, shape, dtype=None, order="C", **kw):
        r = _mk(shape, 0, dtype)
        return r if r is not None else self._real.empty(_ishape(shape), dtype=dtype or float, **kw)

    def ones(self, shape, dtype=None, order="C", **kw):
        r = _mk(shape, 1, dtype)
        return r if r is not None else self._real.ones(_ishape(shape), dtype=dtype or float, **kw)

    def full(self, shape, fill_value, dtype=None, order="C", **kw):
        if SYMBOLIC[0]:
            if dtype is None:
                dtype = _guess_dt([fill_value])
            if dtype is not None:
                r = _mk(shape, fill_value, dtype)
                if r is not None:
                    return r
        return self._real.full(_ishape(shape), fill_value, dtype=dtype, **kw)

    def zeros_like(self, a, dtype=None, **kw):
        return self._like(a, 0, dtype, self._real.zeros_like, kw)

    def ones_like(self, a, dtype=None, **kw):
        return self._like(a, 1, dtype, self._real.ones_like, kw)

    def empty_like(self, a, dtype=None, **kw):
        return self._like(a, 0, dtype, self._real.empty_like, kw)

    def full_like(self, a, v, dtype=None, **kw):
        if SYMBOLIC[0]:
            s = _to_sarr(a)
            if s is not None:
                return self.full(s.shape, v, dtype=dtype or s.kdt)
        return self._real.full_like(_unmv(a), v, dtype=dtype, **kw)

    def _like(self, a, v, dtype, real, kw):
        if SYMBOLIC[0]:
            s = _to_sarr(a)
            if s is not None:
                r = _mk(s.shape, v, dtype or s.kdt)
                return r if r is not None else real(self._real.empty(s.shape), dtype=dtype, **kw)
        return real(_unmv(a), dtype=dtype, **kw)

    def array(self, obj, dtype=None, copy=True, ndmin=0, **kw):
        if SYMBOLIC[0]:
            s = self._as(obj, dtype)
            if s is not None:
                s = SArr(_raw(s).copy(), s.kdt) if copy else s
                while s.ndim < ndmin:
                    s = SArr(_raw(s)[None], s.kdt)
                return s
        return self._real.array(_unmv(obj), dtype=dtype, copy=copy, ndmin=ndmin, **kw)

    def asarray(self, obj, dtype=None, **kw):
        if SYMBOLIC[0]:
            s = self._as(obj, dtype)
            if s is not None:
                return s
        return self._real.asarray(_unmv(obj), dtype=dtype, **kw)

    asanyarray = asarray
    ascontiguousarray = asarray

    def _as(self, obj, dtype):
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt.kind not in "fiub":
                return None
        if isinstance(obj, (MView, SArr)) or issym(obj):
            return _to_sarr(obj, dtype)
        if hasattr(obj, "iloc") or hasattr(obj, "columns"):
            obj = np.asarray(obj)
        if isinstance(obj, np.ndarray):
            if obj.dtype.kind in "fiub" or (obj.dtype == object and (_anysym(obj) or dtype is not None)):
                return _to_sarr(obj, dtype)
            return None
        if isinstance(obj, (list, tuple, float, int, bool, np.generic, range)):
            try:
                return _to_sarr(obj, dtype)
            except (ValueError, TypeError) as e:
                if isinstance(e, ValueError) and "inhomogeneous" in str(e):
                    raise
                if dtype is not None:
                    raise
                return None
        return None

    def arange(self, *args, **kw):
        args = [a.__index__() if isinstance(a, SymInt) else a for a in args]
        return wrap(self._real.arange(*args, **kw))

    def linspace(self, *args, **kw):
        if any(issym(a) for a in args[:2]):
            n = args[2] if len(args) > 2 else kw.get("num", 50)
            lo, hi = args[:2]
            return _to_sarr([lo + (hi - lo) * (i / (n - 1)) for i in range(n)])
        return wrap(self._real.linspace(*args, **kw))

    def eye(self, *args, **kw):
        return wrap(self._real.eye(*args, **kw))

    def frombuffer(self, *args, **kw):
        return wrap(self._real.frombuffer(*args, **kw))

    def fromiter(self, it, dtype, count=-1):
        if SYMBOLIC[0]:
            return _to_sarr(list(it), dtype)
        return self._real.fromiter(it, dtype, count)

    def isscalar(self, x):
        return True if issym(x) else self._real.isscalar(x)

    def ndim(self, x):
        return 0 if issym(x) else x.ndim if isinstance(x, MView) else self._real.ndim(x)

    def shape(self, x):
        return () if issym(x) else x.shape if isinstance(x, MView) else self._real.shape(x)

    def copy(self, x, **kw):
        return self.array(x)


def _ishape(s):
    if isinstance(s, tuple):
        return tuple(operator.index(i) for i in s)
    return s


def _unmv(x):
    if isinstance(x, MView):
        return x.a
    if isinstance(x, (list, tuple)) and any(isinstance(i, MView) for i in x):
        return type(x)(_unmv(i) for i in x)
    return x


def _shimcall(name, real):
    isuf = isinstance(real, np.ufunc)

    class _Call:
        __name__ = name

        def __call__(self, *args, **kw):
            if any(_has_sym(a) for a in args) or any(_has_sym(v) for v in kw.values()):
                if isuf:
                    return _ufunc(real, "__call__", [_unmv(a) for a in args], dict(kw))
                return _arrfunc(real, tuple(_unmv(a) for a in args), {k: _unmv(v) for k, v in kw.items()})
            r = real(*args, **kw)
            return wrap(r)

        def __getattr__(self, k):
            if k in ("reduce", "accumulate", "outer") and isuf:
                return lambda *a, **kw: _ufunc(real, k, [_unmv(x) for x in a], dict(kw))
            return getattr(real, k)

    return _Call()


np_shim = NPShim(np)


class PDShim(types.ModuleType):
    """pandas: hand native arrays to constructors when they are concrete."""

    def __init__(self, real):
        super().__init__("pandas")
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        r = getattr(self._real, name)
        if name in ("DataFrame", "Series"):
            return _pdctor(r)
        if name in ("period_range", "to_datetime", "Period", "Timestamp"):
            return _pdates(name, r)
        return r


_PDD = {}


def _pdates(name, real):
    """pandas date functions that also take symbolic dates"""
    from . import caldate
    if name in _PDD:
        return _PDD[name]
    if name == "period_range":
        def f(start=None, end=None, periods=None, freq=None, name=None):
            if isinstance(start, caldate.SymDate) or isinstance(end, caldate.SymDate):
                if periods is not None:
                    raise EngineError("period_range(periods=) with symbolic dates")
                return caldate.period_range(start, end, freq)
            return real(start, end, periods, freq, name)
    elif name == "to_datetime":
        def f(x, *a, **k):
            return x if isinstance(x, caldate.SymDate) else real(x, *a, **k)
    else:
        def make(*a, **k):
            if a and isinstance(a[0], str) and "<sym#" in a[0]:
                p = [sym.ctx().tokens[int(q[5:-1])] if q.startswith("<sym#") else int(q) for q in a[0].split("-")]
                if name != "Timestamp" or len(p) != 3:
                    raise EngineError("date text %r" % a[0])
                return caldate.from_ymd(*p)
            if a and isinstance(a[0], caldate.SymDate):
                return a[0] if name == "Timestamp" else caldate.SymPeriod(a[0], caldate.parse_freq(k.get("freq", "D")))
            y, m, d = [k.get(n, a[i] if len(a) > i else None) for i, n in enumerate(("year", "month", "day"))]
            if name == "Period" and a:
                y = m = d = None
            if any(issym(v) for v in (y, m, d)):
                r = caldate.from_ymd(y, m if m is not None else 1, d if d is not None else 1)
                return r if name == "Timestamp" else caldate.SymPeriod(r, caldate.parse_freq(k.get("freq", "D")))
            return real(*a, **k)

        class f(metaclass=_PdMeta):
            _k_real = real

            def __new__(cls, *a, **k):
                return make(*a, **k)
    _PDD[name] = f
    return f


def _obj(x):
    """array-likes -> native (concrete) or plain object arrays (symbolic) for pandas"""
    if isinstance(x, MView):
        x = x.a
    if isinstance(x, SArr):
        if not _anysym(x):
            return materialise(x)
        return np.array(_raw(x))
    if type(x) in (list, tuple):
        return type(x)(_obj(i) for i in x)
    if type(x) is dict:
        return {k: _obj(v) for k, v in x.items()}
    return x


class _PdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._k_real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._k_real)

    def __getattr__(cls, n):
        return getattr(cls._k_real, n)


_PD = {}


def _pdctor(real):
    if real not in _PD:
        def __new__(cls, *a, **kw):
            return real(*[_obj(x) for x in a], **{k: _obj(v) for k, v in kw.items()})
        _PD[real] = _PdMeta(real.__name__, (), {"__new__": __new__, "_k_real": real})
    return _PD[real]


# ------------------------------------------------------------------------------ builtins shim

def s_min(*args, **kw):
    if kw or (len(args) == 1 and isinstance(args[0], dict)):
        return _minmax_key(_b.min, args, kw)
    vals = list(args[0]) if len(args) == 1 else list(args)
    if not any(issym(v) for v in vals):
        return _b.min(vals)
    if any(sym._isint(v) for v in vals) or True:
        r = vals[0]
        for v in vals[1:]:
            r = sym.smin2(r, v)
        return r


def s_max(*args, **kw):
    if kw or (len(args) == 1 and isinstance(args[0], dict)):
        return _minmax_key(_b.max, args, kw)
    vals = list(args[0]) if len(args) == 1 else list(args)
    if not any(issym(v) for v in vals):
        return _b.max(vals)
    r = vals[0]
    for v in vals[1:]:
        r = sym.smax2(r, v)
    return r


def _minmax_key(f, args, kw):
    return f(*args, **kw)


def s_abs(x):
    return abs(x)


def s_range(*args):
    return _b.range(*[a.__index__() if isinstance(a, (SymInt, SymBool)) else a for a in args])


def s_any(it):
    # short-circuit semantics with forking
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def _k_float(x=0.0):
    if issym(x):
        return _k_d(x)
    if isinstance(x, (SArr, MView)):
        x = x.item() if isinstance(x, SArr) else x.a.item()
        return _k_d(x)
    return float(x)


def _k_int(x=0, *a):
    if isinstance(x, (SymReal, SymInt, SymBool)):
        return sym.trunc(x) if not isinstance(x, SymBool) else SymInt(sym.zint(x))
    return int(x, *a)


def _k_bool(x=False):
    if isinstance(x, (SymReal, SymInt)):
        return x != 0
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _k_isinstance(x, c):
    if isinstance(x, c):
        return True
    if issym(x):
        cs = c if isinstance(c, tuple) else (c,)
        base = float if isinstance(x, SymReal) else int if isinstance(x, SymInt) else bool
        for k in cs:
            if isinstance(k, type):
                if issubclass(base, k):
                    return True
                if isinstance(k, tuple) and _k_isinstance(x, k):
                    return True
    return False


def _merge(c, a, b):
    return sym.ite(c, a, b)


def _k_ret(test, a, b):
    c = test()
    if not isinstance(c, SymBool):
        return a() if c else b()
    try:
        x, y = a(), b()
        ok = sym.mergeable(x, y)
    except Exception:
        ok = False
    if ok:
        return sym.ite(c, x, y)
    return a() if c else b()


class _Poison:
    """A local whose value depends on an undecided branch in a way that cannot be merged."""

    def __getattr__(self, k):
        raise EngineError("use of an unmerged local")

    def _bad(self, *a):
        raise EngineError("use of an unmerged local")
    __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __add__ = __radd__ = __sub__ = __rsub__ = _bad
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __iter__ = __getitem__ = __setitem__ = __len__ = _bad
    __index__ = __float__ = __int__ = __neg__ = __call__ = __contains__ = _bad
    __hash__ = None


_k_unbound = _Poison()


def _k_gand(a, b):
    if a is True:
        return b
    return sym.mkbool(sym.z3.And(sym.zbool(a), sym.zbool(b)))


def _k_pmerge(c, new, old):
    if new is old:
        return new
    if isinstance(new, _Poison) or isinstance(old, _Poison):
        return _k_unbound
    if sym.mergeable(new, old):
        return sym.ite(c, new, old)
    if isinstance(new, (int, float, str, type(None))) or isinstance(old, (int, float, str, type(None))):
        return new if c else old
    return _k_unbound


def _k_pitem(g, o, k, v):
    old = o[k]
    if v is old:
        return
    if not isinstance(g, SymBool):
        if g:
            o[k] = v
    elif sym.mergeable(v, old):
        o[k] = sym.ite(g, v, old)
    elif g:
        o[k] = v


def _k_pattr(g, o, k, v):
    if not isinstance(g, SymBool):
        if g:
            setattr(o, k, v)
        return
    old = getattr(o, k)
    if v is old:
        return
    if sym.mergeable(v, old):
        setattr(o, k, sym.ite(g, v, old))
    elif g:
        setattr(o, k, v)


def _k_truth(c):
    """truth value of a test without forking"""
    if isinstance(c, (SymInt, SymReal)):
        return c != 0
    return c


def _k_symb(c):
    return isinstance(c, SymBool)


def _k_mg(a, b):
    return sym.mergeable(a, b)


def _k_bool_op(op, *thunks):
    """and/or over pure operands; merges symbolic operands without forking when possible."""
    vals = []
    n = len(thunks)
    i = 0
    acc = None
    for i, t in enumerate(thunks):
        if acc is not None:
            try:
                v = t()
            except Exception:
                # operand only defined when the others decided nothing: fork
                v = None
                if (op == "and" and bool(acc)) or (op == "or" and not bool(acc)):
                    v = t()  # re-raise in the right branch
                else:
                    return acc
        else:
            v = t()
        last = i == n - 1
        if isinstance(v, SymBool):
            acc = v if acc is None else sym.mkbool(
                (sym.z3.And if op == "and" else sym.z3.Or)(sym.zbool(acc), v.z))
            if not isinstance(acc, SymBool):
                if last or (op == "and") == (acc is False):
                    return acc
                acc = None
            continue
        if acc is None:
            tv = bool(v)
            if last or (op == "and" and not tv) or (op == "or" and tv):
                return v
            continue
        # acc symbolic, v concrete (or symbolic number)
        if isinstance(v, (bool, np.bool_)):
            tv = bool(v)
            if op == "and":
                if not tv:
                    return False
            else:
                if tv:
                    return True
            continue
        # general object: fork on acc
        if op == "and":
            if not bool(acc):
                return False
        else:
            if bool(acc):
                return True
        acc = None
        tv = bool(v)
        if last or (op == "and" and not tv) or (op == "or" and tv):
            return v
    return acc if acc is not None else v


def _k_not(x):
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, (SymReal, SymInt)):
        return x == 0
    return not x


# math module shim
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        r = getattr(math, n)
        if n == "sqrt":
            return lambda x: sym.sqrt(x) if issym(x) else math.sqrt(x)
        if n == "floor":
            return lambda x: x._floor() if issym(x) else math.floor(x)
        if n == "ceil":
            return lambda x: -((-x)._floor()) if issym(x) else math.ceil(x)
        if n in ("fabs",):
            return lambda x: abs(x) if issym(x) else math.fabs(x)
        if n == "isnan":
            return lambda x: False if issym(x) else math.isnan(x)
        if n == "isinf":
            return lambda x: False if issym(x) else math.isinf(x)
        if n == "isfinite":
            return lambda x: True if issym(x) else math.isfinite(x)
        if callable(r):
            def f(*a):
                if any(issym(x) for x in a):
                    if n == "pow":
                        return a[0] ** a[1]
                    return sym.ctx().uf(n, *a)
                return r(*a)
            return f
        return r


math_shim = MathShim()

# names a cimport from C libraries may bring in
CLIB = {
    "libc.math": {"cos": lambda x: math_shim.cos(x), "sin": lambda x: math_shim.sin(x),
                  "exp": lambda x: math_shim.exp(x), "log": lambda x: math_shim.log(x),
                  "sqrt": lambda x: _el_sqrt(x), "pow": lambda a, b: _el_pow(a, b),
                  "fabs": abs, "abs": abs, "fmin": lambda a, b: sym.smin2(a, b),
                  "fmax": lambda a, b: sym.smax2(a, b),
                  "isnan": lambda x: False if issym(x) else x != x,
                  "isinf": lambda x: False if issym(x) else math.isinf(x),
                  "isfinite": lambda x: True if issym(x) else math.isfinite(x),
                  "floor": lambda x: _k_d(math_shim.floor(x)), "ceil": lambda x: _k_d(math_shim.ceil(x)),
                  "M_PI": math.pi, "INFINITY": math.inf, "NAN": math.nan, "HUGE_VAL": math.inf,
                  "round": lambda x: EngineError},
    "libc.float": {"DBL_MAX": sys.float_info.max, "DBL_MIN": sys.float_info.min,
                   "DBL_EPSILON": sys.float_info.epsilon},
    "libc.limits": {"INT_MIN": -2**31, "INT_MAX": 2**31 - 1, "LONG_MAX": 2**63 - 1},
    "libc.stdlib": {"malloc": _k_malloc, "free": free, "calloc": _k_malloc, "abs": abs},
    "libc.setjmp": {"setjmp": lambda *a: 0, "longjmp": lambda *a: None,
                    "jmp_buf": type("jmp_buf", (_KStruct,), {})},
    "cython.view": {"array": CVArray},
    "cpython": {"array": __import__("array")},
}

RUNTIME = {k: v for k, v in list(globals().items()) if k.startswith("_k_") or k in (
    "_KBase", "_KStruct", "_KEnum", "_k_attr")}
RUNTIME.update({"_k_merge": _merge, "_k_ret": _k_ret})
SHIM_BUILTINS = {"min": s_min, "max": s_max, "range": s_range, "any": s_any, "all": s_all}


# array <op> symbolic number (symbolic numbers opt out of numpy's own dispatch)
def _arr_ops():
    def lift(v):
        a = np.empty((), dtype=object)
        a[()] = v
        return SArr(a, np.dtype("int64") if isinstance(v, SymInt) else np.dtype("bool") if isinstance(v, SymBool)
                    else np.dtype("float64"))

    def mk(uf, orig, refl):
        def op(self, o):
            if issym(o):
                return uf(lift(o), self) if refl else uf(self, lift(o))
            return orig(self, o)
        return op
    for nm, uf in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.true_divide),
                   ("floordiv", np.floor_divide), ("mod", np.remainder)):
        setattr(SArr, "__%s__" % nm, mk(uf, getattr(np.ndarray, "__%s__" % nm), False))
        setattr(SArr, "__r%s__" % nm, mk(uf, getattr(np.ndarray, "__r%s__" % nm), True))
    for nm, uf in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal),
                   ("eq", np.equal), ("ne", np.not_equal)):
        setattr(SArr, "__%s__" % nm, mk(uf, getattr(np.ndarray, "__%s__" % nm), False))
    SArr.__hash__ = None


_arr_ops()
