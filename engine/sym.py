"""Symbolic scalars over z3 and path exploration by re-execution.

Numbers of C type double / Python float are modelled as mathematical reals, integers as
mathematical integers.  Infinities and NaN stay concrete Python floats.
"""
import math
import os
import numbers
import time
from fractions import Fraction
import z3


class EngineError(BaseException):
    """The encoding cannot handle an operation (never a verdict)."""


class PathEnd(BaseException):
    """Path abandoned: infeasible, or violation already recorded."""


class Budget(BaseException):
    """Exploration budget exhausted."""


FORKLOG = {} if os.environ.get("VP_FORKS") else None
STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "forks": 0}

CTX = None  # current path context, or None in concrete mode


def ctx():
    if CTX is None:
        raise EngineError("symbolic value used outside a path")
    return CTX


def zreal(x):
    if isinstance(x, SymReal):
        return x.z
    if isinstance(x, SymInt):
        return z3.ToReal(x.z)
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise EngineError("inf/nan in a real term")
    if x == int(x) and abs(x) < 1e15:
        return z3.RealVal(int(x))
    f = Fraction(repr(x))
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator))


def zint(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, numbers.Integral)):
        return z3.IntVal(int(x))
    raise EngineError("not an int: %r" % (x,))


def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SymInt,)):
        return x.z != 0
    if isinstance(x, SymReal):
        return x.z != 0
    return z3.BoolVal(bool(x))


def issym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def _special(x):
    """concrete inf/nan float?"""
    return isinstance(x, (float,)) and (x != x or x in (math.inf, -math.inf))


def _num(x):
    """acceptable as a numeric operand"""
    if isinstance(x, (SymReal, SymInt, SymBool, bool, int, float)):
        return True
    return isinstance(x, numbers.Number) and not isinstance(x, complex)


def _isint(x):
    return isinstance(x, (SymInt, SymBool, bool, int)) or (isinstance(x, numbers.Integral))


def mkreal(z):
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        n, d = z.numerator_as_long(), z.denominator_as_long()
        f = Fraction(n, d)
        v = float(f)
        # keep exact: only collapse to float when it round-trips (decimal) exactly
        if Fraction(repr(v)) == f if not (math.isinf(v)) else False:
            return v
    return SymReal(z)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


class SymBase:
    __array_ufunc__ = None
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        # a number keeps its identity through text (see EnvBase.parse)
        if isinstance(self, SymBool) or CTX is None:
            return "<sym>"
        CTX.tokens.append(self)
        return "<sym#%d>" % (len(CTX.tokens) - 1)

    def __format__(self, spec):
        # whole numbers keep their identity through an f-string (see krt._pdates)
        if isinstance(self, SymInt) and CTX is not None and not spec:
            CTX.tokens.append(self)
            return "<sym#%d>" % (len(CTX.tokens) - 1)
        if isinstance(self, SymInt) and CTX is not None and spec[-1:] == "d":
            return format(self.__index__(), spec)
        return "<sym>"

    def __reduce__(self):
        raise EngineError("pickling a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(SymBase):
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(self.z)

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)) or hasattr(o, "dtype"):
            return mkbool(z3.And(self.z, zbool(o)))
        return SymInt(zint(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)) or hasattr(o, "dtype"):
            return mkbool(z3.Or(self.z, zbool(o)))
        return SymInt(zint(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)) or hasattr(o, "dtype"):
            return mkbool(z3.Xor(self.z, zbool(o)))
        return SymInt(zint(self)) ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.z == zbool(o))
        return SymInt(zint(self)) == o

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.z != zbool(o))
        return SymInt(zint(self)) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def _i(self):
        return SymInt(zint(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __truediv__(self, o): return self._i() / o
    def __rtruediv__(self, o): return o / self._i()
    def __floordiv__(self, o): return self._i() // o
    def __mod__(self, o): return self._i() % o
    def __neg__(self): return -self._i()
    def __pos__(self): return self._i()
    def __abs__(self): return self._i()
    def __pow__(self, o): return self._i() ** o
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o


class SymNum(SymBase):
    __slots__ = ()

    # ---- comparisons
    def _cmp(self, o, op, sp):
        if not _num(o):
            return NotImplemented
        if _special(o):
            return sp(o)
        if isinstance(self, SymInt) and _isint(o):
            return mkbool(op(self.z, zint(o)))
        return mkbool(op(zreal(self), zreal(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda o: o == math.inf)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda o: o == math.inf)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda o: o == -math.inf)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda o: o == -math.inf)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda o: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda o: True)

    def __bool__(self):
        return ctx().branch(self.z != 0)

    # ---- arithmetic
    def _ar(self, o, iop, rop, sp):
        if not _num(o):
            return NotImplemented
        if _special(o):
            return sp(o)
        if isinstance(self, SymInt) and _isint(o):
            return mkint(iop(self.z, zint(o)))
        return mkreal(rop(zreal(self), zreal(o)))

    def __add__(self, o):
        f = lambda a, b: a + b
        return self._ar(o, f, f, lambda o: o)

    __radd__ = __add__

    def __sub__(self, o):
        f = lambda a, b: a - b
        return self._ar(o, f, f, lambda o: -o)

    def __rsub__(self, o):
        f = lambda a, b: b - a
        return self._ar(o, f, f, lambda o: o)

    def _mulsp(self, o):
        if o != o:
            return o
        if bool(self == 0):
            return math.nan
        return o if bool(self > 0) else -o

    def __mul__(self, o):
        if _num(o) and not issym(o) and not _special(o) and o == 0:
            return 0 if (isinstance(self, SymInt) and _isint(o)) else 0.0
        f = lambda a, b: a * b
        return self._ar(o, f, f, self._mulsp)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        if _special(o):
            return math.nan if o != o else 0.0
        if (issym(o) and bool(o == 0)) or (not issym(o) and o == 0):
            raise ZeroDivisionError("float division")
        return mkreal(zreal(self) / zreal(o))

    def __rtruediv__(self, o):
        if not _num(o):
            return NotImplemented
        if bool(self == 0):
            raise ZeroDivisionError("float division")
        if _special(o):
            return self._mulsp(o)
        return mkreal(zreal(o) / zreal(self))

    def _floor(self):
        return mkint(z3.ToInt(zreal(self)))

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        if (issym(o) and bool(o == 0)) or (not issym(o) and o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(self, SymInt) and _isint(o):
            b = zint(o)
            if not issym(o):
                return mkint(self.z / b if o > 0 else (-self.z) / (-b))
            return mkint(z3.If(b > 0, self.z / b, (-self.z) / (-b)))
        q = zreal(self) / zreal(o)
        r = mkint(z3.ToInt(q))
        return mkreal(zreal(r))

    def __rfloordiv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(self, SymInt) and _isint(o):
            a = zint(o)
            return mkint(z3.If(self.z > 0, a / self.z, (-a) / (-self.z)))
        return mkreal(z3.ToReal(z3.ToInt(zreal(o) / zreal(self))))

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % ("<sym>",)
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, numbers.Integral) or (isinstance(o, float) and o == int(o)):
            o = int(o)
            if o < 0:
                return 1.0 / (self ** (-o))
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, SymInt):
            return self ** o.__index__()
        if isinstance(o, float) and o == 0.5:
            return sqrt(self)
        return ctx().uf("pow", self, o)

    def __rpow__(self, o):
        if isinstance(self, SymInt):
            return o ** self.__index__()
        return ctx().uf("pow", o, self)

    def __neg__(self):
        return mkint(-self.z) if isinstance(self, SymInt) else mkreal(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        z = z3.If(self.z >= 0, self.z, -self.z)
        return mkint(z) if isinstance(self, SymInt) else mkreal(z)

    def __round__(self, n=None):
        if isinstance(self, SymInt):
            return self
        if n is not None:
            raise EngineError("round(x, n) on a symbolic real")
        fl = z3.ToInt(self.z)
        d = self.z - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        return mkint(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return -((-self)._floor())

    def __float__(self):
        raise EngineError("float() of a symbolic value in native code")

    def __complex__(self):
        raise EngineError("complex() of a symbolic value")

    # numpy scalar look-alikes
    ndim = 0
    shape = ()

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def sqrt(self):
        return sqrt(self)


class SymReal(SymNum):
    __slots__ = ()

    def __hash__(self):
        raise EngineError("hash of a symbolic real")

    def is_integer(self):
        return mkbool(z3.IsInt(self.z))

    def __int__(self):
        # concretises by forking on the truncated value
        t = trunc(self)
        return t.__index__() if isinstance(t, SymInt) else t


class SymInt(SymNum):
    __slots__ = ()

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return ctx().concretise(self.z)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def _low(self, o):
        """(rest, bit, other bit) when the other operand is one bit."""
        if isinstance(o, SymBool) or (isinstance(o, (int, bool)) and o in (0, 1)):
            return self - self % 2, mkbool(self.z % 2 == 1), o if isinstance(o, SymBool) else bool(o)
        return None

    def _bit(self, o, f):
        return f(self.__index__(), o.__index__() if isinstance(o, SymInt) else o)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)       # two's complement: low bits of any integer
        l = self._low(o)
        if l is not None:
            return mkint(zint(mkbool(z3.And(zbool(l[1]), zbool(l[2])))))
        return self._bit(o, lambda a, b: a & b)

    def __or__(self, o):
        l = self._low(o)
        if l is not None:
            return l[0] + mkint(zint(mkbool(z3.Or(zbool(l[1]), zbool(l[2])))))
        return self._bit(o, lambda a, b: a | b)

    def __xor__(self, o):
        l = self._low(o)
        if l is not None:
            return l[0] + mkint(zint(mkbool(z3.Xor(zbool(l[1]), zbool(l[2])))))
        return self._bit(o, lambda a, b: a ^ b)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __lshift__(self, o): return self._bit(o, lambda a, b: a << b)
    def __rshift__(self, o): return self._bit(o, lambda a, b: a >> b)


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def trunc(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return mkint(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
    return math.trunc(x)


def sqrt(x):
    if not issym(x):
        return math.sqrt(x)
    if bool(x < 0):
        raise ValueError("math domain error")
    c = ctx()
    x = zreal(x)
    memo = c.__dict__.setdefault("sqrts", {})   # (the path's own; the expression is kept so that its id stays its own)
    if x.get_id() not in memo:
        r = c.fresh_real("sqrt")
        c.assume_raw(z3.And(r >= 0, r * r == x))
        memo[x.get_id()] = (x, r)
    return SymReal(memo[x.get_id()][1])


def ite(c, a, b):
    """value-level merge; a, b numeric."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(z3.If(c.z, zbool(a), zbool(b)))
    if _special(a) or _special(b):
        return a if bool(c) else b
    if _isint(a) and _isint(b):
        return mkint(z3.If(c.z, zint(a), zint(b)))
    return mkreal(z3.If(c.z, zreal(a), zreal(b)))


def mergeable(a, b):
    for v in (a, b):
        if issym(v):
            continue
        if isinstance(v, (bool, int)):
            continue
        if isinstance(v, float) and not _special(v):
            continue
        return False
    # do not merge bool with number
    if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
        return False
    if _isint(a) != _isint(b):
        # int/float mixture keeps the numeric value only; both are numbers
        return True
    return True


def smin2(a, b):
    if not issym(a) and not issym(b):
        return b if b < a else a
    if _special(a) or _special(b):
        if a != a or b != b:
            return b if b < a else a
        if a == math.inf if _special(a) else False:
            return b
        if b == math.inf if _special(b) else False:
            return a
        return a if _special(a) else b
    return ite(b < a, b, a)


def smax2(a, b):
    if not issym(a) and not issym(b):
        return b if b > a else a
    if _special(a) or _special(b):
        if a != a or b != b:
            return b if b > a else a
        if a == -math.inf if _special(a) else False:
            return b
        if b == -math.inf if _special(b) else False:
            return a
        return a if _special(a) else b
    return ite(b > a, b, a)


# ---------------------------------------------------------------------------- path context

class Ctx:
    """One symbolic path."""

    def __init__(self, prefix, deadline, opts):
        self.prefix = prefix          # list of decisions to replay
        self.decisions = []           # [(kind, value, alternatives-left?)]
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_timeout", 5000))
        self.model = None
        self.deadline = deadline
        self.nfresh = 0
        self.inputs = {}              # name -> z3 var
        self.choices = {}
        self.opts = opts
        self.violation = None
        self.ufs = {}
        self.ufapps = []
        self.nchecks = 0
        self.reached = set()
        self.tokens = []

    # solver access
    def _check(self, *extra):
        if time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        STATS["queries"] += 1
        r = self.solver.check(*extra)
        STATS["solver_s"] += time.time() - t
        if r == z3.unknown:
            STATS["unknown"] += 1
        return r

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)
        if self.model is not None:
            if not z3.is_true(self.model.eval(z, model_completion=True)):
                self.model = None

    def assume_raw(self, z):
        self.add(z)

    def assume(self, cond):
        z = z3.simplify(zbool(cond))
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise PathEnd("assume")
        self.add(z)
        if self.model is None and len(self.decisions) >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                raise PathEnd("assume")
            if r == z3.sat:
                self.model = self.solver.model()

    def fresh_real(self, name):
        self.nfresh += 1
        return z3.Real("!%s%d" % (name, self.nfresh))

    def uf(self, name, *args):
        """Uninterpreted function application (congruence only)."""
        key = (name, len(args))
        if key not in self.ufs:
            self.ufs[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        zs = [zreal(a) for a in args]
        r = self.ufs[key](*zs)
        self.ufapps.append((name, zs, r))
        # facts about the function that hold at every argument
        if name == "exp":
            self.add(z3.And(r > 0, z3.Implies(zs[0] > 0, r > 1), z3.Implies(zs[0] < 0, r < 1),
                            z3.Implies(zs[0] == 0, r == 1)))
        elif name in ("cos", "sin"):
            self.add(z3.And(r >= -1, r <= 1))
        return SymReal(r)

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, v, alt = self.prefix[i]
            self.decisions.append((kind, v, alt))
            self.add(z if v else z3.Not(z))
            return v
        if time.time() > self.deadline:
            raise Budget("time")
        STATS["forks"] += 1
        if FORKLOG is not None:
            _log_fork()
        nz = z3.Not(z)
        known = None
        if self.model is not None:
            ev = self.model.eval(z, model_completion=True)
            if z3.is_true(ev):
                known = True
            elif z3.is_false(ev):
                known = False
        if known is None:
            r = self._check(z)
            if r == z3.unsat:
                self.decisions.append(("b", False, False))
                self.add(nz)
                return False
            if r == z3.sat:
                self.model = self.solver.model()
            rn = self._check(nz)
            if rn == z3.unsat:
                self.decisions.append(("b", True, False))
                self.add(z)
                return True
            self.decisions.append(("b", True, True))
            self.add(z)
            return True
        other = nz if known else z
        r = self._check(other)
        if r == z3.unsat:
            self.decisions.append(("b", known, False))
            self.add(z if known else nz)
            return known
        self.decisions.append(("b", known, True))
        self.add(z if known else nz)
        return known

    def concretise(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        i = len(self.decisions)
        if i < len(self.prefix) and self.prefix[i][0] == "c":
            kind, (v, excl), alt = self.prefix[i]
            self.decisions.append((kind, (v, excl), alt))
            for e in excl:
                self.add(z != e)
            if v is None:
                # value to be chosen now, others excluded
                self.decisions.pop()
                return self._choose(z, excl)
            self.add(z == v)
            return v
        return self._choose(z, ())

    def _choose(self, z, excl):
        STATS["forks"] += 1
        if len(excl) > self.opts.get("max_concretise", 400):
            raise EngineError("too many concrete values")
        v = None
        if self.model is not None:
            ev = self.model.eval(z, model_completion=True)
            if z3.is_int_value(ev):
                v = ev.as_long()
        if v is None:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            if r != z3.sat:
                raise EngineError("solver unknown while concretising")
            self.model = self.solver.model()
            v = self.model.eval(z, model_completion=True).as_long()
        r = self._check(z != v)
        alt = r != z3.unsat
        self.decisions.append(("c", (v, tuple(excl)), alt))
        self.add(z == v)
        return v


def _log_fork():
    import sys
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 3:
        fn = f.f_code.co_filename
        if "/engine/" not in fn:
            out.append("%s:%d" % (fn.rsplit("/", 1)[-1], f.f_lineno))
        f = f.f_back
    k = " < ".join(out)
    FORKLOG[k] = FORKLOG.get(k, 0) + 1


def next_prefix(decisions):
    """DFS backtrack."""
    d = list(decisions)
    while d:
        kind, v, alt = d.pop()
        if alt:
            if kind == "b":
                return d + [("b", not v, False)]
            val, excl = v
            return d + [("c", (None, tuple(excl) + (val,)), True)]
    return None
