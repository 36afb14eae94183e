"""Harness environments: symbolic (shadow) and concrete (real build replay)."""
import ctypes
import math
import random
import os
import time

TOL = 1e-6


class ReplayMismatch(Exception):
    """The recorded values do not fit the concrete run (no verdict)."""


class Stop(BaseException):
    """Replay: stop after a violation."""


def _z3():
    from . import sym
    return sym


class EnvBase:
    tol = TOL

    # ---- helpers usable in both modes (harness-side spec arithmetic)
    def min(self, *v):
        v = list(v[0]) if len(v) == 1 else list(v)
        r = v[0]
        for x in v[1:]:
            r = self.ite(x < r, x, r)
        return r

    def max(self, *v):
        v = list(v[0]) if len(v) == 1 else list(v)
        r = v[0]
        for x in v[1:]:
            r = self.ite(x > r, x, r)
        return r

    def sum(self, v):
        r = 0.0
        for x in v:
            r = r + x
        return r

    def abs(self, x):
        return self.ite(x < 0, -x, x)

    def mean(self, v):
        v = list(v)
        return self.sum(v) / len(v)

    def sorted(self, v):
        v = list(v)
        n = len(v)
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = v[j], v[j + 1]
                c = b < a
                v[j], v[j + 1] = self.ite(c, b, a), self.ite(c, a, b)
        return v

    def median(self, v):
        s = self.sorted(v)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def array(self, values):
        """An array of numbers that functions taking memoryviews may be given, and write to."""
        import numpy
        if not self.symbolic:
            return numpy.array(values, dtype="float64")
        from .krt import SArr
        return SArr(numpy.array(list(values), dtype=object), numpy.dtype("float64"))

    def eqs(self, xs, ys, label, tol=None):
        xs, ys = list(xs), list(ys)
        self.check(len(xs) == len(ys), label + ":len")
        for i, (a, b) in enumerate(zip(xs, ys)):
            self.eq(a, b, "%s[%d]" % (label, i), tol)

    def raises(self, exc, fn, label):
        """fn must raise one of exc."""
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        self.check(False, label)
        return False

    def note(self, label):
        self.check(True, label)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def increasing(self, name, n, lo, hi, gap=0.125):
        """n numbers, each at least `gap` above the one before."""
        v = self.reals(name, n, lo, hi)
        for a, b in zip(v, v[1:]):
            self.assume(b >= a + gap)
        return v

    def parse(self, text):
        """The number a text was written from."""
        if self.symbolic and text.startswith("<sym#"):
            return self.sym.ctx().tokens[int(text[5:-1])]
        return float(text)

    def fn(self, name, x):
        """exp, cos, ...: uninterpreted for a symbolic argument."""
        import math
        if self.symbolic and self.sym.issym(x):
            return self.sym.ctx().uf(name, x)
        return getattr(math, name)(x)


# ------------------------------------------------------------------------------ LP helpers

def lp_bounds(t, lb, ub):
    """[(kind of comparison, bound, condition on the type or None)]"""
    if isinstance(t, (int, float)):
        return {1: [], 2: [(">=", lb, None)], 3: [("<=", ub, None)], 4: [(">=", lb, None), ("<=", ub, None)],
                5: [(">=", lb, None), ("<=", lb, None)]}[int(t)]
    s = _z3()
    any_ = lambda *ks: s.mkbool(s.z3.Or(*[s.zbool(t == k) for k in ks]))
    return [(">=", lb, any_(2, 4, 5)), ("<=", ub, any_(3, 4)), ("<=", lb, any_(5))]


def lp_constraints(lp, xs, slack=0.0):
    """Conditions (sym or bool) for point xs (xs[j], 1-based)."""
    out = []
    rows = [("row%d" % i, lp.rows[i], lp.rb[i]) for i in range(1, lp.nrows + 1)]
    rows += [("col%d" % j, {j: 1.0}, lp.cb[j]) for j in range(1, lp.ncols + 1)]
    for nm, r, b in rows:
        e = 0.0
        for j, v in r.items():
            e = e + v * xs[j]
        for op, bound, cond in lp_bounds(*b):
            if isinstance(bound, float) and (bound < -1e300 if op == ">=" else bound > 1e300):
                continue
            c = (e >= bound - slack) if op == ">=" else (e <= bound + slack)
            if cond is not None:
                s = _z3()
                c = s.mkbool(s.z3.Or(s.z3.Not(s.zbool(cond)), s.zbool(c)))
            out.append((nm + op, c))
    return out


# ------------------------------------------------------------------------------ symbolic

class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, ctx, opts):
        self.c = ctx
        self.opts = opts
        self.violations = []
        self.inconclusive = []
        self.reached = {}
        self.names = {}
        self.tokens = 0
        self.sym = _z3()
        self._fresh = {}

    # ---- inputs
    def _new(self, name, mk):
        if name in self.names:
            return self.names[name]
        v = mk()
        self.names[name] = v
        self.c.inputs[name] = v.z
        return v

    def real(self, name, lo=None, hi=None):
        s = self.sym
        isnew = name not in self.names
        v = self._new(name, lambda: s.SymReal(s.z3.Real(name)))
        if isnew:
            cs = []
            if lo is not None:
                cs.append(v.z >= s.zreal(lo))
            if hi is not None:
                cs.append(v.z <= s.zreal(hi))
            for c in cs:
                self.c.add(c)
        return v

    def int(self, name, lo, hi):
        s = self.sym
        isnew = name not in self.names
        v = self._new(name, lambda: s.SymInt(s.z3.Int(name)))
        if isnew:
            self.c.add(s.z3.And(v.z >= lo, v.z <= hi))
        return v

    def bool(self, name):
        v = self.int(name, 0, 1)
        return v == 1

    # ---- logic
    def date(self, name, y0, y1):
        """An arbitrary day of the years y0..y1."""
        from . import caldate
        y, d = self.int(name + ".year", y0, y1), self.int(name + ".dayofyear", 1, 366)
        self.assume(d <= caldate.ylen(y))
        return caldate.SymDate(y, d)

    def ite(self, c, a, b):
        return self.sym.ite(c, a, b)

    def And(self, *cs):
        s = self.sym
        return s.mkbool(s.z3.And(*[s.zbool(c) for c in cs])) if cs else True

    def Or(self, *cs):
        s = self.sym
        return s.mkbool(s.z3.Or(*[s.zbool(c) for c in cs])) if cs else False

    def Not(self, c):
        s = self.sym
        return s.mkbool(s.z3.Not(s.zbool(c)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        s = self.sym
        return s.mkbool(s.zbool(a) == s.zbool(b))

    def assume(self, cond):
        self.c.assume(cond)

    def fork(self, cond):
        """Branch on a condition (both outcomes explored)."""
        return bool(cond)

    # ---- checks
    def _query(self, extra):
        """'unsat' | 'sat' (model set) | 'unknown' for pc + extra."""
        s = self.sym
        c = self.c
        to = self.opts.get("check_timeout", 20000)
        c.solver.set("timeout", min(to, 8000))
        r = c._check(*extra)
        if r == s.z3.sat:
            m = c.solver.model()
            c.solver.set("timeout", self.opts.get("branch_timeout", 5000))
            return "sat", m
        c.solver.set("timeout", self.opts.get("branch_timeout", 5000))
        if r == s.z3.unsat:
            return "unsat", None
        for mk in (lambda: s.z3.SolverFor("QF_NRA"), lambda: s.z3.Solver()):
            sv = mk()
            sv.set("timeout", to)
            sv.add(*c.pc)
            sv.add(*extra)
            t = time.time()
            s.STATS["queries"] += 1
            try:
                r = sv.check()
            except s.z3.Z3Exception:
                r = s.z3.unknown
            s.STATS["solver_s"] += time.time() - t
            if r == s.z3.sat:
                return "sat", sv.model()
            if r == s.z3.unsat:
                return "unsat", None
            s.STATS["unknown"] += 1
        return "unknown", None

    def _values(self, m):
        s = self.sym
        out = {}
        for name, z in self.c.inputs.items():
            v = m.eval(z, model_completion=True)
            if s.z3.is_int_value(v):
                out[name] = v.as_long()
            elif s.z3.is_rational_value(v):
                out[name] = float(v.numerator_as_long()) / float(v.denominator_as_long()) if \
                    v.denominator_as_long() < 10**300 and abs(v.numerator_as_long()) < 10**300 else 0.0
            elif s.z3.is_algebraic_value(v):
                a = v.approx(20)
                out[name] = a.numerator_as_long() / a.denominator_as_long()
            else:
                out[name] = 0.0
        return out

    def _nice(self, extra):
        """Model with dyadic inputs if there is one quickly, else any model."""
        s = self.sym
        nice = []
        for name, z in self.c.inputs.items():
            if z.sort() == s.z3.RealSort():
                nice.append(s.z3.IsInt(z * 4))
        for ns in ((nice, 3000), ([], 8000)):
            sv = s.z3.Solver()
            sv.set("timeout", ns[1])
            sv.add(*self.c.pc)
            sv.add(*extra)
            sv.add(*ns[0])
            try:
                if sv.check() == s.z3.sat:
                    return sv.model()
            except s.z3.Z3Exception:
                pass
        return None

    def _violate(self, label, z, strong=()):
        """Not z is satisfiable: record a model."""
        s = self.sym
        m = None
        for st in list(strong) + [None]:
            ex = [s.z3.Not(z)] + ([st] if st is not None else [])
            m = self._nice(ex)
            if m is not None:
                break
        if m is None:
            r, m = self._query([s.z3.Not(z)])
        if m is None:
            self.inconclusive.append((label, "no model"))
            return
        self.violations.append({"label": label, "values": self._values(m),
                                "tokens": self.tokens})
        if len(self.violations) >= self.opts.get("max_violations_path", 2):
            raise s.PathEnd("violation")

    def check(self, cond, label, _strong=()):
        s = self.sym
        self.reached[label] = self.reached.get(label, 0) + 1
        z = s.z3.simplify(s.zbool(cond))
        if s.z3.is_true(z):
            return
        r, m = self._query([s.z3.Not(z)])
        if r == "unsat":
            return
        if r == "unknown":
            self.inconclusive.append((label, "solver unknown"))
            return
        self._violate(label, z, _strong)
        self.assume(s.SymBool(z))

    def eq(self, a, b, label, tol=None):
        s = self.sym
        tol = self.tol if tol is None else tol
        self.reached[label] = self.reached.get(label, 0) + 1
        if not s.issym(a) and not s.issym(b):
            ok = _feq(a, b, tol)
            if not ok:
                self._violate(label + " (%r != %r)" % (a, b), s.z3.BoolVal(False))
                raise s.PathEnd("violation")
            return
        if s._special(a) or s._special(b):
            # a symbolic (finite) value against inf/nan
            self._violate(label + " (finite vs special)", s.z3.BoolVal(False))
            raise s.PathEnd("violation")
        za, zb = s.zreal(a), s.zreal(b)
        d = s.z3.simplify(za - zb, som=True)
        if s.z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return
        if self.c.opts.get("exact_first", True):
            r, m = self._query([za != zb])
            if r == "unsat":
                return
        d = za - zb
        t = s.zreal(tol)
        z = s.z3.And(d <= t, d >= -t)
        r, m = self._query([s.z3.Not(z)])
        if r == "unsat":
            return
        if r == "unknown":
            self.inconclusive.append((label, "solver unknown"))
            return
        strong = []
        for mgn in ("1", "1/100", "1/1000"):
            q = s.z3.RealVal(mgn)
            strong.append(s.z3.Or(d > q, d < -q))
        self._violate(label, z, strong)
        self.assume(s.SymBool(z))

    def le(self, a, b, label, tol=None):
        s = self.sym
        tol = self.tol if tol is None else tol
        self.reached[label] = self.reached.get(label, 0) + 1
        if s._special(b) and b > 0 or s._special(a) and a < 0:
            return
        if s._special(a) or s._special(b):
            self._violate(label + " (special)", s.z3.BoolVal(False))
            raise s.PathEnd("violation")
        if not s.issym(a) and not s.issym(b):
            return self.check(a <= b + tol, label)
        za, zb = s.zreal(a), s.zreal(b)
        self.reached[label] -= 1
        self.check(s.SymBool(za <= zb + s.zreal(tol)), label,
                   [za > zb + s.z3.RealVal(m) for m in ("1", "1/100", "1/1000")])

    # ---- LP
    def on_simplex(self, fn):
        from . import lpstub
        lpstub.HOOK[0] = None if fn is None else (lambda p, parm: fn(p))

    def feasible_point(self, lp, tag):
        """Arbitrary point satisfying the posed LP."""
        xs = [None] + [self.real("x_%s_%d" % (tag, j)) for j in range(1, lp.ncols + 1)]
        for nm, c in lp_constraints(lp, xs):
            self.assume(c)
        return xs

    def holds(self, cond):
        """concrete truth if decided on this path else None"""
        return cond


def _feq(a, b, tol):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol


# ------------------------------------------------------------------------------ concrete

class RealEnv(EnvBase):
    symbolic = False

    def __init__(self, values, stop=True, fill=None):
        self.values = values
        self.fill = fill        # values of inputs that a path which ended early did not determine
        self.violations = []
        self.reached = {}
        self.stop = stop
        self.missing = []

    def real(self, name, lo=None, hi=None):
        if name not in self.values:
            self.missing.append(name)
            v = 0.0
            if self.fill is not None:
                a, b = -20.0 if lo is None else lo, 20.0 if hi is None else hi
                v = self.values[name] = a + (b - a) * random.Random("%s %s" % (self.fill, name)).random()
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return float(v)
        return float(self.values[name])

    def int(self, name, lo, hi):
        if name not in self.values:
            self.missing.append(name)
            if self.fill is not None:
                self.values[name] = random.Random("%s %s" % (self.fill, name)).randint(int(lo), int(hi))
                return self.values[name]
            return int(lo)
        return int(self.values[name])

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def date(self, name, y0, y1):
        import pandas
        y, d = self.int(name + ".year", y0, y1), self.int(name + ".dayofyear", 1, 366)
        return pandas.Timestamp(year=y, month=1, day=1) + pandas.Timedelta(days=d - 1)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def fork(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise ReplayMismatch("assumption not met in the concrete run")

    def _bad(self, label, margin=None):
        self.violations.append({"label": label, "margin": margin})
        if self.stop:
            raise Stop()

    def check(self, cond, label, *a):
        self.reached[label] = self.reached.get(label, 0) + 1
        if not cond:
            self._bad(label)

    def eq(self, a, b, label, tol=None):
        tol = self.tol if tol is None else tol
        self.reached[label] = self.reached.get(label, 0) + 1
        a, b = float(a), float(b)
        if _feq(a, b, 0.5 * tol + 1e-9 * max(abs(a), abs(b)) if a == a and b == b and not math.isinf(a)
                and not math.isinf(b) else tol):
            return
        m = abs(a - b)
        self._bad("%s (%r != %r)" % (label, a, b), m if m == m else math.inf)

    def le(self, a, b, label, tol=None):
        tol = self.tol if tol is None else tol
        self.reached[label] = self.reached.get(label, 0) + 1
        a, b = float(a), float(b)
        if not (a <= b + 0.5 * tol + 1e-9 * max(abs(a) if abs(a) < 1e300 else 0, abs(b) if abs(b) < 1e300 else 0)):
            self._bad("%s (%r > %r)" % (label, a, b), a - b)

    # ---- LP through the interposed GLPK
    _cb = None

    def on_simplex(self, fn):
        from . import lpstub
        lib = ctypes.CDLL(None)
        if not hasattr(lib, "vp_set_callback"):
            raise ReplayMismatch("interposer missing")
        if fn is None:
            lib.vp_set_callback(None)
            RealEnv._cb = None
            return
        g = lpstub.lib()
        err = self._err = []

        def cb(P):
            try:
                lp = read_lp(g, P)
                r = fn(lp)
                if r is None:
                    return 1
                ret, st, prim = r
                n = lp.ncols
                arr = (ctypes.c_double * n)(*([float(v) for v in prim[1:]] if prim is not None else [0.0] * n))
                lib.vp_set_point(n, arr, st, ret)
                return 0
            except BaseException as e:
                err.append(e)
                n = 1
                lib.vp_set_point(0, None, 1, 1)
                return 0
        RealEnv._cb = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p)(cb)
        lib.vp_set_callback(RealEnv._cb)

    def simplex_errors(self):
        return getattr(self, "_err", [])

    def feasible_point(self, lp, tag):
        xs = [None] + [self.real("x_%s_%d" % (tag, j)) for j in range(1, lp.ncols + 1)]
        for nm, c in lp_constraints(lp, xs, 1e-5):
            if not c:
                raise ReplayMismatch("recorded point is outside the real LP (%s)" % nm)
        return xs


def read_lp(g, P):
    """Copy the LP held by the real GLPK."""
    from .lpstub import LP
    P = ctypes.c_void_p(P)
    lp = LP()
    n, m = g.glp_get_num_rows(P), g.glp_get_num_cols(P)
    for j in range(1, m + 1):
        lp.cb.append((g.glp_get_col_type(P, j), g.glp_get_col_lb(P, j), g.glp_get_col_ub(P, j)))
        lp.obj.append(g.glp_get_obj_coef(P, j))
    ind = (ctypes.c_int * (m + 1))()
    val = (ctypes.c_double * (m + 1))()
    for i in range(1, n + 1):
        k = g.glp_get_mat_row(P, i, ind, val)
        lp.rows.append({ind[t]: val[t] for t in range(1, k + 1)})
        lp.rb.append((g.glp_get_row_type(P, i), g.glp_get_row_lb(P, i), g.glp_get_row_ub(P, i)))
    lp.dir = g.glp_get_obj_dir(P)
    return lp
