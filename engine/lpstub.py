"""Stand-ins for the C functions of GLPK used by pywr's solvers.

The stand-in keeps the linear programme pywr poses (rows, columns, bounds, objective) as data that
may be symbolic.  `HOOK[0]` decides what a call of glp_simplex does:
  concrete mode  - the real libglpk is called through ctypes (used to validate the lowering);
  symbolic mode  - the harness receives the LP and supplies an arbitrary feasible point.
"""
import ctypes
import math
import operator
import sys

from . import krt, sym

DBL_MAX = sys.float_info.max
FR, LO, UP, DB, FX = 1, 2, 3, 4, 5


class GLPKAbort(Exception):
    """GLPK would abort (error hook) on this call."""


def _abort(msg):
    raise GLPKAbort(msg)


class LP:
    """A linear programme; indices are 1-based as in GLPK."""

    def __init__(self):
        self.erase()

    def erase(self):
        self.rows = [None]
        self.rb = [None]
        self.cb = [None]
        self.obj = [None]
        self.dir = 1
        self.status = 1
        self.prim = None
        self.rstat = [None]
        self.cstat = [None]

    nrows = property(lambda s: len(s.rows) - 1)
    ncols = property(lambda s: len(s.cb) - 1)

    def row_ok(self, i):
        if not 1 <= i <= self.nrows:
            _abort("row number %d out of range" % i)
        return i

    def col_ok(self, j):
        if not 1 <= j <= self.ncols:
            _abort("column number %d out of range" % j)
        return j

    def snapshot(self):
        s = LP()
        s.rows = [dict(r) if r is not None else None for r in self.rows]
        s.rb, s.cb, s.obj, s.dir = list(self.rb), list(self.cb), list(self.obj), self.dir
        return s


def bounds(t, lb, ub):
    """(lower or None, upper or None)"""
    return {FR: (None, None), LO: (lb, None), UP: (None, ub), DB: (lb, ub), FX: (lb, lb)}[int(t)]


HOOK = [None]


class GlpProb(krt._KStruct, LP):
    def __init__(self):
        LP.__init__(self)

    __getitem__ = krt._KStruct.__getitem__


def glp_create_prob():
    return GlpProb()


def glp_delete_prob(p):
    pass


def glp_erase_prob(p):
    p.erase()


def glp_set_obj_dir(p, d):
    p.dir = d


def glp_add_rows(p, n):
    n = operator.index(n)
    if n < 1:
        _abort("glp_add_rows: nrs = %d; invalid number of rows" % n)
    f = p.nrows + 1
    for _ in range(n):
        p.rows.append({})
        p.rb.append((FR, 0.0, 0.0))
        p.rstat.append(1)
    return f


def glp_add_cols(p, n):
    n = operator.index(n)
    if n < 1:
        _abort("glp_add_cols: ncs = %d; invalid number of columns" % n)
    f = p.ncols + 1
    for _ in range(n):
        p.cb.append((FX, 0.0, 0.0))
        p.obj.append(0.0)
        p.cstat.append(1)
    return f


def glp_set_mat_row(p, i, n, ind, val):
    i, n = p.row_ok(operator.index(i)), operator.index(n)
    if not 0 <= n <= p.ncols:
        _abort("glp_set_mat_row: i = %d; len = %d; invalid row length" % (i, n))
    r = {}
    for k in range(1, n + 1):
        j = operator.index(ind[k])
        if not 1 <= j <= p.ncols:
            _abort("glp_set_mat_row: i = %d; ind[%d] = %d; column index out of range" % (i, k, j))
        if j in r:
            _abort("glp_set_mat_row: i = %d; ind[%d] = %d; duplicate column indices not allowed" % (i, k, j))
        r[j] = val[k]
    p.rows[i] = r


def glp_set_row_bnds(p, i, t, lb, ub):
    p.rb[p.row_ok(operator.index(i))] = (t if sym.issym(t) else operator.index(t), lb, ub)


def glp_set_col_bnds(p, j, t, lb, ub):
    p.cb[p.col_ok(operator.index(j))] = (t if sym.issym(t) else operator.index(t), lb, ub)


def glp_set_obj_coef(p, j, c):
    j = operator.index(j)
    if not 0 <= j <= p.ncols:
        _abort("glp_set_obj_coef: j = %d; column number out of range" % j)
    p.obj[j] = c


def glp_adv_basis(p, flags):
    pass


glp_std_basis = lambda p: None


def glp_simplex(p, parm):
    if HOOK[0] is None:
        return concrete_simplex(p, parm)
    ret, p.status, p.prim = HOOK[0](p, parm)
    return ret


def glp_get_status(p):
    return p.status


def glp_get_col_prim(p, j):
    return p.prim[p.col_ok(operator.index(j))]


def glp_get_row_prim(p, i):
    return sum(v * p.prim[j] for j, v in p.rows[p.row_ok(operator.index(i))].items())


def glp_get_num_rows(p):
    return p.nrows


def glp_get_num_cols(p):
    return p.ncols


def glp_get_num_nz(p):
    return sum(len(r) for r in p.rows[1:])


def glp_get_row_stat(p, i):
    return p.rstat[p.row_ok(operator.index(i))]


def glp_get_col_stat(p, j):
    return p.cstat[p.col_ok(operator.index(j))]


def glp_set_row_stat(p, i, s):
    p.row_ok(operator.index(i))


def glp_set_col_stat(p, j, s):
    p.col_ok(operator.index(j))


def glp_init_smcp(parm):
    for k, v in dict(msg_lev=3, meth=1, it_lim=2**31 - 1, tm_lim=2**31 - 1, presolve=0).items():
        setattr(parm, k, v)


def _noop(*a):
    return 0


glp_term_hook = glp_error_hook = glp_free_env = glp_free = glp_term_out = _noop
glp_write_lp = glp_write_mps = glp_write_prob = _noop
glp_set_row_name = glp_set_col_name = _noop

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL("libglpk.so.40")
        _lib.glp_create_prob.restype = ctypes.c_void_p
        for f in ("glp_get_col_prim", "glp_get_row_lb", "glp_get_row_ub", "glp_get_col_lb", "glp_get_col_ub",
                  "glp_get_obj_coef"):
            getattr(_lib, f).restype = ctypes.c_double
    return _lib


def concrete_simplex(p, parm):
    """Solve with the real GLPK."""
    g = lib()
    g.glp_term_out(0)
    q = ctypes.c_void_p(g.glp_create_prob())
    g.glp_set_obj_dir(q, p.dir)
    d = ctypes.c_double
    if p.nrows:
        g.glp_add_rows(q, p.nrows)
    g.glp_add_cols(q, p.ncols)
    for i in range(1, p.nrows + 1):
        t, lb, ub = p.rb[i]
        g.glp_set_row_bnds(q, i, t, d(lb), d(ub))
        r = p.rows[i]
        ind = (ctypes.c_int * (len(r) + 1))(0, *r.keys())
        val = (d * (len(r) + 1))(0.0, *[float(v) for v in r.values()])
        g.glp_set_mat_row(q, i, len(r), ind, val)
    for j in range(1, p.ncols + 1):
        t, lb, ub = p.cb[j]
        g.glp_set_col_bnds(q, j, t, d(lb), d(ub))
        g.glp_set_obj_coef(q, j, d(p.obj[j]))
    g.glp_adv_basis(q, 0)
    ret = g.glp_simplex(q, None)
    p.status = g.glp_get_status(q)
    p.prim = [None] + [g.glp_get_col_prim(q, j) for j in range(1, p.ncols + 1)]
    g.glp_delete_prob(q)
    return ret


STUBS = {k: v for k, v in globals().items() if k.startswith("glp_")}
