"""Load a shadow copy of the package: lowered .pyx modules plus instrumented .py sources."""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import math

from . import krt, pyx2py
import numpy as np

PURE_CALLS = {"_k_d", "_k_i", "_k_b", "abs", "min", "max", "fabs", "_k_float", "_k_int", "_k_not"}


def intop(n):
    """Division of whole numbers by a constant."""
    return isinstance(n.op, (ast.Mod, ast.BitAnd, ast.FloorDiv)) and isinstance(n.right, ast.Constant) and \
        type(n.right.value) is int and n.right.value > 0


def pure(n):
    """Side-effect free, cheap expression over names and constants."""
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Attribute):
        return isinstance(n.value, ast.Name)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        return (isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) or intop(n)) and pure(n.left) and pure(n.right)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators) and not any(
            isinstance(o, (ast.In, ast.NotIn)) for o in n.ops)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS and not n.keywords and all(
            pure(a) for a in n.args)
    return False


def assigned_local(st):
    """'x = pure' -> (name, expr)"""
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
            and pure(st.value):
        return st.targets[0].id, st.value
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and pure(st.value) and \
            isinstance(st.op, (ast.Add, ast.Sub, ast.Mult)):
        return st.target.id, ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value)
    return None


def name(n):
    return ast.Name(n, ast.Load())


def call(f, *a):
    return ast.Call(name(f), list(a), [])


def thunk(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


SAFE_CALLS = PURE_CALLS | {"len", "range", "enumerate", "zip", "isnan", "isinf", "isfinite", "_k_py", "_k_t"}


def safe(n):
    """Side-effect free expression (may raise)."""
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Attribute):
        return safe(n.value)
    if isinstance(n, ast.Subscript):
        return safe(n.value) and safe(n.slice)
    if isinstance(n, ast.Tuple):
        return all(safe(e) for e in n.elts)
    if isinstance(n, ast.UnaryOp):
        return safe(n.operand)
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) or intop(n):
            return safe(n.left) and safe(n.right)
        return isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and safe(n.left)
    if isinstance(n, ast.Compare):
        return safe(n.left) and all(safe(c) for c in n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(safe(v) for v in n.values)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "_k_cdiv":
        return len(n.args) == 3 and isinstance(n.args[2], ast.Constant) and safe(n.args[1])
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in SAFE_CALLS and not n.keywords and all(
            safe(a) for a in n.args)
    return False


def names_only(t):
    return isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(names_only(e) for e in t.elts)


def predicable(stmts, depth=0):
    """A block that can run under a symbolic guard: only plain stores, loops and tests."""
    if depth > 4 or len(stmts) > 12:
        return False
    for st in stmts:
        if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Assign):
            if len(st.targets) != 1 or not safe(st.value):
                return False
            t = st.targets[0]
        elif isinstance(st, ast.AugAssign):
            if not safe(st.value) or not isinstance(st.op, (ast.Add, ast.Sub, ast.Mult)):
                return False
            t = st.target
        elif isinstance(st, ast.For):
            if st.orelse or not safe(st.iter) or not names_only(st.target) or not predicable(st.body, depth + 1):
                return False
            continue
        elif isinstance(st, ast.If):
            if not safe(st.test) or not predicable(st.body, depth + 1) or not predicable(st.orelse, depth + 1):
                return False
            continue
        else:
            return False
        if isinstance(t, ast.Name):
            continue
        if isinstance(t, ast.Attribute) and safe(t.value):
            continue
        if isinstance(t, ast.Subscript) and safe(t.value) and safe(t.slice):
            continue
        return False
    return True


def stored_names(stmts):
    out = []
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    return out


def has_store(stmts):
    """Something other than a single local assignment is stored."""
    return any(isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store)
               for st in stmts for n in ast.walk(st))


def nested(n):
    """Tests within tests, all of them choosing values for locals that exist already (augmented or computed)."""
    def ok(stmts, d):
        for st in stmts:
            if isinstance(st, ast.If):
                if not pure(st.test) or not ok(st.body, 1) or not ok(st.orelse, 1):
                    return False
            elif assigned_local(st) is None:
                return False
        return True
    inner = [st for st in n.body + n.orelse if isinstance(st, ast.If)]
    return bool(inner) and not (len(n.orelse) == 1 and inner == n.orelse) and ok([n], 0)


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infunc = False

    def tmp(self):
        self.n += 1
        return "_kt%d" % self.n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.keywords:
            m = {"float": "_k_float", "int": "_k_int", "bool": "_k_bool", "isinstance": "_k_isinstance"}
            if n.func.id in m and not any(isinstance(a, ast.Starred) for a in n.args):
                n.func = name(m[n.func.id])
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return call("_k_not", n.operand)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if all(pure(v) for v in n.values):
            return call("_k_bool_op", ast.Constant("and" if isinstance(n.op, ast.And) else "or"),
                        *[thunk(v) for v in n.values])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return n

    def merge_assign(self, test, target, e1, e2):
        c, a, b = self.tmp(), self.tmp(), self.tmp()
        store = lambda x: ast.Name(x, ast.Store())
        st = [ast.Assign([store(c)], test)]
        def asg(v):
            return ast.Assign([store(target)], v)
        inner = ast.Try(
            [ast.Assign([store(a)], e1), ast.Assign([store(b)], e2)],
            [ast.ExceptHandler(name("Exception"), None,
                               [ast.Assign([store(a)], ast.Constant(None)),
                                ast.Assign([store(b)], ast.Constant("?"))])], [], [])
        sel = ast.If(call("_k_mg", name(a), name(b)),
                     [asg(call("_k_merge", name(c), name(a), name(b)))],
                     [ast.If(name(c), [asg(e1)], [asg(e2)] if not (isinstance(e2, ast.Name) and e2.id == target)
                             else [ast.Pass()])])
        conc = ast.If(name(c), [asg(e1)],
                      [asg(e2)] if not (isinstance(e2, ast.Name) and e2.id == target) else [ast.Pass()])
        st.append(ast.If(call("_k_symb", name(c)), [inner, sel], [conc]))
        return st

    # functions that are a tree of tests with pure results become one expression
    def retexpr(self, stmts):
        if stmts and isinstance(stmts[0], ast.Return):
            v = stmts[0].value
            return v if v is not None and pure(v) else None
        if stmts and isinstance(stmts[0], ast.If) and pure(stmts[0].test):
            st = stmts[0]
            rest = stmts[1:]
            if len(rest) > 6:
                return None
            a = self.retexpr(st.body) or self.retexpr(st.body + rest)
            b = (self.retexpr(st.orelse) if st.orelse else None) or self.retexpr(st.orelse + rest)
            if a is None or b is None:
                return None
            return call("_k_ret", thunk(st.test), thunk(a), thunk(b))
        return None

    def collapse(self, stmts):
        for i in range(len(stmts)):
            if isinstance(stmts[i], ast.If):
                e = self.retexpr(stmts[i:])
                if e is not None:
                    return stmts[:i] + [ast.Return(e)]
        return stmts

    def visit_FunctionDef(self, n):
        n.body = self.collapse(n.body)
        old, self.infunc = self.infunc, True
        self.generic_visit(n)
        self.infunc = old
        return n

    def visit_ClassDef(self, n):
        old, self.infunc = self.infunc, False
        self.generic_visit(n)
        self.infunc = old
        return n

    # if a: x = e1 elif b: x = e2 else: x = e3
    def chain(self, n):
        if len(n.body) != 1 or not pure(n.test):
            return None
        t = assigned_local(n.body[0])
        if t is None or len(n.orelse) != 1:
            return None
        o = n.orelse[0]
        if isinstance(o, ast.If):
            u = self.chain(o)
        else:
            u = assigned_local(o)
        if u is None or u[0] != t[0]:
            return None
        return t[0], call("_k_ret", thunk(n.test), thunk(t[1]), thunk(u[1]))

    # ---- blocks executed under a symbolic guard
    def pred_block(self, stmts, g):
        out = []
        for st in stmts:
            if isinstance(st, (ast.Pass, ast.Expr)):
                continue
            if isinstance(st, ast.For):
                out.append(ast.For(st.target, self.visit(copy.deepcopy(st.iter)), self.pred_block(st.body, g)
                                   or [ast.Pass()], [], None))
            elif isinstance(st, ast.If):
                out.extend(self.pred_if(st, g))
            else:
                aug = isinstance(st, ast.AugAssign)
                t = st.target if aug else st.targets[0]
                v = self.visit(copy.deepcopy(st.value))
                if isinstance(t, ast.Name):
                    if aug:
                        v = ast.BinOp(name(t.id), st.op, v)
                    out.append(ast.Assign([ast.Name(t.id, ast.Store())], v))
                    continue
                o = self.tmp()
                out.append(ast.Assign([ast.Name(o, ast.Store())], copy.deepcopy(t.value)))
                if isinstance(t, ast.Attribute):
                    key = ast.Constant(t.attr)
                    fn = "_k_pattr"
                    cur = ast.Attribute(name(o), t.attr, ast.Load())
                else:
                    k = self.tmp()
                    out.append(ast.Assign([ast.Name(k, ast.Store())], copy.deepcopy(t.slice)))
                    key = name(k)
                    fn = "_k_pitem"
                    cur = ast.Subscript(name(o), name(k), ast.Load())
                if aug:
                    v = ast.BinOp(cur, st.op, v)
                out.append(ast.Expr(call(fn, name(g), name(o), key, v)))
        return out

    def pred_if(self, n, g=None, plain=None):
        """Statements for `n` when its test is symbolic; g: enclosing guard name."""
        c = self.tmp()
        st = [ast.Assign([ast.Name(c, ast.Store())], call("_k_truth", self.visit(copy.deepcopy(n.test))))]
        names = stored_names(n.body + n.orelse)
        store = lambda x: ast.Name(x, ast.Store())
        exc = lambda body: [ast.ExceptHandler(name("Exception"), None, body)]
        olds = {x: self.tmp() for x in names}
        news = {x: self.tmp() for x in names}
        sv = []
        for x in names:
            sv.append(ast.Try([ast.Assign([store(olds[x])], name(x))],
                              [ast.ExceptHandler(name("NameError"), None,
                                                 [ast.Assign([store(olds[x])], name("_k_unbound"))])], [], []))
        g1, ng, g2 = self.tmp(), self.tmp(), self.tmp()
        conj = lambda c_: call("_k_gand", name(g), name(c_)) if g else name(c_)
        restore = [ast.Assign([store(x)], name(olds[x])) for x in names] or [ast.Pass()]
        plain_else = [self.visit(copy.deepcopy(x)) for x in n.orelse] if g is None else self.pred_block(n.orelse, g)
        plain_body = [self.visit(copy.deepcopy(x)) for x in n.body] if g is None else self.pred_block(n.body, g)
        flat = lambda xs: [y for x in xs for y in (x if isinstance(x, list) else [x])]
        plain_else, plain_body = flat(plain_else), flat(plain_body)
        if n.orelse:
            second = [ast.Assign([store(news[x])], name(x)) for x in names] + restore + [
                ast.Assign([store(ng)], call("_k_not", name(c))),
                ast.Assign([store(g2)], conj(ng)),
                ast.Try(self.pred_block(n.orelse, g2) or [ast.Pass()],
                        exc([ast.If(name(ng), [ast.Raise()], [])] +
                            [ast.Assign([store(x)], name(news[x])) for x in names]),
                        [ast.Assign([store(x)], call("_k_pmerge", name(c), name(news[x]), name(x)))
                         for x in names], [])]
        else:
            second = [ast.Assign([store(x)], call("_k_pmerge", name(c), name(x), name(olds[x]))) for x in names]
        symb = sv + [ast.Assign([store(g1)], conj(c)),
                     ast.Try(self.pred_block(n.body, g1) or [ast.Pass()],
                             exc([ast.If(name(c), [ast.Raise()], [])] + restore + copy.deepcopy(plain_else)),
                             second, [])]
        st.append(ast.If(call("_k_symb", name(c)), symb,
                         [ast.If(name(c), plain_body or [ast.Pass()], plain_else)]))
        return st

    def visit_For(self, n):
        b = n.body
        for i, st in enumerate(b):
            if isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and \
                    not st.orelse and safe(st.test) and i + 1 < len(b) and predicable(b[i + 1:]):
                n.body = b[:i] + [ast.If(ast.UnaryOp(ast.Not(), st.test), b[i + 1:], [])]
                break
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        if self.infunc and safe(n.test) and predicable([n]) and (has_store(n.body + n.orelse) or nested(n)):
            return self.pred_if(n)
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) and self.infunc:
            ch = self.chain(n)
            if ch is not None:
                st = ast.Assign([ast.Name(ch[0], ast.Store())], ch[1])
                self.generic_visit(st)
                return st
        self.generic_visit(n)
        # if c: x = e1 [else: x = e2]
        if len(n.body) == 1:
            t = assigned_local(n.body[0])
            if t is not None:
                if not n.orelse:
                    return self.merge_assign(n.test, t[0], t[1], name(t[0]))
                if len(n.orelse) == 1:
                    u = assigned_local(n.orelse[0])
                    if u is not None and u[0] == t[0]:
                        return self.merge_assign(n.test, t[0], t[1], u[1])
            # if c: return e1 else: return e2
            if isinstance(n.body[0], ast.Return) and len(n.orelse) == 1 and \
                    isinstance(n.orelse[0], ast.Return) and n.body[0].value is not None and \
                    n.orelse[0].value is not None and pure(n.body[0].value) and pure(n.orelse[0].value):
                r = self.tmp()
                st = self.merge_assign(n.test, r, n.body[0].value, n.orelse[0].value)
                st.append(ast.Return(name(r)))
                return st
        return n

    # class bodies at module level keep plain ifs (no locals)
    def visit_Module(self, n):
        self.generic_visit(n)
        return n


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Shadow(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finder and loader for the shadow package."""

    def __init__(self, root, package="pywr", stubs=None):
        self.root, self.package = root, package
        self.prog = pyx2py.Program(root, package)
        self.stubs = stubs or {}
        self.mods = {}
        self.builtins = {}
        self.functions = []
        self.py_sources = {}
        self.cimp_pending = []
        self.late = []
        self.depth = 0
        for d, dirs, files in os.walk(os.path.join(root, package)):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            rel = os.path.relpath(d, root).replace(os.sep, ".")
            for f in files:
                if f.endswith(".py"):
                    nm = rel if f == "__init__.py" else rel + "." + f[:-3]
                    self.py_sources[nm] = os.path.join(d, f)

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        if fullname in self.py_sources:
            p = self.py_sources[fullname]
            ispkg = os.path.basename(p) == "__init__.py"
            spec = importlib.machinery.ModuleSpec(fullname, self, origin=p, is_package=ispkg)
            if ispkg:
                spec.submodule_search_locations = [os.path.dirname(p)]
            spec.has_location = True
            return spec
        if fullname in self.prog.mods and self.prog.mods[fullname][0]:
            spec = importlib.machinery.ModuleSpec(fullname, self, origin=self.prog.mods[fullname][0])
            spec.has_location = True
            return spec
        return None

    def create_module(self, spec):
        return None

    def make_builtins(self):
        b = dict(vars(builtins))
        b.update(krt.RUNTIME)
        b.update(krt.SHIM_BUILTINS)
        b["__import__"] = self.shim_import
        b["_k_cimport"] = self.cimport
        b["_k_cimport_mods"] = self.cimport_mods
        return b

    def shim_import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and nm == "math" and not fromlist:
            return krt.math_shim
        if level == 0 and nm == "math":
            return krt.math_shim
        m = builtins.__import__(nm, globals, locals, fromlist, level)
        if level == 0:
            if nm == "numpy":
                return krt.np_shim
            if nm == "pandas" :
                return self.pd_shim()
            if nm in ("scipy", "scipy.interpolate", "scipy.integrate", "scipy.stats") and fromlist:
                from . import scishim
                return scishim.module(nm)
        return m

    def pd_shim(self):
        if not hasattr(self, "_pd"):
            import pandas
            self._pd = krt.PDShim(pandas)
        return self._pd

    def cimport_mods(self, g, mods):
        b = g["__builtins__"]
        for alias, mod in mods.items():
            if mod == "numpy":
                b.setdefault(alias, krt.np_shim)
            elif mod == "cython":
                import Cython.Shadow
                b.setdefault(alias, Cython.Shadow)
            elif mod.startswith(self.package):
                self.cimp_pending.append((g, mod, None, alias))

    def cimport(self, g, items):
        """items: [(module, name, asname)]"""
        b = g["__builtins__"]
        own = g["__name__"]
        needed = set()
        for c in self.prog.get(own).classes.values():
            for x in (c["base"] or []):
                needed.add(getattr(x, "name", None) or getattr(getattr(x, "obj", None), "name", None))
        late = self.late
        for mod, nm, asn in items:
            if mod in krt.CLIB:
                src = krt.CLIB[mod]
                if nm == "*":
                    b.update(src)
                elif nm in src:
                    b[asn] = src[nm]
                continue
            if mod in self.prog.mods:
                pyx, pxd = self.prog.mods[mod]
                if pyx is None:
                    # declaration-only module (extern library): constants, structs, stub functions
                    self.bind_extern(b, mod)
                    continue
                if mod == own:
                    continue
                self.cimp_pending.append((g, mod, nm, asn))
                if mod not in sys.modules and (asn in needed or nm == "*"):
                    importlib.import_module(mod)
                elif mod not in sys.modules:
                    late.append(mod)
                self.flush()
        # own extern declarations
        mi = self.prog.get(own)
        self.bind_stub(b, mi)

    def bind_extern(self, b, mod):
        mi = self.prog.get(mod)
        g = pyx2py.Gen(self.prog, mi)
        for sname, fields in mi.structs.items():
            g.struct(sname, fields)
        for nm, default in mi.extern_consts.items():
            if default is not None:
                g.put("%s = %s" % (nm, g.e(default)))
        ns = {"__builtins__": self.make_builtins(), "__name__": mod}
        for m, n, a in mi.cimports:
            if m in krt.CLIB and n in krt.CLIB[m]:
                ns[a] = krt.CLIB[m][n]
        exec(compile("\n".join(g.lines) + "\n", mod, "exec"), ns)
        for k, v in ns.items():
            if not k.startswith("__"):
                b[k] = v
        self.bind_stub(b, mi)

    def bind_stub(self, b, mi):
        for nm in mi.extern_funcs:
            f = self.stubs.get(nm)
            if f is None:
                def f(*a, _nm=nm, **k):
                    raise krt.EngineError("no stub for C function %s" % _nm)
            b[nm] = f
        for nm, default in mi.extern_consts.items():
            if default is None and nm in self.stubs:
                b[nm] = self.stubs[nm]

    def flush(self):
        rest = []
        for g, mod, nm, asn in self.cimp_pending:
            m = sys.modules.get(mod)
            if m is None:
                rest.append((g, mod, nm, asn))
                continue
            b = g["__builtins__"]
            if nm is None:
                b.setdefault(asn, m)
                continue
            if nm == "*":
                mi = self.prog.get(mod)
                names = list(mi.classes) + list(mi.enums) + [n for it, _ in mi.enum_consts for n, v in it]
                # cdef functions declared in the pxd
                missing = False
                for n in names:
                    if hasattr(m, n):
                        b[n] = getattr(m, n)
                    else:
                        missing = True
                for n in self.pxd_funcs(mi):
                    if hasattr(m, n):
                        b[n] = getattr(m, n)
                if missing:
                    rest.append((g, mod, nm, asn))
            elif hasattr(m, nm):
                b[asn] = getattr(m, nm)
            else:
                rest.append((g, mod, nm, asn))
        self.cimp_pending = rest

    def pxd_funcs(self, mi):
        from Cython.Compiler import Nodes as N
        out = []
        if mi.pxd_tree is not None:
            for s in pyx2py.stmts(mi.pxd_tree.body):
                if isinstance(s, N.CVarDefNode):
                    for d in s.declarators:
                        inner = pyx2py.unptr(d)[0]
                        if isinstance(inner, N.CFuncDeclaratorNode):
                            base = inner.base
                            while not isinstance(base, N.CNameDeclaratorNode):
                                base = base.base
                            out.append(base.name)
        return out

    def exec_module(self, module):
        nm = module.__name__
        module.__dict__["__builtins__"] = self.make_builtins()
        if nm in self.py_sources:
            with open(self.py_sources[nm], encoding="utf-8") as f:
                src = f.read()
            code = instrument(src, self.py_sources[nm])
        else:
            src = pyx2py.lower(self.prog, nm)
            if os.environ.get("KDUMP"):
                with open(os.path.join(os.environ["KDUMP"], nm + ".py"), "w") as f:
                    f.write(src)
            code = instrument(src, "<lowered %s>" % nm)
        self.depth += 1
        try:
            exec(code, module.__dict__)
        finally:
            self.depth -= 1
        self.flush()
        if self.depth == 0:
            while self.late:
                mod = self.late.pop()
                if mod not in sys.modules:
                    importlib.import_module(mod)
            self.flush()


def install(root, stubs=None, package="pywr"):
    from . import pdshim
    pdshim.patch()
    for k in list(sys.modules):
        if k == package or k.startswith(package + "."):
            del sys.modules[k]
    sh = Shadow(root, package, stubs)
    sys.meta_path.insert(0, sh)
    return sh
