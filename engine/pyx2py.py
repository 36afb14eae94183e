"""Lower Cython sources (.pyx with their .pxd) to Python source text.

The input is parsed with Cython's own parser, so the accepted language is that of the build.  The
lowering keeps the parts of C typing that a caller can observe: typed attributes, locals,
arguments and return values are coerced (``_k_d`` double, ``_k_i`` integer, ``_k_b`` bint,
``_k_mv`` typed memoryview, ``_k_t`` extension type), C numeric attributes and functions have
numeric defaults, C arrays obtained from malloc are bounds checked, enums and structs exist.
"""
import os
from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Nodes as N, ExprNodes as E
from Cython.Compiler import Errors

Errors.init_thread()

INT_NAMES = {"int", "char", "short", "long", "Py_ssize_t", "size_t", "ssize_t", "Py_hash_t",
             "ptrdiff_t", "Py_UCS4", "Py_UNICODE"}
PYTYPES = {"list", "dict", "tuple", "set", "frozenset", "str", "bytes", "unicode", "basestring",
           "slice", "bytearray"}
NP_INT = {"int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t",
          "intp_t", "int_t", "long_t", "npy_intp"}
NP_FLOAT = {"float64_t", "float32_t", "double_t", "float_t"}

class Unsupported(Exception):
    pass


def parse(path, pxd=False):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    # Cython complains if bare text literals are passed as bytes; str is fine
    return parse_from_strings("m", src, level="module_pxd" if pxd else "module")


def stmts(node):
    if node is None:
        return
    if isinstance(node, N.StatListNode):
        for s in node.stats:
            yield from stmts(s)
    elif isinstance(node, N.CDefExternNode):
        yield node
    elif hasattr(N, "CompilerDirectivesNode") and isinstance(node, N.CompilerDirectivesNode):
        yield from stmts(node.body)
    else:
        yield node


class ModInfo:
    """Declarations of one module (pxd and pyx together)."""

    def __init__(self, name, pyx=None, pxd=None):
        self.name = name
        self.pyx_path, self.pxd_path = pyx, pxd
        self.classes = {}      # name -> dict(attrs=[(name,type,visibility)], base, base_mod)
        self.ctypedefs = {}
        self.structs = {}      # name -> [(field, typenode info)]
        self.enums = {}
        self.enum_consts = []
        self.extern_consts = {}
        self.extern_funcs = {}
        self.cimports = []     # (module, name, asname) name '*' allowed
        self.cimport_mods = {} # alias -> module
        self.typed_globals = {}
        self.py_tree = parse(pyx) if pyx else None
        self.pxd_tree = parse(pxd, True) if pxd else None
        self.is_pkg = False

    def absmod(self, module, level):
        if not level:
            return module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))


class Program:
    def __init__(self, root, package):
        """root: directory holding the package; package: name."""
        self.root, self.package = root, package
        self.mods = {}
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            rel = os.path.relpath(d, root).replace(os.sep, ".")
            stems = {}
            for f in files:
                stem, ext = os.path.splitext(f)
                if ext in (".pyx", ".pxd"):
                    stems.setdefault(stem, {})[ext] = os.path.join(d, f)
            for stem, x in stems.items():
                name = rel + "." + stem if stem != "__init__" else rel
                self.mods[name] = (x.get(".pyx"), x.get(".pxd"))
        self.info = {}

    def get(self, name):
        if name not in self.mods:
            return None
        if name not in self.info:
            pyx, pxd = self.mods[name]
            mi = ModInfo(name, pyx, pxd)
            self.info[name] = mi
            for tree in (mi.pxd_tree, mi.py_tree):
                if tree is not None:
                    collect(self, mi, tree.body, False)
        return self.info[name]

    def lookup_type(self, mi, name, seen=None):
        """Resolve a simple type name to a type tuple, or None."""
        seen = seen or set()
        if (mi.name, name) in seen:
            return None
        seen.add((mi.name, name))
        if name in mi.classes:
            return ("cls", name)
        if name in mi.structs:
            return ("struct", name)
        if name in mi.enums:
            return ("i",)
        if name in mi.ctypedefs:
            return mi.ctypedefs[name]
        for module, nm, asname in mi.cimports:
            if nm == "*" or asname == name:
                other = self.get(module)
                if other is None:
                    if nm == "*":
                        continue
                    return self.foreign(module, nm)
                t = self.lookup_type(other, name if nm == "*" else nm, seen)
                if t is not None:
                    if t[0] == "cls":
                        return ("cls", name)
                    return t
        return None

    def foreign(self, module, nm):
        if module.startswith("numpy"):
            if nm in NP_INT:
                return ("i",)
            if nm in NP_FLOAT:
                return ("d",)
            return ("obj",)
        if module.startswith("libc"):
            if nm in ("jmp_buf",):
                return ("struct", "jmp_buf")
            if nm.endswith("_t"):
                return ("i",)
        return ("obj",)


def collect(prog, mi, body, extern):
    for s in stmts(body):
        if isinstance(s, N.CDefExternNode):
            collect(prog, mi, s.body, True)
        elif isinstance(s, N.FromCImportStatNode):
            mod = mi.absmod(s.module_name, s.relative_level or 0)
            for item in s.imported_names:
                nm, asn = item[1], item[2]
                mi.cimports.append((mod, nm, asn or nm))
        elif isinstance(s, N.CImportStatNode):
            mi.cimport_mods[s.as_name or s.module_name.split(".")[0]] = s.module_name
        elif isinstance(s, N.CClassDefNode):
            c = mi.classes.setdefault(s.class_name, {"attrs": [], "base": None, "pyx": None})
            bases = getattr(s, "bases", None)
            if bases is not None and bases.args:
                c["base"] = bases.args
            if s.body is not None:
                for t in stmts(s.body):
                    if isinstance(t, N.CVarDefNode):
                        for dcl in t.declarators:
                            if isinstance(unptr(dcl)[0], N.CFuncDeclaratorNode):
                                continue
                            c["attrs"].append((t, dcl))
        elif isinstance(s, N.CEnumDefNode):
            val = 0
            items = []
            for it in s.items:
                if it.value is not None:
                    val = it.value
                    items.append((it.name, it.value))
                else:
                    items.append((it.name, None))
            if s.name:
                mi.enums[s.name] = (items, s.scoped, s.create_wrapper, extern)
            else:
                mi.enum_consts.append((items, extern))
        elif isinstance(s, N.CStructOrUnionDefNode):
            mi.structs[s.name] = []
            for a in (s.attributes or []):
                if isinstance(a, N.CVarDefNode):
                    for dcl in a.declarators:
                        mi.structs[s.name].append((a, dcl))
        elif isinstance(s, N.CTypeDefNode):
            dcl = s.declarator
            base, n, _ = unptr(dcl)
            if isinstance(base, N.CNameDeclaratorNode):
                mi.ctypedefs[base.name] = typeof(prog, mi, s.base_type, dcl)
        elif isinstance(s, N.CVarDefNode):
            for dcl in s.declarators:
                base, n, _ = unptr(dcl)
                if isinstance(base, N.CFuncDeclaratorNode):
                    b2 = base
                    while not isinstance(b2, N.CNameDeclaratorNode):
                        b2 = b2.base
                    if extern:
                        mi.extern_funcs[b2.name] = True
                    continue
                if isinstance(base, N.CNameDeclaratorNode):
                    if extern:
                        mi.extern_consts[base.name] = base.default
                    else:
                        mi.typed_globals[base.name] = (s, dcl)


def unptr(dcl):
    """Strip pointer/array declarators; returns (inner, pointer depth, [array dims])."""
    n, dims = 0, []
    while True:
        if isinstance(dcl, (N.CPtrDeclaratorNode,)):
            n += 1
            dcl = dcl.base
        elif isinstance(dcl, N.CReferenceDeclaratorNode):
            dcl = dcl.base
        elif isinstance(dcl, N.CArrayDeclaratorNode):
            dims.append(dcl.dimension)
            dcl = dcl.base
        elif isinstance(dcl, getattr(N, "CConstDeclaratorNode", ())):
            dcl = dcl.base
        else:
            return dcl, n, dims


def basetype(prog, mi, bt):
    if bt is None:
        return ("obj",)
    if isinstance(bt, N.CSimpleBaseTypeNode):
        name = bt.name
        if bt.is_basic_c_type:
            if name == "void":
                return ("void",)
            if name == "bint":
                return ("b",)
            if name in ("double", "float"):
                return ("d",)
            return ("i",)
        if name is None or name == "object":
            return ("obj",)
        if bt.module_path:
            mod = mi.cimport_mods.get(bt.module_path[0])
            if mod and prog.get(mod):
                t = prog.lookup_type(prog.get(mod), name)
                if t and t[0] == "cls":
                    return ("cls", ".".join(list(bt.module_path) + [name]))
                return t or ("obj",)
            full = mod or ".".join(bt.module_path)
            return prog.foreign(full, name)
        t = prog.lookup_type(mi, name)
        if t is not None:
            return t
        if name in PYTYPES:
            return ("py", name)
        if name in ("bool",):
            return ("obj",)
        if name == "float":
            return ("pyfloat",)
        if name in INT_NAMES:
            return ("i",)
        if name.endswith("_t"):
            return ("i",)
        return ("obj",)
    if isinstance(bt, N.MemoryViewSliceTypeNode):
        base = basetype(prog, mi, bt.base_type_node)
        return ("mv", base[0] if base[0] in ("d", "i", "b") else "o", len(bt.axes))
    if isinstance(bt, getattr(N, "CConstOrVolatileTypeNode", ())) or \
            isinstance(bt, getattr(N, "CQualifierTypeNode", ())):
        return basetype(prog, mi, bt.base_type)
    if isinstance(bt, N.CComplexBaseTypeNode):
        return typeof(prog, mi, bt.base_type, bt.declarator)
    if isinstance(bt, N.CTupleBaseTypeNode):
        return ("obj",)
    if isinstance(bt, N.TemplatedTypeNode):
        return ("obj",)
    if isinstance(bt, N.CNestedBaseTypeNode):
        return ("obj",)
    return ("obj",)


def typeof(prog, mi, bt, dcl):
    t = basetype(prog, mi, bt)
    inner, n, dims = unptr(dcl)
    for _ in range(n):
        t = ("ptr", t)
    for d in dims:
        t = ("carr", t, d)
    return t


NUMERIC = ("d", "i", "b")


class Gen:
    def __init__(self, prog, mi):
        self.prog, self.mi = prog, mi
        self.lines = []
        self.ind = 0
        self.scopes = []        # list of dict name -> type for functions
        self.cdiv = False
        self.rettype = None
        self.tmp = 0
        self.fn = None

    # ------------------------------------------------------------------ utilities
    def put(self, s):
        self.lines.append("    " * self.ind + s)

    def newtmp(self):
        self.tmp += 1
        return "_t%d_" % self.tmp

    def typ(self, bt, dcl):
        return typeof(self.prog, self.mi, bt, dcl)

    def k(self, t, x):
        """coercion expression"""
        kind = t[0]
        if kind == "d":
            return "_k_d(%s)" % x
        if kind == "i":
            return "_k_i(%s)" % x
        if kind == "b":
            return "_k_b(%s)" % x
        if kind == "mv":
            return "_k_mv(%s, %r, %d)" % (x, t[1], t[2])
        if kind == "cls":
            return "_k_t(%s, %s)" % (x, t[1])
        if kind == "py":
            return "_k_py(%s, %r)" % (x, t[1])
        if kind == "struct":
            return "_k_struct(%s)" % x
        return x

    def default(self, t):
        kind = t[0]
        if kind == "d":
            return "0.0"
        if kind == "i":
            return "0"
        if kind == "b":
            return "False"
        if kind == "struct":
            return "_k_newstruct(%r, globals())" % t[1]
        if kind == "ptr":
            return "None"
        if kind == "carr":
            return "_k_carr(%r, %s)" % (t[1][0], self.e(t[2]) if t[2] is not None else "0")
        return None

    def typespec(self, t):
        kind = t[0]
        if kind == "cls":
            return "('cls', lambda: %s)" % t[1]
        if kind == "carr":
            return "('carr', %r, %s)" % (t[1][0], self.e(t[2]) if t[2] is not None else "0")
        if kind == "struct":
            return "('struct', %r, lambda: globals())" % t[1]
        if kind == "ptr":
            return "('ptr',)"
        return repr(tuple(t))

    # ------------------------------------------------------------------ module
    def module(self):
        mi = self.mi
        self.put("# lowered from %s" % mi.pyx_path)
        self.put("_k_cimport(globals(), %r)" % ([(m, n, a) for (m, n, a) in mi.cimports],))
        self.put("_k_cimport_mods(globals(), %r)" % (mi.cimport_mods,))
        for info in ([mi]):
            for sname, fields in info.structs.items():
                self.struct(sname, fields)
            for items, extern in info.enum_consts:
                if not extern:
                    self.enum_items(items)
            for ename, (items, scoped, wrap, extern) in info.enums.items():
                if extern:
                    continue
                self.enum(ename, items, scoped)
            for nm, default in info.extern_consts.items():
                if default is not None:
                    self.put("%s = %s" % (nm, self.e(default)))
        for nm, (s, dcl) in mi.typed_globals.items():
            t = self.typ(s.base_type, dcl)
            d = self.default(t)
            inner = unptr(dcl)[0]
            self.put("%s = %s" % (nm, d if d is not None else "None"))
        self.scopes.append({})
        self.modscope = True
        body = list(stmts(mi.py_tree.body))
        nodes = {s.class_name: s for s in body if isinstance(s, N.CClassDefNode)}
        done = set()

        def emit(s):
            # extension types exist before the module body runs: bases first
            if isinstance(s, N.CClassDefNode):
                if s.class_name in done:
                    return
                done.add(s.class_name)
                for b in (mi.classes[s.class_name]["base"] or []):
                    if isinstance(b, E.NameNode) and b.name in nodes:
                        emit(nodes[b.name])
            self.s(s, cls=None)

        for s in body:
            emit(s)
        return "\n".join(self.lines) + "\n"

    def struct(self, name, fields):
        self.put("class %s(_KStruct):" % name)
        self.ind += 1
        n = 0
        for a, dcl in fields:
            inner = unptr(dcl)[0]
            while not isinstance(inner, N.CNameDeclaratorNode):
                inner = inner.base
            t = self.typ(a.base_type, dcl)
            self.put("%s = _k_attr(%r, %s)" % (inner.name, inner.name, self.typespec(t)))
            n += 1
        if not n:
            self.put("pass")
        self.ind -= 1

    def enum_items(self, items):
        prev = "-1"
        for nm, v in items:
            if v is not None:
                self.put("%s = %s" % (nm, self.e(v)))
            else:
                self.put("%s = (%s) + 1" % (nm, prev))
            prev = nm

    def enum(self, name, items, scoped):
        if not scoped:
            self.enum_items(items)
            self.put("class %s(_KEnum): pass" % name)
            for nm, v in items:
                self.put("%s.%s = %s" % (name, nm, nm))
        else:
            self.put("class %s(_KEnum): pass" % name)
            prev = "-1"
            for nm, v in items:
                self.put("%s.%s = %s" % (name, nm, self.e(v) if v is not None else "(%s)+1" % prev))
                prev = "%s.%s" % (name, nm)

    # ------------------------------------------------------------------ statements
    def body(self, node, cls=None, always_pass=True):
        self.ind += 1
        n = len(self.lines)
        for s in stmts(node):
            self.s(s, cls)
        if len(self.lines) == n:
            self.put("pass")
        self.ind -= 1

    def s(self, s, cls=None):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("%s: statement %s at %s" % (self.mi.name, type(s).__name__, s.pos))
        self.cls = cls
        m(s)

    def s_StatListNode(self, s):
        for x in stmts(s):
            self.s(x, self.cls)

    def s_PassStatNode(self, s):
        self.put("pass")

    def s_CDefExternNode(self, s):
        pass

    def s_FromCImportStatNode(self, s):
        pass

    def s_CImportStatNode(self, s):
        pass

    def s_CEnumDefNode(self, s):
        pass

    def s_CStructOrUnionDefNode(self, s):
        pass

    def s_CTypeDefNode(self, s):
        pass

    def s_FromImportStatNode(self, s):
        imp = s.module
        level = imp.level or 0
        mod = "." * level + (imp.module_name.value or "")
        if level < 0:
            mod = imp.module_name.value
        names = []
        for nm, target in s.items:
            if nm == "*":
                names.append("*")
                continue
            tgt = target.name if hasattr(target, "name") else nm
            names.append(nm if nm == tgt else "%s as %s" % (nm, tgt))
        if mod == "__future__":
            return
        self.put("from %s import %s" % (mod, ", ".join(names)))

    def s_CVarDefNode(self, s):
        if self.cls is not None and not self.infunc():
            return  # handled from class info
        for dcl in s.declarators:
            inner, n, dims = unptr(dcl)
            if isinstance(inner, N.CFuncDeclaratorNode):
                continue
            t = self.typ(s.base_type, dcl)
            name = inner.name
            self.scopes[-1][name] = t
            if inner.default is not None:
                self.put("%s = %s" % (name, self.k(t, self.e(inner.default))))
            else:
                d = self.default(t)
                if d is not None and self.infunc():
                    self.put("%s = %s" % (name, d))

    def infunc(self):
        return self.fn is not None

    def decorators(self, s):
        out, cdiv = [], None
        for d in (s.decorators or []):
            x = d.decorator
            txt = self.e(x)
            root = x
            while True:
                if isinstance(root, (E.SimpleCallNode, E.GeneralCallNode)):
                    root = root.function
                elif isinstance(root, E.AttributeNode):
                    root = root.obj
                else:
                    break
            if isinstance(root, E.NameNode) and self.mi.cimport_mods.get(root.name) == "cython" or \
                    (isinstance(root, E.NameNode) and root.name == "cython"):
                if "cdivision" in txt:
                    cdiv = "True" in txt
                continue
            out.append(txt)
        return out, cdiv

    def argdecl(self, a, c_func):
        """returns (name, type, default, not_none, kw_only)"""
        inner, n, dims = unptr(a.declarator)
        name = inner.name if isinstance(inner, N.CNameDeclaratorNode) else None
        if isinstance(inner, N.CFuncDeclaratorNode):
            b = inner
            while not isinstance(b, N.CNameDeclaratorNode):
                b = b.base
            return b.name, ("obj",), a.default, False, a.kw_only
        if not name:
            name = a.base_type.name
            t = ("obj",)
        else:
            t = self.typ(a.base_type, a.declarator)
        return name, t, a.default, a.not_none, a.kw_only

    def func(self, s, name, args, star, starstar, ret, cls, body, decorators, cdiv):
        for d in decorators:
            self.put("@" + d)
        parts, checks = [], []
        seen_kw = False
        scope = {}
        for i, a in enumerate(args):
            nm, t, default, notnone, kwonly = self.argdecl(a, True)
            if kwonly and not seen_kw:
                seen_kw = True
                parts.append("*" + star.name if star is not None else "*")
            d = ""
            if default is not None:
                d = "=" + self.e(default) if not isinstance(default, E.NoneNode) else "=None"
            parts.append(nm + d)
            if i == 0 and cls is not None and t[0] == "cls":
                t = ("obj",)
            if t[0] not in ("obj", "ptr", "void", "carr"):
                scope[nm] = t
                checks.append("%s = %s" % (nm, self.k(t, nm)))
            if notnone:
                checks.append("_k_notnone(%s)" % nm)
        if star is not None and not seen_kw:
            parts.append("*" + star.name)
        if starstar is not None:
            parts.append("**" + starstar.name)
        self.put("def %s(%s):" % (name, ", ".join(parts)))
        saved = (self.scopes, self.rettype, self.cdiv, self.fn)
        self.scopes = self.scopes + [scope]
        self.rettype, self.fn = ret, name
        if cdiv is not None:
            self.cdiv = cdiv
        self.ind += 1
        for c in checks:
            self.put(c)
        # C variables may be declared anywhere; collect for defaults first
        n = len(self.lines)
        for x in stmts(body):
            self.s(x, None)
        if ret is not None and ret[0] in NUMERIC:
            self.put("return %s" % self.default(ret))
        elif len(self.lines) == n:
            self.put("pass")
        self.ind -= 1
        self.scopes, self.rettype, self.cdiv, self.fn = saved

    def s_DefNode(self, s):
        decs, cdiv = self.decorators(s)
        self.func(s, s.name, s.args, s.star_arg, s.starstar_arg, None, self.cls, s.body, decs, cdiv)

    def s_CFuncDefNode(self, s):
        decs, cdiv = self.decorators(s)
        dcl, n, dims = unptr(s.declarator)
        base = dcl.base
        while not isinstance(base, N.CNameDeclaratorNode):
            base = base.base
        ret = basetype(self.prog, self.mi, s.base_type)
        for _ in range(n):
            ret = ("ptr", ret)
        self.func(s, base.name, dcl.args, None, None, ret, self.cls, s.body, decs, cdiv)

    def s_CClassDefNode(self, s):
        info = self.mi.classes[s.class_name]
        base = "_KBase"
        if info["base"]:
            base = ", ".join(self.e(b) for b in info["base"])
        decs, _ = self.decorators(s)
        for d in decs:
            self.put("@" + d)
        self.put("class %s(%s):" % (s.class_name, base))
        self.ind += 1
        self.put("_k_own = %r" % s.class_name)
        if s.doc:
            self.put("__doc__ = %r" % str(s.doc))
        for cv, dcl in info["attrs"]:
            inner = unptr(dcl)[0]
            if inner.name in ("__weakref__", "__dict__"):
                continue
            t = self.typ(cv.base_type, dcl)
            self.put("%s = _k_attr(%r, %s)" % (inner.name, inner.name, self.typespec(t)))
        saved = self.scopes, self.fn
        self.scopes = self.scopes + [{}]
        self.fn = None
        for x in stmts(s.body):
            self.s(x, s.class_name)
        self.scopes, self.fn = saved
        self.ind -= 1

    def s_PropertyNode(self, s):
        names = {}
        for x in stmts(s.body):
            if isinstance(x, N.DefNode):
                nm = "_kprop_%s_%s" % (x.name.strip("_"), s.name)
                decs, cdiv = self.decorators(x)
                self.func(x, nm, x.args, x.star_arg, x.starstar_arg, None, self.cls or "x", x.body, decs, cdiv)
                names[x.name] = nm
        self.put("%s = property(%s, %s, %s)" % (s.name, names.get("__get__"), names.get("__set__"),
                                               names.get("__del__")))

    def s_PyClassDefNode(self, s):
        for d in (s.decorators or []):
            self.put("@" + self.e(d.decorator))
        parts = []
        if s.bases is not None:
            parts += [self.e(a) for a in s.bases.args]
        mk = getattr(s, "mkw", None)
        if mk is not None and isinstance(mk, E.DictNode):
            for it in mk.key_value_pairs:
                parts.append("%s=%s" % (it.key.value, self.e(it.value)))
        self.put("class %s(%s):" % (s.name, ", ".join(parts)))
        saved = self.scopes, self.fn, self.rettype
        self.scopes = self.scopes + [{}]
        self.fn = None
        self.body(s.body, cls=s.name)
        self.scopes, self.fn, self.rettype = saved

    # assignments
    def ltype(self, lhs):
        if isinstance(lhs, E.NameNode) and self.scopes:
            if self.infunc():
                return self.scopes[-1].get(lhs.name)
        return None

    def names_in(self, lhs):
        if isinstance(lhs, E.NameNode):
            yield lhs.name
        elif isinstance(lhs, (E.TupleNode, E.ListNode)):
            for a in lhs.args:
                yield from self.names_in(a)
        elif isinstance(lhs, getattr(E, "StarredUnpackingNode", ())):
            yield from self.names_in(lhs.target)

    def recoerce(self, lhs):
        for nm in self.names_in(lhs):
            t = self.scopes[-1].get(nm) if self.infunc() else None
            if t is not None and t[0] not in ("obj", "ptr", "void", "carr"):
                self.put("%s = %s" % (nm, self.k(t, nm)))

    def assign(self, lhs, rhs_text):
        if isinstance(lhs, E.NameNode):
            t = self.ltype(lhs)
            if t is not None:
                rhs_text = self.k(t, rhs_text)
            self.put("%s = %s" % (lhs.name, rhs_text))
        else:
            self.put("%s = %s" % (self.e(lhs), rhs_text))
            if not isinstance(lhs, (E.AttributeNode, E.IndexNode)):
                self.recoerce(lhs)

    def s_SingleAssignmentNode(self, s):
        if isinstance(s.rhs, E.ImportNode):
            mod = s.rhs.module_name.value
            nm = s.lhs.name
            if s.rhs.is_import_as_name:
                self.put("import %s as %s" % (mod, nm))
            elif "." in mod:
                self.put("import %s" % mod)
            else:
                self.put("import %s as %s" % (mod, nm) if mod != nm else "import %s" % mod)
            return
        self.assign(s.lhs, self.e(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        t = self.newtmp()
        self.put("%s = %s" % (t, self.e(s.rhs)))
        for l in s.lhs_list:
            self.assign(l, t)

    def s_InPlaceAssignmentNode(self, s):
        lhs = s.lhs
        t = self.ltype(lhs)
        op = s.operator
        if t is not None and t[0] in NUMERIC:
            self.put("%s = %s" % (lhs.name, self.k(t, self.binop(op, lhs.name, "(%s)" % self.e(s.rhs)))))
            return
        if op == "/" and self.cdiv:
            l = self.e(lhs)
            self.put("%s = %s" % (l, self.binop(op, l, self.e(s.rhs))))
            return
        self.put("%s %s= %s" % (self.e(lhs), op, self.e(s.rhs)))

    def s_ExprStatNode(self, s):
        self.put(self.e(s.expr))

    def s_ReturnStatNode(self, s):
        if s.value is None:
            self.put("return")
            return
        v = self.e(s.value)
        if self.rettype is not None and self.rettype[0] not in ("obj", "void", "ptr"):
            v = self.k(self.rettype, v)
        self.put("return " + v)

    def s_IfStatNode(self, s):
        # elif chains are emitted as elif: conditions carry no side statements
        first = True
        for c in s.if_clauses:
            self.put("%s %s:" % ("if" if first else "elif", self.e(c.condition)))
            first = False
            self.body(c.body, self.cls)
        if s.else_clause is not None:
            self.put("else:")
            self.body(s.else_clause, self.cls)

    def s_ForInStatNode(self, s):
        self.put("for %s in %s:" % (self.target(s.target), self.e(s.iterator.sequence)))
        self.ind += 1
        n = len(self.lines)
        self.recoerce(s.target)
        for x in stmts(s.body):
            self.s(x, None)
        if len(self.lines) == n:
            self.put("pass")
        self.ind -= 1
        if s.else_clause is not None:
            self.put("else:")
            self.body(s.else_clause)

    def s_ForFromStatNode(self, s):
        raise Unsupported("for-from loop at %s" % (s.pos,))

    def s_WhileStatNode(self, s):
        self.put("while %s:" % (self.e(s.condition) if s.condition is not None else "True"))
        self.body(s.body)
        if s.else_clause is not None:
            self.put("else:")
            self.body(s.else_clause)

    def s_BreakStatNode(self, s):
        self.put("break")

    def s_ContinueStatNode(self, s):
        self.put("continue")

    def s_RaiseStatNode(self, s):
        if s.exc_type is None:
            self.put("raise")
            return
        x = self.e(s.exc_type)
        if s.exc_value is not None:
            x = "%s(%s)" % (x, self.e(s.exc_value))
        if s.cause is not None:
            x += " from " + self.e(s.cause)
        self.put("raise " + x)

    def s_ReraiseStatNode(self, s):
        self.put("raise")

    def s_AssertStatNode(self, s):
        v = getattr(s, "value", None)
        self.put("assert %s%s" % (self.e(s.condition), ", " + self.e(v) if v is not None else ""))

    def s_DelStatNode(self, s):
        self.put("del " + ", ".join(self.e(a) for a in s.args))

    def s_GlobalNode(self, s):
        self.put("global " + ", ".join(s.names))

    def s_NonlocalNode(self, s):
        self.put("nonlocal " + ", ".join(s.names))

    def s_WithStatNode(self, s):
        x = self.e(s.manager)
        if isinstance(s.manager, E.NameNode) and s.manager.name in ("nogil", "gil"):
            self.put("if True:")
        else:
            self.put("with %s%s:" % (x, " as " + self.target(s.target) if s.target is not None else ""))
        body = s.body
        self.body(body)

    def s_GILStatNode(self, s):
        self.put("if True:")
        self.body(s.body)

    def s_TryExceptStatNode(self, s):
        self.put("try:")
        self.body(s.body)
        for c in s.except_clauses:
            pat = ""
            if c.pattern:
                if isinstance(c.pattern, (list, tuple)):
                    ps = [self.e(p) for p in c.pattern]
                    pat = " " + (ps[0] if len(ps) == 1 else "(%s)" % ", ".join(ps))
                else:
                    pat = " " + self.e(c.pattern)
            if c.target is not None:
                pat += " as " + self.target(c.target)
            self.put("except%s:" % pat)
            self.body(c.body)
        if s.else_clause is not None:
            self.put("else:")
            self.body(s.else_clause)

    def s_TryFinallyStatNode(self, s):
        self.put("try:")
        self.body(s.body)
        self.put("finally:")
        self.body(s.finally_clause)

    def target(self, t):
        if isinstance(t, (E.TupleNode, E.ListNode)):
            return "(%s,)" % ", ".join(self.target(a) for a in t.args)
        return self.e(t)

    # ------------------------------------------------------------------ expressions
    def e(self, x):
        m = getattr(self, "e_" + type(x).__name__, None)
        if m is None:
            raise Unsupported("%s: expression %s at %s" % (self.mi.name, type(x).__name__, x.pos))
        return m(x)

    def e_IntNode(self, x):
        v = x.value
        return str(int(v, 0)) if not (v.isdigit() and v.startswith("0") and v != "0") else str(int(v, 8))

    def e_FloatNode(self, x):
        return "(%s)" % x.value if x.value not in ("inf", "nan") else "float(%r)" % x.value

    def e_ImagNode(self, x):
        return "%sj" % x.value

    def e_NoneNode(self, x):
        return "None"

    def e_NullNode(self, x):
        return "None"

    def e_BoolNode(self, x):
        return str(bool(x.value))

    def e_EllipsisNode(self, x):
        return "..."

    def e_UnicodeNode(self, x):
        return repr(str(x.value))

    def e_StringNode(self, x):
        return repr(str(x.value))

    def e_IdentifierStringNode(self, x):
        return repr(str(x.value))

    def e_BytesNode(self, x):
        return repr(bytes(x.value, "latin-1") if isinstance(x.value, str) else bytes(x.value))

    def e_CharNode(self, x):
        return str(ord(x.value))

    def e_NameNode(self, x):
        return x.name

    def e_AttributeNode(self, x):
        return "%s.%s" % (self.e(x.obj), x.attribute)

    def args(self, lst):
        out = []
        for a in lst:
            out.append(self.e(a))
        return out

    def e_SimpleCallNode(self, x):
        a = list(x.args or [])
        if isinstance(x.function, E.NameNode) and x.function.name in ("malloc", "calloc"):
            return "_k_malloc(%s)" % ", ".join(self.args(a))
        return "%s(%s)" % (self.e(x.function), ", ".join(self.args(a)))

    def pos_args(self, node, out):
        if node is None:
            return
        if isinstance(node, E.AddNode):
            self.pos_args(node.operand1, out)
            self.pos_args(node.operand2, out)
        elif isinstance(node, E.TupleNode):
            for a in node.args:
                out.append(self.e(a))
        elif isinstance(node, E.AsTupleNode):
            out.append("*" + self.e(node.arg))
        elif isinstance(node, E.MergedSequenceNode):
            for a in node.args:
                self.pos_args(a, out)
        else:
            out.append("*" + self.e(node))

    def kw_args(self, node, out):
        if node is None:
            return
        if isinstance(node, E.MergedDictNode):
            for a in node.keyword_args:
                self.kw_args(a, out)
        elif isinstance(node, E.DictNode):
            for it in node.key_value_pairs:
                out.append("%s=%s" % (it.key.value, self.e(it.value)))
        else:
            out.append("**" + self.e(node))

    def e_GeneralCallNode(self, x):
        out = []
        self.pos_args(x.positional_args, out)
        self.kw_args(x.keyword_args, out)
        return "%s(%s)" % (self.e(x.function), ", ".join(out))

    def e_TupleNode(self, x):
        return "(%s)" % "".join(self.e(a) + ", " for a in x.args)

    def e_ListNode(self, x):
        return "[%s]" % ", ".join(self.e(a) for a in x.args)

    def e_SetNode(self, x):
        return "{%s}" % ", ".join(self.e(a) for a in x.args) if x.args else "set()"

    def e_MergedSequenceNode(self, x):
        out = []
        for a in x.args:
            if isinstance(a, (E.TupleNode, E.ListNode, E.SetNode)):
                out += [self.e(b) for b in a.args]
            elif isinstance(a, E.AsTupleNode):
                out.append("*" + self.e(a.arg))
            else:
                out.append("*" + self.e(a))
        n = x.type.name if hasattr(x.type, "name") else "list"
        b = {"list": "[%s]", "set": "{%s}", "tuple": "(%s,)"}[n]
        return b % ", ".join(out)

    def e_StarredUnpackingNode(self, x):
        return "*" + self.e(x.target)

    def e_DictNode(self, x):
        return "{%s}" % ", ".join("%s: %s" % (self.e(i.key), self.e(i.value)) for i in x.key_value_pairs)

    def e_MergedDictNode(self, x):
        parts = []
        for a in x.keyword_args:
            if isinstance(a, E.DictNode):
                parts += ["%s: %s" % (self.e(i.key), self.e(i.value)) for i in a.key_value_pairs]
            else:
                parts.append("**" + self.e(a))
        return "{%s}" % ", ".join(parts)

    def e_IndexNode(self, x):
        return "%s[%s]" % (self.e(x.base), self.index(x.index))

    def index(self, i):
        if isinstance(i, E.TupleNode):
            if not i.args:
                return "()"
            return ", ".join(self.index1(a) for a in i.args) + ("," if len(i.args) == 1 else "")
        return self.index1(i)

    def index1(self, i):
        if isinstance(i, E.SliceNode):
            return self.e_SliceNode(i)
        return self.e(i)

    def e_SliceNode(self, i):
        f = lambda v: "" if (v is None or isinstance(v, E.NoneNode)) else self.e(v)
        s = f(i.start) + ":" + f(i.stop)
        if not (i.step is None or isinstance(i.step, E.NoneNode)):
            s += ":" + f(i.step)
        return s

    def e_SliceIndexNode(self, x):
        f = lambda v: "" if (v is None or isinstance(v, E.NoneNode)) else self.e(v)
        return "%s[%s:%s]" % (self.e(x.base), f(x.start), f(x.stop))

    def binop(self, op, a, b):
        if op in ("/", "//", "%") and self.cdiv:
            return "_k_cdiv(%r, %s, %s)" % (op, a, b)
        return "(%s %s %s)" % (a, op, b)

    def generic_binop(self, x):
        return self.binop(x.operator, self.e(x.operand1), self.e(x.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = generic_binop
    e_IntBinopNode = e_BitwiseOrNode = e_MatMultNode = generic_binop
    e_BinopNode = e_NumBinopNode = generic_binop

    def e_BoolBinopNode(self, x):
        return "(%s %s %s)" % (self.e(x.operand1), x.operator, self.e(x.operand2))

    def e_PrimaryCmpNode(self, x):
        s = "(%s %s %s" % (self.e(x.operand1), x.operator.replace("_", " "), self.e(x.operand2))
        c = x.cascade
        while c is not None:
            s += " %s %s" % (c.operator.replace("_", " "), self.e(c.operand2))
            c = c.cascade
        return s + ")"

    def e_NotNode(self, x):
        return "(not %s)" % self.e(x.operand)

    def e_UnaryMinusNode(self, x):
        return "(-%s)" % self.e(x.operand)

    def e_UnaryPlusNode(self, x):
        return "(+%s)" % self.e(x.operand)

    def e_TildeNode(self, x):
        return "(~%s)" % self.e(x.operand)

    def e_CondExprNode(self, x):
        c = x.condition if hasattr(x, "condition") else x.test
        return "(%s if %s else %s)" % (self.e(x.true_val), self.e(c), self.e(x.false_val))

    def e_AmpersandNode(self, x):
        o = x.operand
        if isinstance(o, E.IndexNode):
            return "_k_addr(%s, %s)" % (self.e(o.base), self.index(o.index))
        return self.e(o)

    def e_SizeofTypeNode(self, x):
        t = self.typ(x.base_type, x.declarator)
        return {"d": "8", "i": "4", "b": "4"}.get(t[0], "8")

    def e_SizeofVarNode(self, x):
        return "8"

    def e_TypecastNode(self, x):
        t = self.typ(x.base_type, x.declarator)
        v = self.e(x.operand)
        if t[0] == "ptr":
            if t[1][0] in NUMERIC:
                return "_k_cast_ptr(%s, %r)" % (v, t[1][0])
            return v
        if t[0] == "i":
            return "_k_trunc(%s)" % v
        if t[0] == "cls":
            if x.typecheck:
                return "_k_t(%s, %s)" % (v, t[1])
            return v
        if t[0] in ("d", "b", "mv"):
            return self.k(t, v)
        return v

    def e_JoinedStrNode(self, x):
        out = []
        for v in x.values:
            if isinstance(v, E.FormattedValueNode):
                out.append(self.e(v))
            else:
                out.append(repr(str(v.value)))
        return "''.join((%s))" % "".join(o + ", " for o in out)

    def e_FormattedValueNode(self, x):
        spec = "''"
        if x.format_spec is not None:
            spec = self.e(x.format_spec)
        return "_k_fmt(%s, %r, %s)" % (self.e(x.value), x.conversion_char, spec)

    def loop_parts(self, loop):
        """Yield ' for T in S if C' clauses and the innermost expression node."""
        s = ""
        node = loop
        while True:
            if isinstance(node, N.ForInStatNode):
                s += " for %s in %s" % (self.target(node.target), self.e(node.iterator.sequence))
                node = node.body
            elif isinstance(node, N.IfStatNode):
                s += " if %s" % self.e(node.if_clauses[0].condition)
                node = node.if_clauses[0].body
            elif isinstance(node, N.StatListNode) and len(node.stats) == 1:
                node = node.stats[0]
            elif isinstance(node, N.ExprStatNode):
                node = node.expr
            else:
                return s, node

    def e_ComprehensionNode(self, x):
        s, node = self.loop_parts(x.loop)
        if isinstance(node, E.DictComprehensionAppendNode):
            it = getattr(node, "dict_item", None) or node
            k, v = (it.key, it.value) if hasattr(it, "key") else (node.key_expr, node.value_expr)
            return "{%s: %s%s}" % (self.e(k), self.e(v), s)
        n = x.type.py_type_name() if hasattr(x.type, "py_type_name") else "list"
        b = {"list": "[%s%s]", "set": "{%s%s}"}[n]
        return b % (self.e(node.expr), s)

    def e_GeneratorExpressionNode(self, x):
        loop = x.def_node.gbody.body if getattr(x, "loop", None) is None else x.loop
        s, node = self.loop_parts(loop)
        arg = node.arg if isinstance(node, E.YieldExprNode) else node
        return "(%s%s)" % (self.e(arg), s)

    def e_InlinedGeneratorExpressionNode(self, x):
        return self.e(x.gen)

    def e_YieldExprNode(self, x):
        return "(yield %s)" % (self.e(x.arg) if x.arg is not None else "")

    def e_YieldFromExprNode(self, x):
        return "(yield from %s)" % self.e(x.arg)

    def e_LambdaNode(self, x):
        parts = []
        args = x.args
        seen = False
        for a in args:
            nm, t, d, nn, kw = self.argdecl(a, False)
            if kw and not seen:
                seen = True
                parts.append("*" + x.star_arg.name if x.star_arg is not None else "*")
            parts.append(nm + ("=" + self.e(d) if d is not None else ""))
        if x.star_arg is not None and not seen:
            parts.append("*" + x.star_arg.name)
        if x.starstar_arg is not None:
            parts.append("**" + x.starstar_arg.name)
        return "(lambda %s: %s)" % (", ".join(parts), self.e(x.result_expr))

    def e_AsTupleNode(self, x):
        return "*" + self.e(x.arg)

    def e_ImportNode(self, x):
        return "__import__(%r)" % x.module_name.value

    def e_AssignmentExpressionNode(self, x):
        return "(%s := %s)" % (x.target_name if hasattr(x, "target_name") else x.assignment.lhs.name,
                               self.e(x.rhs))

    def e_CythonArrayNode(self, x):
        raise Unsupported("cython array cast at %s" % (x.pos,))


def lower(prog, modname):
    mi = prog.get(modname)
    g = Gen(prog, mi)
    return g.module()


if __name__ == "__main__":
    import sys
    prog = Program(sys.argv[1], sys.argv[2])
    out = sys.argv[3]
    os.makedirs(out, exist_ok=True)
    for m, (pyx, pxd) in sorted(prog.mods.items()):
        if pyx is None:
            continue
        src = lower(prog, m)
        open(os.path.join(out, m + ".py"), "w").write(src)
        import ast
        ast.parse(src)
        print(m, len(src))
