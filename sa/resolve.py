"""E4: resolution of names, attributes, call signatures, return components,
definite assignment and format strings over every function of the package.

Type inference is flow-insensitive per function; a report is made only when
*every* type an expression can have is known and none of them supports the
operation (names, attributes, calls), or when a path assigns too late."""
import ast, builtins, json, os, re, symtable
from .repo import Program, qualname, AnalysisBroken, SKIP, PKG

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_LIB = None


def libinfo():
    global _LIB
    if _LIB is None:
        _LIB = json.load(open(os.path.join(HERE, "data", "libnames.json")))
        _LIB["mods"] = {k: set(v) for k, v in _LIB["mods"].items()}
        _LIB["types"] = {k: set(v) for k, v in _LIB["types"].items()}
        u = set()
        for v in _LIB["types"].values():
            u |= v
        _LIB["universe"] = u
    return _LIB


UNK = frozenset(["?"])
NONE = ("py", "NoneType")


def isclsm(f):
    return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(f, "decorator_list", []))


def T(*x):
    return frozenset(x)


class Resolver(object):
    def __init__(self, prog):
        self.prog = prog
        self.lib = libinfo()
        self.subclasses = {}
        for c in prog.classes.values():
            for b in prog.mro(c.name):
                self.subclasses.setdefault(b.name, set()).add(c.name)
        self.cls_attrs = {}
        self.open_cls = set()
        self.attr_assigns = {}       # cls -> attr -> [(func, value expr or None)]
        for c in prog.classes.values():
            self._collect_cls(c)
        self.envs = {}
        self._busy = set()
        self._rbusy = set()
        self._rcache = {}
        self.scopes = {}
        self.param_types = {}
        self.pkg_attr_universe = set()
        for c in self.cls_attrs:
            self.pkg_attr_universe |= self.cls_attrs[c]
        # attributes attached to objects from outside (x.foo = ...) anywhere
        for m in prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.pkg_attr_universe.add(n.attr)
        self.call_index = None

    # ------------------------------------------------------------ classes
    def _collect_cls(self, c):
        at = set(c._methods)
        asg = self.attr_assigns.setdefault(c.name, {})
        for b in c.bases:
            bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else "?")
            if bn not in self.prog.classes and bn != "object":
                if bn.endswith("Error") or bn == "Exception":
                    at |= self.lib["types"]["exception"]
                else:
                    self.open_cls.add(c.name)
        for s in c.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        at.add(t.id)
                        asg.setdefault(t.id, []).append((None, s.value))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                at.add(s.target.id)
        for f in c._methods.values():
            if not f.args.args:
                continue
            self_ = f.args.args[0].arg
            deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
            if "staticmethod" in deco:
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == self_:
                    at.add(n.attr)
                    p = getattr(n, "_parent", None)
                    v = p.value if isinstance(p, ast.Assign) and n in p.targets else None
                    asg.setdefault(n.attr, []).append((f, v))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        at.add(n.args[1].value)
                    else:
                        self.open_cls.add(c.name)
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    self.open_cls.add(c.name)
        ga = c._methods.get("__getattr__") or c._methods.get("__getattribute__")
        if ga is not None:
            an = ga.args.args[1].arg if len(ga.args.args) > 1 else None
            lits = set()
            for n in ast.walk(ga):
                if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == an:
                    for k in n.comparators:
                        for x in ast.walk(k):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                lits.add(x.value)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr":
                    self.open_cls.add(c.name)
            at |= lits
            if not lits:
                self.open_cls.add(c.name)
        at |= set(dir(object)) | {"__dict__", "__class__", "__name__", "__doc__"}
        self.cls_attrs[c.name] = at

    def family(self, cname):
        """(names of all classes whose attributes an instance seen as cname may have)"""
        fam = set()
        for s in self.subclasses.get(cname, {cname}):
            for b in self.prog.mro(s):
                fam.add(b.name)
        return fam

    def has_attr(self, cname, attr):
        for c in self.family(cname):
            if c in self.open_cls or attr in self.cls_attrs[c]:
                return True
        return False

    # ------------------------------------------------------------ scopes
    def enclosing(self, n):
        p = getattr(n, "_parent", None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda, ast.Module)):
            p = getattr(p, "_parent", None)
        return p

    def own_cls(self, fn):
        return getattr(fn, "_cls", None)

    def scope(self, fn):
        """binding expressions of the local names of a function: name -> list of (kind, node)"""
        if fn in self.scopes:
            return self.scopes[fn]
        b, glob = {}, set()
        a = fn.args
        allp = a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])
        for p in allp:
            b.setdefault(p.arg, []).append(("param", p))

        def tgt(t, kind, v):
            if isinstance(t, ast.Name):
                b.setdefault(t.id, []).append((kind, v))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, e in enumerate(t.elts):
                    if kind == "assign":
                        tgt(e, ("elt", i, len(t.elts)), v)
                    else:
                        tgt(e, "opaque", v)
            elif isinstance(t, ast.Starred):
                tgt(t.value, "opaque", v)

        def visit(n, top=False):
            if not top:
                if isinstance(n, ast.FunctionDef):
                    b.setdefault(n.name, []).append(("def", n))
                    return
                if isinstance(n, ast.ClassDef):
                    b.setdefault(n.name, []).append(("opaque", n))
                    return
                if isinstance(n, ast.Lambda):
                    return
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    # own scope, but walrus-free: handled by names()
                    for c in ast.iter_child_nodes(n):
                        visit(c)
                    return
            if isinstance(n, ast.comprehension):
                visit(n.iter)
                for c in n.ifs:
                    visit(c)
                return
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t, "assign", n.value)
            elif isinstance(n, ast.AugAssign):
                tgt(n.target, "aug", n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                tgt(n.target, "assign", n.value)
            elif isinstance(n, ast.For):
                tgt(n.target, "opaque", n)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if it.optional_vars is not None:
                        tgt(it.optional_vars, "opaque", n)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                b.setdefault(n.name, []).append(("opaque", n))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    b.setdefault(al.asname or al.name.split(".")[0], []).append(("import", (n, al)))
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target, "assign", n.value)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            for c in ast.iter_child_nodes(n):
                visit(c)
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for s in body:
            visit(s)
        for g in glob:
            b.pop(g, None)
        self.scopes[fn] = b
        return b

    # ------------------------------------------------------------ types
    def name_type(self, mod, fn, name, at=None):
        """type set of a name as seen from inside fn"""
        # comprehension variables
        p = at
        while p is not None and p is not fn:
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in p.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name) and x.id == name:
                            return UNK
            p = getattr(p, "_parent", None)
        f = fn
        while f is not None and not isinstance(f, ast.Module):
            sc = self.scope(f)
            if name in sc:
                return self.binding_type(mod, f, name)
            f = self.enclosing(f)
        r = self.prog.resolve_name(mod, name)
        if r is None:
            if name in self.lib["builtins"] or hasattr(builtins, name):
                return T(("lib", "builtins." + name))
            return UNK
        return self.wrap(r, mod)

    def wrap(self, r, mod):
        if isinstance(r, ast.FunctionDef):
            return T(("fn", r, False))
        if isinstance(r, ast.ClassDef):
            return T(("cls", r.name))
        if r is None:
            return UNK
        if r[0] == "lib":
            return T(("lib", r[1]))
        if r[0] == "pkgmod":
            return T(("pkgmod", r[1].name))
        if r[0] == "const":
            return self.infer(mod, None, r[1])
        return UNK

    def binding_type(self, mod, f, name):
        key = (f, name)
        if key in self.envs:
            return self.envs[key]
        if key in self._busy:
            return UNK
        self._busy.add(key)
        out = set()
        for kind, v in self.scope(f)[name]:
            if kind == "param":
                out |= self.param_type(mod, f, v.arg)
            elif kind == "assign":
                out |= self.infer(mod, f, v)
            elif isinstance(kind, tuple):
                out |= self.elt(self.infer(mod, f, v), kind[1])
            elif kind == "def":
                out.add(("fn", v, False))
            elif kind == "import":
                n, al = v
                if isinstance(n, ast.Import):
                    out.add(("lib", al.name if al.asname else al.name.split(".")[0]))
                else:
                    base = (n.module or "")
                    if n.level:
                        base = PKG + ("." + base if base else "")
                    if base.startswith(PKG):
                        b = base[len(PKG) + 1:]
                        if b in self.prog.mods:
                            out |= self.wrap(self.prog.resolve_name(self.prog.mods[b], al.name), mod)
                        elif b == "" and al.name in self.prog.mods:
                            out.add(("pkgmod", al.name))
                        else:
                            out.add("?")
                    else:
                        out.add(("lib", base + "." + al.name))
            else:
                out.add("?")
        self._busy.discard(key)
        r = frozenset(out) if out else UNK
        if not self._busy:
            self.envs[key] = r
        return r

    def param_type(self, mod, f, name):
        c = self.own_cls(f)
        args = f.args.posonlyargs + f.args.args
        if c is not None and args and args[0].arg == name and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
            if any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.decorator_list):
                return T(("cls", c.name))
            return T(("inst", c.name))
        if f in self.param_types:
            return self.param_types[f].get(name, UNK)
        return UNK

    def elt(self, ts, i):
        out = set()
        for t in ts:
            if isinstance(t, tuple) and t[0] == "tup":
                out |= (t[1][i] if i < len(t[1]) else UNK)
            else:
                out.add("?")
        return frozenset(out)

    def infer(self, mod, f, e, consts=None):
        if e is None:
            return UNK
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return T(NONE)
            if isinstance(v, str):
                return T(("py", "str"))
            if isinstance(v, bool):
                return T(("py", "bool"))
            return T(("py", type(v).__name__)) if type(v).__name__ in ("int", "float", "complex") else UNK
        if isinstance(e, ast.Name):
            return self.name_type(mod, f, e.id, e)
        if isinstance(e, ast.Attribute):
            return self.attr_type(mod, self.infer(mod, f, e.value), e.attr)
        if isinstance(e, (ast.Tuple,)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return UNK
            return T(("tup", tuple(self.infer(mod, f, x) for x in e.elts)))
        if isinstance(e, (ast.List, ast.ListComp)):
            return T(("py", "list"))
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return T(("py", "dict"))
        if isinstance(e, ast.Lambda):
            return T(("fn", e, False))
        if isinstance(e, ast.IfExp):
            return self.infer(mod, f, e.body) | self.infer(mod, f, e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.infer(mod, f, v)
            return frozenset(out)
        if isinstance(e, ast.JoinedStr):
            return T(("py", "str"))
        if isinstance(e, ast.Compare):
            return UNK
        if isinstance(e, ast.Subscript):
            b = self.infer(mod, f, e.value)
            i = e.slice
            if isinstance(i, ast.Constant) and isinstance(i.value, int) and all(isinstance(t, tuple) and t[0] == "tup" for t in b):
                out = set()
                for t in b:
                    if -len(t[1]) <= i.value < len(t[1]):
                        out |= t[1][i.value]
                return frozenset(out) or UNK
            return UNK
        if isinstance(e, ast.Call):
            return self.call_type(mod, f, e)
        return UNK

    def attr_type(self, mod, base, attr):
        out = set()
        for t in base:
            if t == "?":
                out.add("?")
            elif t[0] == "inst" or t[0] == "cls":
                r = self.class_attr_type(t[1], attr)
                if t[0] == "cls":
                    r = frozenset(("fn", x[1], isclsm(x[1])) if isinstance(x, tuple) and x[0] == "fn" else x for x in r)
                out |= r
            elif t[0] == "super":
                m = self.prog.method(t[2], attr, after=t[1])
                out |= T(("fn", m, True)) if m is not None else UNK
            elif t[0] == "pkgmod":
                r = self.prog.resolve_name(self.prog.mods[t[1]], attr)
                out |= self.wrap(r, self.prog.mods[t[1]])
            elif t[0] == "lib":
                d = t[1] + "." + attr
                out.add(("lib", d))
            elif t[0] == "py":
                out.add(("pym", t[1], attr))
            else:
                out.add("?")
        return frozenset(out) or UNK

    def class_attr_type(self, cname, attr):
        for c in self.prog.mro(cname):
            if attr in c._methods:
                m = c._methods[attr]
                if any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list):
                    return UNK
                out = {("fn", m, not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list))}
                # overridden in subclasses
                for s in self.subclasses.get(cname, ()):
                    sm = self.prog.classes[s]._methods.get(attr)
                    if sm is not None and s != cname:
                        out.add(("fn", sm, True))
                # also stored as data somewhere -> unknown
                for k in self.family(cname):
                    if attr in self.attr_assigns.get(k, {}):
                        out.add("?")
                return frozenset(out)
        out = set()
        key = ("attr", cname, attr)
        if key in self._busy:
            return UNK
        self._busy.add(key)
        found = False
        for k in self.family(cname):
            for f, v in self.attr_assigns.get(k, {}).get(attr, []):
                found = True
                if v is None:
                    out.add("?")
                else:
                    md = self.prog.classes[k]._mod
                    out |= self.infer(md, f, v)
        for k in self.family(cname):
            m = self.prog.classes[k]._methods.get(attr)
            if m is not None and not found:
                out.add(("fn", m, True))
        # assigned from outside the class
        if attr in (self._ext_attrs if hasattr(self, "_ext_attrs") else self._calc_ext()):
            out.add("?")
        self._busy.discard(key)
        return frozenset(out) or UNK

    def _calc_ext(self):
        ext = set()
        for m in self.prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                        ext.add(n.attr)
        self._ext_attrs = ext
        return ext

    def call_type(self, mod, f, e):
        ft = self.infer(mod, f, e.func)
        # super(...)
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            g = f
            while g is not None and not isinstance(g, ast.Module) and self.own_cls(g) is None:
                g = self.enclosing(g)
            if g is not None and self.own_cls(g) is not None:
                c = self.own_cls(g).name
                if e.args and isinstance(e.args[0], ast.Name):
                    return T(("super", e.args[0].id, c))
                return T(("super", c, c))
            return UNK
        out = set()
        for t in ft:
            if t == "?":
                out.add("?")
            elif t[0] == "cls":
                out.add(("inst", t[1]))
            elif t[0] == "fn":
                out |= self.ret_type(t[1], e, t[2])
            elif t[0] == "lib":
                out |= self.lib_call(t[1], mod, f, e)
            elif t[0] == "pym":
                out |= self.pym_call(t[1], t[2])
            else:
                out.add("?")
        return frozenset(out) or UNK

    ND = set("zeros ones empty zeros_like empty_like ones_like asarray array eye identity dot tensordot vectorize_ arange kron fromfunction asfortranarray ascontiguousarray append concatenate".split())
    TUPLEN = {"scipy.linalg.svd": None, "scipy.linalg.qr": None, "scipy.linalg.eigh": None}

    def lib_call(self, d, mod, f, e):
        n = d.rsplit(".", 1)[-1]
        b = d.rsplit(".", 1)[0]
        if d in ("copy.copy", "copy.deepcopy") and e.args:
            return self.infer(mod, f, e.args[0])
        if b in ("numpy", "scipy"):
            if n in self.ND:
                return T(("py", "ndarray"))
            if n == "finfo":
                return UNK
        if d == "logging.getLogger":
            return T(("py", "logger"))
        if d == "builtins.range":
            return UNK
        if d in ("builtins.list", "builtins.sorted"):
            return T(("py", "list"))
        if d == "builtins.len":
            return T(("py", "int"))
        kw = {k.arg: k.value for k in e.keywords}
        def kwc(k, dflt):
            v = kw.get(k)
            return dflt if v is None else (v.value if isinstance(v, ast.Constant) else "?")
        if d == "scipy.linalg.svd" or d == "numpy.linalg.svd":
            u = kwc("compute_uv", True)
            if u is True and len(e.args) == 1:
                return T(("tup", (UNK, UNK, UNK)))
        if d == "scipy.linalg.eigh":
            v = kwc("eigvals_only", False)
            if v is False and len(e.args) == 1:
                return T(("tup", (UNK, UNK)))
        if d == "scipy.linalg.eig" and len(e.args) == 1 and not e.keywords:
            return T(("tup", (UNK, UNK)))
        if d == "scipy.linalg.qr" and not kw.get("pivoting"):
            m = kwc("mode", "full")
            if m in ("full", "economic") and len(e.args) == 1:
                return T(("tup", (UNK, UNK)))
        if d.startswith("scipy.sparse.linalg.") and n in ("bicgstab", "gmres", "lgmres", "cg", "minres", "qmr", "bicg"):
            return T(("tup", (UNK, UNK)))
        if d == "scipy.sparse.linalg.eigs" or d == "scipy.sparse.linalg.eigsh":
            v = kwc("return_eigenvectors", True)
            if v is True:
                return T(("tup", (UNK, UNK)))
        if d == "numpy.linalg.eigh":
            return T(("tup", (UNK, UNK)))
        return UNK

    def pym_call(self, ty, n):
        if ty == "ndarray" and n in ("reshape", "conj", "copy", "ravel", "transpose", "dot", "astype"):
            return UNK if n == "dot" else T(("py", "ndarray"))
        return UNK

    # --- returns
    def returns(self, fn):
        out = []

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, ast.Return):
                out.append(n)
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in fn.body:
            visit(s)
        return out

    def is_gen(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, (ast.Yield, ast.YieldFrom)) and self.enclosing(n) is fn:
                return True
        return False

    def const_args(self, fn, call, bound):
        """values of parameters that are literal constants in this call (or defaults)"""
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        vals = {}
        defs = fn.args.defaults
        for p, d in zip(ps[len(ps) - len(defs):], defs):
            if isinstance(d, ast.Constant):
                vals[p] = d.value
        for p, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if isinstance(d, ast.Constant):
                vals[p.arg] = d.value
        if call is None:
            return {}
        if isinstance(fn, ast.Lambda):
            return {}
        if any(isinstance(a, ast.Starred) for a in call.args):
            return {}
        pp = ps[1:] if bound else ps
        for p, a in zip(pp, call.args):
            if isinstance(a, ast.Constant):
                vals[p] = a.value
            else:
                vals.pop(p, None)
        for k in call.keywords:
            if k.arg is None:
                continue
            if isinstance(k.value, ast.Constant):
                vals[k.arg] = k.value.value
            else:
                vals.pop(k.arg, None)
        for p in list(vals):
            if p not in ps and p not in [a.arg for a in fn.args.kwonlyargs]:
                vals.pop(p)
        # a local assigned once, to a literal
        sc = self.scope(fn)
        once = {n: b[0][1].value for n, b in sc.items() if len(b) == 1 and b[0][0] == "assign" and isinstance(b[0][1], ast.Constant)}
        # a parameter that is reassigned is not constant
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                vals.pop(n.id, None)
        vals.update(once)
        return vals

    def ctest(self, t, vals):
        if isinstance(t, ast.Name) and t.id in vals:
            return bool(vals[t.id])
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.ctest(t.operand, vals)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.ctest(v, vals) for v in t.values]
            if isinstance(t.op, ast.And):
                if False in rs:
                    return False
                return True if all(r is True for r in rs) else None
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in vals and isinstance(t.comparators[0], ast.Constant):
            a, b = vals[t.left.id], t.comparators[0].value
            if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return a == b and (a is None) == (b is None)
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                return not (a == b and (a is None) == (b is None))
        return None

    def reach_returns(self, fn, vals):
        """(list of reachable return statements, may fall off the end)"""
        out = []

        def seq(body):
            for s in body:
                if not stmt(s):
                    return False
            return True

        def stmt(s):
            """True if control may continue after s"""
            if isinstance(s, ast.Return):
                out.append(s)
                return False
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
                return False
            if isinstance(s, (ast.Break, ast.Continue)):
                return False
            if isinstance(s, ast.If):
                c = self.ctest(s.test, vals)
                a = seq(s.body) if c is not False else False
                b = seq(s.orelse) if c is not True else False
                return a or b
            if isinstance(s, (ast.For, ast.While)):
                seq(s.body)
                has_break = any(isinstance(x, ast.Break) for x in ast.walk(s))
                o = seq(s.orelse) if s.orelse else True
                if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                    return has_break
                return o or has_break
            if isinstance(s, ast.Try):
                a = seq(s.body)
                if a and s.orelse:
                    a = seq(s.orelse)
                hs = [seq(h.body) for h in s.handlers]
                r = a or any(hs)
                if s.finalbody:
                    r = seq(s.finalbody) and r
                return r
            if isinstance(s, ast.With):
                return seq(s.body)
            return True
        fall = seq(fn.body)
        return out, fall

    def ret_type(self, fn, call, bound):
        if isinstance(fn, ast.Lambda):
            return UNK
        if self.is_gen(fn):
            return T(("py", "generator"))
        vals = self.const_args(fn, call, bound)
        key = (fn, tuple(sorted((k, repr(v)) for k, v in vals.items())))
        if key in self._rcache:
            return self._rcache[key]
        if key in self._rbusy:
            return UNK
        self._rbusy.add(key)
        rets, fall = self.reach_returns(fn, vals)
        out = set()
        for r in rets:
            if r.value is None:
                out.add(NONE)
            else:
                out |= self.infer(fn._mod if hasattr(fn, "_mod") else self.modof(fn), fn, r.value)
        if fall:
            out.add(NONE)
        if not rets and not fall:
            out = {"?"}          # only raises
        self._rbusy.discard(key)
        r = frozenset(out)
        if not self._rbusy and not self._busy:
            self._rcache[key] = r
        return r

    def modof(self, n):
        p = n
        while p is not None and not isinstance(p, ast.Module):
            if hasattr(p, "_mod"):
                return p._mod
            p = getattr(p, "_parent", None)
        for m in self.prog.mods.values():
            if m.tree is p:
                return m
        return None

    # ------------------------------------------------------------ interprocedural param types
    def flow_params(self, rounds=2):
        for _ in range(rounds):
            acc = {}
            for m in self.prog.mods.values():
                if m.name in SKIP:
                    continue
                for n in ast.walk(m.tree):
                    if not isinstance(n, ast.Call):
                        continue
                    f = self.enclosing(n)
                    f = None if isinstance(f, ast.Module) else f
                    for t in self.infer(m, f, n.func):
                        if t == "?":
                            continue
                        if t[0] == "fn":
                            fn, bound = t[1], t[2]
                        elif t[0] == "cls":
                            fn, bound = self.prog.method(t[1], "__init__"), True
                        else:
                            continue
                        if fn is None:
                            continue
                        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
                        if bound:
                            ps = ps[1:]
                        d = acc.setdefault(fn, {})
                        for p, a in zip(ps, n.args):
                            if isinstance(a, ast.Starred):
                                break
                            d.setdefault(p, set()).update(self.infer(m, f, a))
                        for k in n.keywords:
                            if k.arg:
                                d.setdefault(k.arg, set()).update(self.infer(m, f, k.value))
            self.param_types = {}
            for fn, d in acc.items():
                # keep only class instances and functions; scalars etc. stay unknown
                self.param_types[fn] = {p: frozenset(x for x in ts if x == "?" or x[0] in ("inst", "fn", "cls")) | (frozenset(["?"]) if any(x != "?" and x[0] not in ("inst", "fn", "cls") for x in ts) else frozenset())
                                        for p, ts in d.items() if ts}
            self.envs, self._rcache = {}, {}
