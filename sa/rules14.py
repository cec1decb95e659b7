"""Rules of property C14 over the Resolver."""
import ast, builtins, os, re
from .repo import *
from .resolve import Resolver, NONE, UNK, libinfo
from .defassign import check_function

LITERAL_OK = {"func_name"}


def src(n):
    try:
        s = ast.unparse(n)
    except Exception:
        s = "<%s>" % type(n).__name__
    return s if len(s) < 120 else s[:117] + "..."


def sig_of(fn, bound):
    a = fn.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd]
    if bound and pos:
        req = [x for x in req if x != pos[0]] if req and req[0] == pos[0] else req
        pos = pos[1:]
    elif bound and not pos and not a.vararg:
        return None
    kwonly = [p.arg for p in a.kwonlyargs]
    kwreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, kwonly, kwreq, a.vararg is not None, a.kwarg is not None


def arity_error(sig, call):
    if sig is None:
        return "the method takes no arguments at all, not even the instance it is called on"
    pos, req, kwonly, kwreq, var, kw = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not var:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kwonly and not kw:
            return "no parameter named '%s'" % k.arg
        if k.arg in given:
            return "two values for parameter '%s'" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [r for r in req + kwreq if r not in given]
        if miss:
            return "no value for parameter '%s'" % miss[0]
    return None


def lib_arity_error(sig, call):
    """sig: frozen [[name, kind, hasdefault]]"""
    pos = [p for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "0", "1") or "POSITIONAL" in p[1] and "VAR" not in p[1]]
    var = any("VAR_POSITIONAL" in p[1] for p in sig)
    kw = any("VAR_KEYWORD" in p[1] for p in sig)
    names = [p[0] for p in sig if "VAR" not in p[1] and p[1] != "POSITIONAL_ONLY"]
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not var:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    for k in call.keywords:
        if k.arg is not None and k.arg not in names and not kw:
            return "no parameter named '%s'" % k.arg
        if k.arg is not None and k.arg in [p[0] for p in pos[:n]]:
            return "two values for parameter '%s'" % k.arg
    if not any(isinstance(x, ast.Starred) for x in call.args) and not any(k.arg is None for k in call.keywords):
        given = set(p[0] for p in pos[:n]) | set(k.arg for k in call.keywords)
        for p in pos:
            if not p[2] and p[0] not in given:
                return "no value for parameter '%s'" % p[0]
    return None


def kindname(k):
    return str(k).split(".")[-1]


class Rules(object):
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx
        self.R = Resolver(prog)
        self.R.flow_params()
        self.lib = libinfo()

    def v(self, rule, m, f, node, msg, construct=None):
        q = qualname(f) if f is not None and not isinstance(f, ast.Module) else "<module>"
        self.ctx.violation(rule, m.rel, q, construct or src(node), msg, getattr(node, "lineno", None))

    def closure(self, m, fn):
        """a variable that nested functions subscript must not be bound to a number, bool or None in its scope"""
        subs = {}
        for d in ast.walk(fn):
            if d is not fn and isinstance(d, (ast.FunctionDef, ast.Lambda)) and self.R.enclosing(d) is fn:
                own = {a.arg for a in d.args.args + d.args.kwonlyargs}
                own |= {x.id for x in ast.walk(d) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for x in ast.walk(d):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id not in own:
                        subs.setdefault(x.value.id, d)
        if not subs:
            return
        assigns = [s for s in ast.walk(fn) if isinstance(s, ast.Assign) and self.R.enclosing(s) is fn]
        for name, d in subs.items():
            here = [s for s in assigns if any(isinstance(t, ast.Name) and t.id == name for t in s.targets)]
            if not here:
                continue
            self.ctx.count("shared closure variables")
            cells = [s for s in here if isinstance(s.value, (ast.List, ast.Dict, ast.ListComp, ast.Call))]
            for s in here:
                if cells and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (bool, int, float)):
                    self.v("closure-rebound", m, fn, s, "'%s' is subscripted by the nested function %s(), but is bound to a plain value here" %
                           (name, getattr(d, "name", "<lambda>")), "binding of " + name)

    def run(self):
        for m in self.prog.mods.values():
            if m.name in SKIP:
                continue
            self.names(m)
            for n in ast.walk(m.tree):
                f = self.R.enclosing(n)
                f = None if isinstance(f, ast.Module) else f
                if isinstance(n, (ast.FunctionDef,)):
                    self.ctx.analysed.add("%s:%s" % (m.rel, qualname(n)))
                    for name, node, why in check_function(n):
                        self.v("unassigned-local", m, n, node, "local '%s' may be read before it is assigned (%s)" % (name, why), "read of " + name)
                    self.ctx.count("functions checked for definite assignment")
                    self.method_self(m, n)
                    self.closure(m, n)
                if isinstance(n, ast.Attribute):
                    self.attribute(m, f, n)
                elif isinstance(n, ast.Call):
                    self.call(m, f, n)
                elif isinstance(n, ast.Assign):
                    self.unpack(m, f, n)
                elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                    self.percent(m, f, n)
                elif isinstance(n, ast.Subscript):
                    self.subscript(m, f, n)
                elif isinstance(n, ast.ImportFrom):
                    self.importfrom(m, f, n)
                elif isinstance(n, ast.Raise):
                    self.raise_(m, f, n)
            self.dunder_all(m)
        self.kernels()

    # -------------------------------------------------------------- names
    def names(self, m):
        R = self.R
        modnames = set(m.funcs) | set(m.classes) | set(m.imports) | set(m.consts) | {"__name__", "__file__", "__doc__"}
        for n in ast.walk(m.tree):
            # names bound at module level by loops / with / tuple targets
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and isinstance(R.enclosing(n), ast.Module):
                modnames.add(n.id)
        if any(i == ("from", "ctypes", "*") or (i[0] == "from" and i[2] == "*") for i in m.imports.values()):
            return
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
                continue
            self.ctx.count("name reads resolved")
            if n.id in modnames or n.id in self.lib["builtins"] or hasattr(builtins, n.id) and n.id in dir(builtins):
                continue
            ok = False
            p = n
            while p is not None and not ok:
                p = getattr(p, "_parent", None)
                if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    for g in p.generators:
                        for x in ast.walk(g.target):
                            if isinstance(x, ast.Name) and x.id == n.id:
                                ok = True
                elif isinstance(p, (ast.FunctionDef, ast.Lambda)):
                    if n.id in R.scope(p):
                        ok = True
                    for x in ast.walk(p):
                        if isinstance(x, (ast.Global, ast.Nonlocal)) and n.id in x.names:
                            ok = True
                elif isinstance(p, ast.ClassDef):
                    for s in p.body:
                        if isinstance(s, ast.FunctionDef) and s.name == n.id and R.enclosing(n) in (R.enclosing(p), s) and not any(n is y for z in s.body for y in ast.walk(z)):
                            ok = True
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets):
                            ok = True
            if not ok:
                self.v("undefined-name", m, R.enclosing(n), n, "name '%s' is not defined anywhere" % n.id)

    # -------------------------------------------------------------- attributes
    def guarded(self, n, attr, what=("AttributeError", "Exception")):
        """inside a try that handles AttributeError, or under hasattr"""
        p = n
        while p is not None:
            q = getattr(p, "_parent", None)
            if isinstance(q, ast.Try) and p in q.body:
                for h in q.handlers:
                    names = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ["AttributeError"]
                    if any(x in names for x in what):
                        return True
            if isinstance(q, (ast.If, ast.IfExp)):
                for x in ast.walk(q.test):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr":
                        return True
            p = q
        return False

    def attribute(self, m, f, n):
        if isinstance(n.ctx, ast.Store):
            # writing an attribute never read/declared on a class of the package from outside
            return
        ts = self.R.infer(m, f, n.value)
        self.ctx.count("attribute reads resolved" if "?" not in ts else "attribute reads on values of unknown type")
        if self.guarded(n, n.attr):
            return
        if "?" in ts:
            if n.attr not in self.lib["universe"] and n.attr not in self.R.pkg_attr_universe:
                # libraries' result objects
                allnames = getattr(self, "_alllib", None)
                if allnames is None:
                    allnames = set()
                    for s in self.lib["mods"].values():
                        allnames |= s
                    allnames |= {"x", "success", "fun", "nfev", "message", "args", "message"}
                    self._alllib = allnames
                if n.attr not in allnames:
                    self.v("unknown-attribute", m, f, n, "no object of the package, numpy or the standard library has an attribute '%s'" % n.attr)
            return
        bad = []
        for t in ts:
            r = self.type_has(t, n.attr)
            if r is not False:
                if t != NONE:
                    return
                continue
            bad.append(t)
        live = [t for t in bad if t != NONE]
        if live or (bad and all(t == NONE for t in ts)):
            self.v("missing-attribute", m, f, n, "%s has no attribute '%s'" % (" / ".join(sorted(self.tname(t) for t in (live or bad))), n.attr))

    def tname(self, t):
        if t[0] in ("inst", "cls", "py", "lib", "pkgmod"):
            return str(t[1])
        return t[0]

    def type_has(self, t, a):
        if t[0] == "inst" or t[0] == "cls":
            return self.R.has_attr(t[1], a)
        if t[0] == "super":
            return self.prog.method(t[2], a, after=t[1]) is not None or a in dir(object) or any(c.name in self.R.open_cls for c in self.prog.mro(t[2])) or \
                any(a in self.R.cls_attrs[c.name] for c in self.prog.mro(t[2]))
        if t[0] == "lib":
            d = t[1]
            if d in self.lib["mods"]:
                return a in self.lib["mods"][d] or (d + "." + a) in self.lib["mods"]
            return None
        if t[0] == "pkgmod":
            mm = self.prog.mods[t[1]]
            return self.prog.resolve_name(mm, a) is not None or a in ("__name__", "__file__", "__doc__")
        if t[0] == "py":
            s = self.lib["types"].get(t[1])
            return None if s is None else a in s
        if t[0] == "tup":
            return a in self.lib["types"]["tuple"]
        return None

    # -------------------------------------------------------------- calls
    def call(self, m, f, n):
        ts = self.R.infer(m, f, n.func)
        errs, known = [], 0
        for t in ts:
            if t == "?":
                continue
            if t[0] == "fn":
                sig = sig_of(t[1], t[2])
                e = arity_error(sig, n)
                known += 1
                if e:
                    errs.append((getattr(t[1], "name", "<lambda>"), e))
            elif t[0] == "cls":
                init = self.prog.method(t[1], "__init__")
                known += 1
                if init is not None:
                    e = arity_error(sig_of(init, True), n)
                    if e:
                        errs.append((t[1], e))
            elif t[0] == "lib":
                s = self.lib["sigs"].get(t[1])
                if s is not None and not t[1].startswith("numpy.random"):
                    known += 1
                    e = lib_arity_error([[p[0], kindname(p[1]), p[2]] for p in s], n)
                    if e:
                        errs.append((t[1], e))
            elif self.callable_guard(f, n):
                continue
            elif t[0] == "tup" or (t[0] == "py" and t[1] in ("list", "int", "float", "str", "ndarray", "dict", "bool")):
                errs.append((t[0], "a %s is not callable" % (t[1] if t[0] == "py" else "tuple")))
        self.ctx.count("calls with resolved signature" if known else "calls to unresolved callees")
        if errs and (len(errs) == len([t for t in ts if t != NONE and t != "?"]) or "?" not in ts and len(errs) == len(ts)):
            nm, e = errs[0]
            if "?" in ts and not isinstance(n.func, (ast.Name, ast.Attribute)):
                return
            self.v("call-arity", m, f, n, "call does not match the signature of %s: %s" % (nm, e), src(n.func) + "(" + ", ".join(([ "%d positional" % len(n.args)] if n.args else []) + [k.arg or "**" for k in n.keywords]) + ")")
        # logging format strings
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("debug", "info", "warning", "warn", "error", "critical", "exception"):
            if any(isinstance(t, tuple) and (t == ("py", "logger") or t[0] == "lib" and t[1].startswith("logging")) for t in ts) or any(isinstance(t, tuple) and t[0] == "pym" and t[1] == "logger" for t in ts):
                if n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    self.ctx.count("format strings")
                    k = len(n.args) - 1
                    c = nfmt(n.args[0].value)
                    if k and c is not None and c != k and not any(isinstance(a, ast.Starred) for a in n.args):
                        self.v("format-arguments", m, f, n, "log message has %d placeholders but %d arguments" % (c, k))
        # value of a function that never returns one
        p = n._parent
        if not isinstance(p, (ast.Expr, ast.Return, ast.Lambda, ast.Await)) and ts and all(isinstance(t, tuple) and t[0] == "fn" and isinstance(t[1], ast.FunctionDef) for t in ts):
            none = True
            for t in ts:
                rt = self.R.ret_type(t[1], n, t[2])
                if rt != frozenset([NONE]):
                    none = False
            if none:
                # functions whose None is an intended, tested value?
                self.v("no-return-value", m, f, n, "the value of %s is used but it never returns one" % src(n.func), src(n.func) + "(...)")

    def callable_guard(self, f, n):
        """the function tests callable(<callee>) somewhere"""
        d = ast.dump(n.func)
        g = f
        while g is not None and not isinstance(g, ast.Module):
            for x in ast.walk(g):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "callable" and x.args and ast.dump(x.args[0]) == d:
                    return True
            g = self.R.enclosing(g)
        return False

    def method_self(self, m, fn):
        c = getattr(fn, "_cls", None)
        if c is None:
            return
        deco = [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]
        if "staticmethod" in deco:
            return
        if not fn.args.args and not fn.args.vararg and not fn.args.posonlyargs:
            self.v("method-without-self", m, fn, fn, "method cannot be called on an instance: it takes no parameters", "def " + fn.name)
        elif fn.args.args and any(isinstance(x, ast.Name) and x.id == "self" for x in ast.walk(fn)) is False and fn.args.args[0].arg not in ("self", "cls"):
            pass

    # -------------------------------------------------------------- unpacking
    def unpack(self, m, f, n):
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                k = len(t.elts)
                ts = self.R.infer(m, f, n.value)
                known = [x for x in ts if x != "?"]
                if known:
                    self.ctx.count("unpackings with resolved arity")
                for x in known:
                    if x[0] == "tup" and len(x[1]) != k:
                        self.v("unpack-arity", m, f, n, "%d values are unpacked into %d targets" % (len(x[1]), k), "%d of " % k + (src(n.value.func) + "(...)" if isinstance(n.value, ast.Call) else src(n.value)))
                    elif x == NONE or (x[0] == "py" and x[1] in ("int", "float", "complex", "bool", "NoneType")):
                        if x == NONE and self.none_guard(n):
                            continue
                        self.v("unpack-arity", m, f, n, "a %s may be unpacked into %d targets" % ("None" if x == NONE else x[1], k), "%d of " % k + (src(n.value.func) + "(...)" if isinstance(n.value, ast.Call) else src(n.value)))

    def none_guard(self, n):
        p = n
        while p is not None:
            q = getattr(p, "_parent", None)
            if isinstance(q, ast.Try) and p in q.body:
                return True
            p = q
        return False

    def subscript(self, m, f, n):
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            ts = self.R.infer(m, f, n.value)
            if ts and all(isinstance(t, tuple) and t[0] == "tup" for t in ts):
                self.ctx.count("constant tuple subscripts")
                if not any(-len(t[1]) <= n.slice.value < len(t[1]) for t in ts):
                    self.v("tuple-index", m, f, n, "component %d of a tuple of %s" % (n.slice.value, "/".join(sorted(str(len(t[1])) for t in ts))))

    # -------------------------------------------------------------- misc
    def percent(self, m, f, n):
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.ctx.count("format strings")
            c = nfmt(n.left.value)
            k = len(n.right.elts) if isinstance(n.right, ast.Tuple) else None
            if isinstance(n.right, ast.Dict) or c is None:
                return
            if k is not None and c != k:
                self.v("format-arguments", m, f, n, "format string has %d placeholders but %d arguments" % (c, k))
            elif k is None and c != 1 and not isinstance(n.right, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                self.v("format-arguments", m, f, n, "format string has %d placeholders but one argument" % c)

    def importfrom(self, m, f, n):
        base = n.module or ""
        if n.level:
            base = PKG + ("." + base if base else "")
        if not base.startswith(PKG):
            if base in self.lib["mods"]:
                for a in n.names:
                    self.ctx.count("imported names")
                    if a.name != "*" and a.name not in self.lib["mods"][base] and not self.guarded(n, "", ("ImportError", "Exception")):
                        self.v("missing-import", m, f, n, "%s has no '%s'" % (base, a.name), a.name)
            return
        b = base[len(PKG) + 1:]
        d = os.path.join(self.prog.repo, PKG)
        for a in n.names:
            self.ctx.count("imported names")
            if b == "":
                ok = a.name in self.prog.mods or os.path.exists(os.path.join(d, a.name + ".pyx")) or a.name in ("__version__",)
            elif b in self.prog.mods:
                mm = self.prog.mods[b]
                ok = self.prog.resolve_name(mm, a.name) is not None or a.name == "*"
            elif os.path.exists(os.path.join(d, b + ".pyx")):
                ok = a.name in pyx_funcs(open(os.path.join(d, b + ".pyx")).read())
            else:
                ok = False
            if not ok:
                self.v("missing-import", m, f, n, "%s does not define '%s'" % (base, a.name), a.name)

    def raise_(self, m, f, n):
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Constant):
            self.v("raise-non-exception", m, f, n, "raises something that is not an exception")

    def dunder_all(self, m):
        pass

    def kernels(self):
        """compiled kernels: the names the package imports from them, the
        declarations and the pure-Python stand-ins agree on their parameters"""
        d = os.path.join(self.prog.repo, PKG)
        cc = self.prog.mods.get("core_common")
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".pyx"):
                continue
            fs = pyx_funcs(open(os.path.join(d, fn)).read())
            self.ctx.analysed.add("evoMPS/" + fn)
            for name, ps in fs.items():
                self.ctx.count("compiled kernel signatures")
                if cc is not None and name in cc.funcs:
                    pn = [a.arg for a in cc.funcs[name].args.args]
                    nd = len(cc.funcs[name].args.defaults)
                    if len(ps) < len(pn) - nd or len(ps) > len(pn):
                        self.ctx.violation("kernel-signature", "evoMPS/" + fn, name, "signature of " + name, "compiled %s takes %d parameters, the Python version %d" % (name, len(ps), len(pn)))
            px = os.path.join(d, fn[:-4] + ".pxd")
            if os.path.exists(px):
                ds = pyx_funcs(open(px).read())
                for name, ps in ds.items():
                    if name in fs and len(fs[name]) != len(ps):
                        self.ctx.violation("kernel-signature", "evoMPS/" + fn, name, "declaration of " + name, "declared with %d parameters, defined with %d" % (len(ps), len(fs[name])))
                    if name not in fs:
                        self.ctx.violation("kernel-signature", "evoMPS/" + fn, name, "declaration of " + name, "declared but not defined")


def pyx_funcs(text):
    text = re.sub(r"#.*", "", text)
    out = {}
    for mm in re.finditer(r"^[ \t]*(?:cpdef|cdef|def)\s+((?:[\w\.\[\],= \*]|:)*?)\b(\w+)\s*\(([^)]*)\)", text, re.M):
        params = mm.group(3)
        params = re.sub(r"\[[^\]]*\]", "", params)
        ps = [p.strip() for p in params.split(",") if p.strip()]
        out[mm.group(2)] = ps
    return out


def nfmt(s):
    t = s.replace("%%", "")
    if "%(" in t:
        return None
    if re.search(r"%[-+ #0]*\*", t):
        return None
    return len(re.findall(r"%[-+ #0]*\d*(?:\.\d+)?[hlL]?[diouxXeEfFgGcrsa]", t))
