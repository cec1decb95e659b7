"""C11: saved states restore completely.

save_state / export_state and load_state / import_state / from_file are interpreted
on their syntax trees over abstract objects: every field of the saving object is a
provenance atom (its access path), arrays of arrays are containers of atoms, and the
file is the container handed to the library's writer.  Loading that container into
another abstract object must put every saved atom back at its own path, before any
derived quantity is recomputed from it."""
import ast
from .repo import qualname


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, node=None):
        Exception.__init__(self, name)
        self.name, self.node = name, node


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class At(object):
    """an array or scalar known only by where it comes from"""
    def __init__(self, tag, shape=None):
        self.tag, self.shape = tag, shape

    def __repr__(self):
        return "%s" % (self.tag,)


class Lst(object):
    """list ('list'), object array ('obj') or regular array ('arr') of values"""
    def __init__(self, items, kind="list"):
        self.items, self.kind = list(items), kind

    def shape(self):
        if self.kind == "obj":
            return (len(self.items),)
        if self.kind == "arr":
            e = self.items[0] if self.items else None
            if isinstance(e, At) and e.shape is not None:
                return (len(self.items),) + tuple(e.shape)
            if isinstance(e, Lst):
                return (len(self.items),) + e.shape()
            return (len(self.items),)
        return None


class Obj(object):
    def __init__(self, cls, role, fields):
        self.cls, self.role, self.f = cls, role, fields


class ClsV(object):
    def __init__(self, cls):
        self.cls = cls


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Sup(object):
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class Lib(object):
    def __init__(self, d):
        self.d = d
        self.l = d.split(".")[-1]


class BM(object):
    def __init__(self, o, name):
        self.o, self.name = o, name


class Clo(object):
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


EVENTS = {"set_ham", "update", "expand_D", "truncate", "expand_q", "shrink_q", "set_q", "auto_truncate", "restore_CF", "calc_l", "calc_r",
          "calc_lr", "calc_AA", "calc_C", "calc_K", "calc_B", "simple_renorm", "randomize", "initialize_state", "add_noise"}
ND_ATTRS = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod
cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
swapaxes take tobytes tofile tolist tostring trace transpose var view""".split())
DERIVED = {"update", "expand_D", "truncate", "expand_q", "shrink_q", "set_q", "restore_CF", "randomize", "add_noise", "simple_renorm"}


def dcopy(v):
    if isinstance(v, Lst):
        return Lst([dcopy(x) for x in v.items], v.kind)
    if isinstance(v, At):
        return At(v.tag, v.shape)
    if isinstance(v, tuple):
        return tuple(dcopy(x) for x in v)
    if isinstance(v, dict):
        return {k: dcopy(x) for k, x in v.items()}
    return v


class Interp(object):
    def __init__(self, prog, order, decisions=()):
        self.prog = prog
        self.order = order              # symbol -> rank for size comparisons
        self.file = None
        self.events = []                # (object, method, args, snapshot)
        self.reports = 0
        self.steps = 0
        self.depth = 0
        self.dec = list(decisions)
        self.used = 0
        self.funcs = set()
        self.news = []

    def fork(self, why):
        if self.used < len(self.dec):
            v = self.dec[self.used]
        else:
            v = True
            self.dec.append(True)
        self.used += 1
        if self.used > 12:
            raise Undecided("too many undecided conditions (%s)" % why)
        return v

    # ---------------------------------------------------------------- calls
    def method(self, cls, name, after=None):
        mro = self.prog.mro(cls.name)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c._methods:
                return c._methods[name]
        return None

    def callfn(self, fn, args, kw, self_=None):
        self.depth += 1
        if self.depth > 15:
            raise Undecided("recursion")
        self.funcs.add(qualname(fn))
        env = {}
        a = fn.args
        if self_ is not None:
            args = [self_] + list(args)
        names = [x.arg for x in a.args]
        for k, v in zip(names, args):
            env[k] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise Raised("TypeError", fn)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Raised("TypeError", fn)
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in env:
                env[x] = self.ev(d, {}, fn._mod)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, {}, fn._mod)
        for x in names:
            if x not in env:
                raise Raised("TypeError", fn)
        env["__fn__"] = fn
        env["__cls__"] = getattr(fn, "_cls", None)
        try:
            self.block(fn.body, env, fn._mod)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def snapshot(self, o):
        return {k: (Obj(v.cls, v.role, {a: dcopy(b) for a, b in v.f.items() if not isinstance(b, Obj)}) if isinstance(v, Obj) else dcopy(v))
                for k, v in o.f.items()}

    def call(self, f, args, kw, n, env, m):
        if isinstance(f, Bound):
            o = f.self_
            nm = f.fn.name
            if isinstance(o, Obj) and nm in ("grow_left", "grow_right") and len(args) == 1 and isinstance(args[0], int):
                self.events.append((o, nm, args, {}, None))
                L = o.f["uni_l"].f["L"]
                o.f.update(layout(self.prog, o.cls, o.role, N=o.f["N"] + args[0] * L, L=L, dim=o.f["__dim__"]).f)
                return None
            if isinstance(o, Obj) and nm in EVENTS:
                self.events.append((o, nm, args, kw, self.snapshot(o)))
                if nm in DERIVED:
                    o.f["__stale__"] = nm
                return At("result of " + nm)
            return self.callfn(f.fn, args, kw, o)
        if isinstance(f, Clo):
            e2 = dict(f.env)
            for a, v in zip(f.node.args.args, args):
                e2[a.arg] = v
            e2.update(kw)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, e2, f.mod)
            try:
                self.block(f.node.body, e2, f.mod)
            except Ret as r:
                return r.v
            return None
        if isinstance(f, ast.FunctionDef):
            return self.callfn(f, args, kw)
        if isinstance(f, (ast.ClassDef, ClsV)):
            cls = f.cls if isinstance(f, ClsV) else f
            return self.construct(cls, args, kw, n)
        if isinstance(f, Lib):
            return self.lib(f, args, kw, n)
        if isinstance(f, BM):
            return self.bm(f.o, f.name, args, kw, n)
        if isinstance(f, Sup):
            raise Undecided("super")
        if isinstance(f, At):
            return At("call of %s" % (f.tag,))
        if f is None:
            raise Raised("TypeError", n)
        raise Undecided("call")

    def construct(self, cls, args, kw, n):
        init = self.method(cls, "__init__")
        names = [a.arg for a in init.args.args][1:] if init is not None else []
        b = dict(zip(names, args))
        b.update(kw)
        base = {c.name for c in self.prog.mro(cls.name)}
        if "EvoMPS_MPS_Uniform" in base:
            L = b.get("L", 1)
            o = layout(self.prog, cls, "new", L=L if isinstance(L, int) else 1, D=b.get("D"), q=b.get("q"))
        elif "EvoMPS_MPS_Sandwich" in base:
            N = b.get("N")
            if not isinstance(N, int):
                raise Undecided("window length")
            o = layout(self.prog, cls, "new", N=N, L=1)
            ul = b.get("uni_ground")
            ur = b.get("uni_right")
            if isinstance(ul, Obj):
                o.f["uni_l"] = Obj(ul.cls, "new", dict(ul.f))
                o.f["uni_r"] = Obj((ur or ul).cls, "new", dict((ur or ul).f)) if isinstance(ur, Obj) or ur is None else At("?")
        elif "EvoMPS_MPS_Generic" in base:
            o = layout(self.prog, cls, "new", N=b.get("N") if isinstance(b.get("N"), int) else 3, L=1)
        else:
            o = Obj(cls, "new", {})
        o.init = b
        self.news.append(o)
        return o

    # ---------------------------------------------------------------- statements
    def block(self, body, env, m):
        for s in body:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("budget")
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, m)
        elif isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, env, m))
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, m)
            for t in s.targets:
                self.assign(t, v, env, m)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, m), env, m)
        elif isinstance(s, ast.AugAssign):
            import copy
            t = copy.copy(s.target)
            t.ctx = ast.Load()
            cur = self.ev(t, env, m)
            v = self.ev(s.value, env, m)
            if isinstance(cur, Lst) and isinstance(s.op, ast.Add) and cur.kind == "list" and isinstance(v, Lst):
                cur.items.extend(v.items)
                return
            if isinstance(cur, At):
                cur.tag = ("changed", cur.tag)
                self.assign(s.target, cur, env, m)
                return
            self.assign(s.target, self.bin(s.op, cur, v), env, m)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, m), s.test) else s.orelse, env, m)
        elif isinstance(s, ast.For):
            it = self.iter(self.ev(s.iter, env, m))
            for x in it:
                self.assign(s.target, x, env, m)
                try:
                    self.block(s.body, env, m)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env, m)
        elif isinstance(s, ast.While):
            k = 0
            while self.truth(self.ev(s.test, env, m), s.test):
                k += 1
                if k > 30:
                    raise Undecided("while")
                try:
                    self.block(s.body, env, m)
                except Brk:
                    break
                except Cont:
                    continue
        elif isinstance(s, ast.Try):
            try:
                d = self.depth
                try:
                    self.block(s.body, env, m)
                except Raised as e:
                    self.depth = d
                    for h in s.handlers:
                        nm = [None] if h.type is None else [getattr(t, "attr", getattr(t, "id", None)) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                        if None in nm or e.name in nm or "Exception" in nm:
                            self.block(h.body, env, m)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, m)
            finally:
                self.block(s.finalbody, env, m)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, env, m)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, m)
            self.block(s.body, env, m)
        elif isinstance(s, ast.Raise):
            nm = "Exception"
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                nm = getattr(e, "attr", getattr(e, "id", "Exception"))
            raise Raised(nm, s)
        elif isinstance(s, ast.Assert):
            if self.truth(self.ev(s.test, env, m), s.test) is False:
                raise Raised("AssertionError", s)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Clo(s, env, m)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Delete)):
            pass
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        else:
            raise Undecided(type(s).__name__)

    def iter(self, it):
        if isinstance(it, Lst):
            return list(it.items)
        if isinstance(it, (list, tuple, range)):
            return list(it)
        if isinstance(it, dict):
            return list(it)
        raise Undecided("loop")

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, At):
                for k, e in enumerate(t.elts):
                    self.assign(e, At(("part", v.tag, k)), env, m)
                return
            vs = self.iter(v)
            if len(vs) != len(t.elts):
                raise Raised("ValueError", t)
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env, m)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            if isinstance(o, Obj):
                st = self.method(o.cls, t.attr)
                if st is not None and any(isinstance(d, ast.Attribute) and d.attr == "setter" for c in self.prog.mro(o.cls.name) for b in c.body
                                          if isinstance(b, ast.FunctionDef) and b.name == t.attr for d in b.decorator_list):
                    return
                o.f[t.attr] = v
            elif isinstance(o, At):
                o.tag = ("changed", o.tag)
            else:
                raise Undecided("attribute store")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            if isinstance(t.slice, ast.Slice) or (isinstance(t.slice, ast.Constant) and t.slice.value is Ellipsis):
                full = not isinstance(t.slice, ast.Slice) or (t.slice.lower is None and t.slice.upper is None)
                if isinstance(o, At):
                    # x[:] = v copies the content of v
                    o.tag = v.tag if full and isinstance(v, At) else ("changed", o.tag)
                    return
                if isinstance(o, Lst):
                    lo, hi = [None if x is None else self.ev(x, env, m) for x in (t.slice.lower, t.slice.upper)] if isinstance(t.slice, ast.Slice) else (None, None)
                    vs = [dcopy(x) for x in self.iter(v)] if isinstance(v, (Lst, list, tuple)) else None
                    if vs is None:
                        for k in range(*slice(lo, hi).indices(len(o.items))):
                            o.items[k] = v
                        return
                    o.items[lo:hi] = vs
                    return
                raise Undecided("slice store")
            k = self.ev(t.slice, env, m)
            if isinstance(o, Lst) and isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    raise Raised("IndexError", t)
                o.items[k] = v
            elif isinstance(o, Lst) and isinstance(k, tuple) and all(isinstance(x, int) for x in k):
                for x in k[:-1]:
                    o = o.items[x]
                o.items[k[-1]] = v
            elif isinstance(o, dict):
                o[k] = v
            elif isinstance(o, At):
                o.tag = ("changed", o.tag)
            elif isinstance(o, Lst):
                raise Undecided("index store")
            else:
                raise Raised("TypeError", t)
        else:
            raise Undecided("target")

    # ---------------------------------------------------------------- expressions
    def truth(self, v, node):
        if isinstance(v, (bool, int, str, tuple, dict, list)) or v is None:
            return bool(v)
        if isinstance(v, Lst):
            if v.kind == "list":
                return bool(v.items)
            if len(v.items) > 1:
                raise Raised("ValueError", node)
        if isinstance(v, At) and v.shape is not None and len(v.shape) > 0:
            raise Raised("ValueError: truth value of an array", node)
        if isinstance(v, Obj):
            return True
        return self.fork(ast.unparse(node))

    def ev(self, n, env, m):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return self.name(n.id, env, m)
        if isinstance(n, ast.Attribute):
            return self.attr(self.ev(n.value, env, m), n.attr, n)
        if isinstance(n, ast.Tuple):
            return tuple(self.seq(n.elts, env, m))
        if isinstance(n, ast.List):
            return Lst(self.seq(n.elts, env, m))
        if isinstance(n, ast.Dict):
            return {self.ev(k, env, m): self.ev(v, env, m) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "super":
                if n.args:
                    c = self.ev(n.args[0], env, m)
                    o = self.ev(n.args[1], env, m)
                    return Sup(o, c)
                fn = env.get("__fn__")
                return Sup(env[fn.args.args[0].arg], env["__cls__"])
            f = self.ev(n.func, env, m)
            args = self.seq(n.args, env, m)
            kw = {}
            for k in n.keywords:
                v = self.ev(k.value, env, m)
                if k.arg is None:
                    if not isinstance(v, dict):
                        raise Undecided("**")
                    kw.update(v)
                else:
                    kw[k.arg] = v
            if isinstance(f, str) and f.startswith("builtin:"):
                return self.builtin(f[8:], args, kw, n)
            return self.call(f, args, kw, n, env, m)
        if isinstance(n, ast.BinOp):
            return self.bin(n.op, self.ev(n.left, env, m), self.ev(n.right, env, m))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return not self.truth(self.ev(n.operand, env, m), n.operand)
            v = self.ev(n.operand, env, m)
            if isinstance(v, (int, float)):
                return -v if isinstance(n.op, ast.USub) else v
            return At(("op", v))
        if isinstance(n, ast.BoolOp):
            r = None
            for x in n.values:
                r = self.ev(x, env, m)
                t = self.truth(r, x)
                if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                    return r
            return r
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env, m), n.test) else n.orelse, env, m)
        if isinstance(n, ast.Compare):
            l = self.ev(n.left, env, m)
            for op, c in zip(n.ops, n.comparators):
                r = self.ev(c, env, m)
                v = self.cmp(op, l, r, n)
                if not v:
                    return False
                l = r
            return True
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value, env, m)
            if isinstance(n.slice, ast.Slice):
                lo, hi, st = [None if x is None else self.ev(x, env, m) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                if not all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    raise Undecided("slice")
                if isinstance(o, Lst):
                    return Lst(o.items[lo:hi:st], o.kind)
                if isinstance(o, (tuple, str)):
                    return o[lo:hi:st]
                if isinstance(o, At):
                    return o if lo is hi is st is None else At(("part", o.tag, (lo, hi, st)))
                raise Undecided("slice")
            k = self.ev(n.slice, env, m)
            return self.item(o, k, n)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            out = []

            def rec(gs, e):
                if not gs:
                    out.append(self.ev(n.elt, e, m))
                    return
                for x in self.iter(self.ev(gs[0].iter, e, m)):
                    e2 = e.child() if hasattr(e, "child") else dict(e)
                    self.assign(gs[0].target, x, e2, m)
                    if all(self.truth(self.ev(c, e2, m), c) for c in gs[0].ifs):
                        rec(gs[1:], e2)
            rec(n.generators, env)
            return Lst(out)
        if isinstance(n, ast.Lambda):
            return Clo(n, env, m)
        if isinstance(n, ast.JoinedStr):
            return "text"
        raise Undecided(type(n).__name__)

    def item(self, o, k, n):
        if isinstance(o, Lst):
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    raise Raised("IndexError", n)
                return o.items[k]
            if isinstance(k, tuple) and k and all(isinstance(x, int) for x in k):
                for x in k:
                    o = self.item(o, x, n)
                return o
            if isinstance(k, tuple) and k == ():
                return o
            raise Undecided("index")
        if isinstance(o, (tuple, str)):
            try:
                return o[k]
            except (IndexError, TypeError):
                raise Raised("IndexError", n)
        if isinstance(o, dict):
            if k not in o:
                raise Raised("KeyError", n)
            return o[k]
        if isinstance(o, At):
            if k == ():
                return o
            return At(("part", o.tag, k), tuple(o.shape[1:]) if o.shape and isinstance(k, int) else None)
        raise Raised("TypeError", n)

    def seq(self, elts, env, m):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter(self.ev(e.value, env, m)))
            else:
                out.append(self.ev(e, env, m))
        return out

    def bin(self, op, l, r):
        if isinstance(l, (int, float)) and isinstance(r, (int, float)):
            try:
                return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.FloorDiv: lambda: l // r,
                        ast.Mod: lambda: l % r, ast.Pow: lambda: l ** r, ast.Div: lambda: l / r}[type(op)]()
            except (KeyError, ZeroDivisionError):
                raise Undecided("arithmetic")
        if isinstance(l, Lst) and isinstance(r, Lst) and isinstance(op, ast.Add) and l.kind == r.kind == "list":
            return Lst(l.items + r.items)
        if isinstance(l, tuple) and isinstance(r, tuple) and isinstance(op, ast.Add):
            return l + r
        if isinstance(l, str) or isinstance(r, str):
            if isinstance(op, ast.Add) and isinstance(l, str) and isinstance(r, str):
                return l + r
            return "text"
        if isinstance(l, Lst) and isinstance(r, int) and isinstance(op, ast.Mult) and l.kind == "list":
            return Lst(l.items * r)
        if isinstance(l, int) and isinstance(r, Lst) and isinstance(op, ast.Mult) and r.kind == "list":
            return Lst(r.items * l)
        return At(("op", type(op).__name__, str(l), str(r)), l.shape if isinstance(l, At) else r.shape if isinstance(r, At) else None)

    def cmp(self, op, l, r, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            v = l is r
            return v if isinstance(op, ast.Is) else not v
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r, (dict, tuple, str)):
                v = l in r
            elif isinstance(r, Lst):
                v = any(x is l or type(x) is type(l) and not isinstance(x, At) and x == l for x in r.items)
            elif isinstance(r, Lib) or isinstance(r, At):
                return self.fork(ast.unparse(n))
            else:
                raise Undecided("in")
            return v if isinstance(op, ast.In) else not v
        a, b = self.size(l), self.size(r)
        if a is not None and b is not None:
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
            if isinstance(a, int) and isinstance(b, int):
                x, y = a, b
            elif a in self.order and b in self.order and self.order[a][0] == self.order[b][0]:
                x, y = self.order[a][1], self.order[b][1]
            elif a == b:
                x = y = 0
            else:
                return self.fork(ast.unparse(n))
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if l is None or r is None:
            if isinstance(op, ast.Eq):
                return l is r
            if isinstance(op, ast.NotEq):
                return l is not r
        return self.fork(ast.unparse(n))

    def size(self, v):
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            return v
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, At) and isinstance(v.tag, tuple) and v.tag[0] == "dim":
            return v.tag[1]
        if isinstance(v, tuple):
            t = tuple(self.size(x) for x in v)
            return None if None in t else t
        return None

    def name(self, s, env, m):
        if s in env:
            return env[s]
        r = self.prog.resolve_name(m, s)
        if isinstance(r, (ast.FunctionDef, ast.ClassDef)):
            return r
        if isinstance(r, tuple):
            if r[0] == "lib":
                return Lib(r[1])
            if r[0] == "pkgmod":
                return r[1]
            if r[0] == "const":
                if s == "log":
                    return Lib("log")
                return self.ev(r[1], {}, m)
        if s in ("len", "list", "tuple", "range", "print", "isinstance", "hasattr", "getattr", "setattr", "zip", "enumerate", "reversed", "dict",
                 "open", "int", "float", "callable", "type", "str", "repr", "min", "max", "map", "bool", "abs", "sum", "sorted", "complex", "any", "all", "slice", "object"):
            return "builtin:" + s
        return Lib("exc." + s)

    def builtin(self, f, args, kw, n):
        if f == "len":
            a = args[0]
            if isinstance(a, Lst):
                return len(a.items)
            if isinstance(a, (tuple, str, dict)):
                return len(a)
            if isinstance(a, At) and a.shape:
                return self.dim(a.shape[0])
            raise Undecided("len")
        if f in ("list", "tuple"):
            if not args:
                return Lst([]) if f == "list" else ()
            if isinstance(args[0], At) and (getattr(args[0], "items", None) is None or not hasattr(self, "G")):
                raise Undecided("list of an array")
            it = self.iter(args[0])
            return Lst(it) if f == "list" else tuple(it)
        if f == "range":
            if not all(isinstance(a, int) for a in args):
                raise Undecided("range")
            return range(*args)
        if f == "print":
            self.reports += 1
            return None
        if f == "dict":
            return dict(kw) if not args else dict(args[0]) if isinstance(args[0], dict) else self._u("dict")
        if f == "zip":
            return [tuple(x) for x in zip(*[self.iter(a) for a in args])]
        if f == "enumerate":
            st = kw.get("start", args[1] if len(args) > 1 else 0)
            if not isinstance(st, int):
                raise Undecided("enumerate")
            return [(i, x) for i, x in enumerate(self.iter(args[0]), st)]
        if f == "reversed":
            return list(reversed(self.iter(args[0])))
        if f == "hasattr":
            try:
                self.attr(args[0], args[1], n)
                return True
            except Raised:
                return False
        if f == "getattr":
            try:
                return self.attr(args[0], args[1], n)
            except Raised:
                if len(args) > 2:
                    return args[2]
                raise
        if f == "setattr":
            args[0].f[args[1]] = args[2]
            return None
        if f == "isinstance":
            c = args[1]
            cs = c if isinstance(c, tuple) else (c,)
            o = args[0]
            for k in cs:
                if k in ("builtin:list",) and isinstance(o, Lst) and o.kind == "list":
                    return True
                if k == "builtin:tuple" and isinstance(o, tuple):
                    return True
                if isinstance(k, Lib) and k.l == "ndarray":
                    if isinstance(o, At) or isinstance(o, Lst) and o.kind != "list":
                        return True
                if isinstance(k, ast.ClassDef) and isinstance(o, Obj) and k in self.prog.mro(o.cls.name):
                    return True
            if any(isinstance(k, Lib) and k.l != "ndarray" for k in cs):
                return self.fork("isinstance")
            return False
        if f == "open":
            return At("file")
        if f in ("int", "float", "bool", "complex"):
            return args[0] if args else 0
        if f == "callable":
            return isinstance(args[0], (Clo, ast.FunctionDef, Bound)) if not isinstance(args[0], At) else self.fork("callable")
        if f in ("str", "repr"):
            return "text"
        if f == "map":
            return Lst([self.call(args[0], [x], {}, n, {}, None) if not isinstance(args[0], str) else self.builtin(args[0][8:], [x], {}, n) for x in self.iter(args[1])])
        raise Undecided("builtin " + f)

    def _u(self, w):
        raise Undecided(w)

    def dim(self, d):
        return d if isinstance(d, int) else At(("dim", d))

    def attr(self, o, a, n):
        if isinstance(o, Lib):
            return Lib(o.d + "." + a)
        if hasattr(o, "tree") and hasattr(o, "funcs"):
            r = self.prog.resolve_name(o, a)
            if isinstance(r, (ast.FunctionDef, ast.ClassDef)):
                return r
            if isinstance(r, tuple) and r[0] == "lib":
                return Lib(r[1])
            raise Undecided("module attribute")
        if isinstance(o, Obj):
            if a in o.f:
                return o.f[a]
            fn = self.method(o.cls, a)
            if fn is not None:
                deco = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
                if "property" in deco:
                    return self.callfn(fn, [], {}, o)
                if "classmethod" in deco:
                    return Bound(fn, ClsV(o.cls))
                if "staticmethod" in deco:
                    return fn
                return Bound(fn, o)
            for c in self.prog.mro(o.cls.name):
                if a in c._methods:
                    return Bound(c._methods[a], o)
            v = At((o.role, a))
            o.f[a] = v
            return v
        if isinstance(o, ClsV):
            fn = self.method(o.cls, a)
            if fn is None:
                raise Undecided("class attribute")
            deco = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
            return Bound(fn, o) if "classmethod" in deco else fn
        if isinstance(o, ast.ClassDef):
            return self.attr(ClsV(o), a, n)
        if isinstance(o, Sup):
            cls = o.obj.cls
            fn = self.method(cls, a, after=o.after)
            if fn is None:
                raise Raised("AttributeError", n)
            b = Bound(fn, o.obj)
            return _SupBound(b)
        if isinstance(o, Lst):
            if a == "shape" and o.kind != "list":
                return tuple(self.dim(x) for x in o.shape())
            if a == "size" and o.kind != "list" and all(isinstance(x, int) for x in o.shape()):
                r = 1
                for x in o.shape():
                    r *= x
                return r
            if a == "ndim" and o.kind != "list":
                return len(o.shape())
            if a == "dtype" and o.kind != "list":
                return At("dtype")
            if o.kind == "list" and a in ("append", "extend", "insert", "pop", "copy", "index", "reverse"):
                return BM(o, a)
            if o.kind != "list" and a in ("copy", "tolist", "astype", "fill", "item", "ravel", "reshape", "conj", "close"):
                return BM(o, a)
            if hasattr([], a) if o.kind == "list" else a in ND_ATTRS:
                raise Undecided("attribute " + a)
            raise Raised("AttributeError", n)
        if isinstance(o, dict):
            return BM(o, a)
        if isinstance(o, At):
            if a == "shape":
                if o.shape is None:
                    return At(("shape", o.tag))
                return tuple(self.dim(x) for x in o.shape)
            if a == "ndim" and o.shape is not None:
                return len(o.shape)
            if a == "dtype":
                return At("dtype")
            if a == "A" and o.shape is not None and len(o.shape) == 2:
                return o                       # dense form of a structured matrix
            if a in ("T", "real", "imag", "flat"):
                return At((a, o.tag), o.shape[::-1] if a == "T" and o.shape else o.shape)
            if a == "A" and o.shape is not None:
                raise Raised("AttributeError", n)
            return BM(o, a)
        if o is None or isinstance(o, (int, float, str, tuple)):
            if isinstance(o, str):
                return BM(o, a)
            if hasattr(o, a):
                raise Undecided("attribute " + a)
            raise Raised("AttributeError", n)
        raise Undecided("attribute")

    def bm(self, o, a, args, kw, n):
        if isinstance(o, str):
            return "text"
        if isinstance(o, Lst):
            if a == "append":
                o.items.append(args[0])
                return None
            if a == "extend":
                o.items.extend(self.iter(args[0]))
                return None
            if a == "insert":
                o.items.insert(args[0], args[1])
                return None
            if a == "copy":
                return Lst(o.items, o.kind) if o.kind != "arr" else dcopy(o)
            if a == "tolist":
                return Lst(o.items)
            if a == "astype":
                return dcopy(o)
            if a == "fill":
                o.items = [args[0]] * len(o.items)
                return None
            if a == "reverse":
                o.items.reverse()
                return None
            raise Undecided("method " + a)
        if isinstance(o, dict):
            if a == "get":
                return o.get(args[0], args[1] if len(args) > 1 else None)
            if a in ("items",):
                return list(o.items())
            if a in ("keys",):
                return list(o)
            if a == "values":
                return list(o.values())
            if a == "update":
                o.update(kw)
                return None
            if a == "close":
                return None
            raise Undecided("dict method")
        if a in ("copy", "astype", "toarray", "item", "tolist", "__array__"):
            return At(o.tag, o.shape)
        if a in ("fill", "sort", "resize", "put"):
            o.tag = ("changed", o.tag)
            return None
        if a in ("close", "flush", "write", "writerow", "seek"):
            return None
        if a in ("reshape",):
            return At(("reshape", o.tag))
        return At((a, o.tag), o.shape if a in ("conj", "conjugate") else None)

    def lib(self, f, args, kw, n):
        l = f.l
        root = f.d.split(".")[0]
        if root in ("log", "logging", "warnings") or root == "logger":
            self.reports += 1
            return None
        if root == "exc":
            return At(f.d)
        if l in ("deepcopy", "copy"):
            v = args[0]
            if isinstance(v, Obj):
                return Obj(v.cls, v.role, dict(v.f))
            return dcopy(v) if l == "deepcopy" or root in ("numpy", "scipy") or not isinstance(v, Lst) else Lst(v.items, v.kind)
        if l in ("asarray", "asanyarray", "ascontiguousarray", "array", "require"):
            v = args[0]
            dt = kw.get("dtype", args[1] if len(args) > 1 else None)
            obj = isinstance(dt, Lib) and dt.l in ("object", "object_", "ndarray") or dt == "builtin:object" or dt == "O"
            if isinstance(v, Lst):
                if v.kind == "obj":
                    return Lst(v.items, "obj") if l == "array" else v
                its = [self.lib(Lib("numpy.array"), [x], {}, n) if isinstance(x, (Lst, tuple)) and not obj else x for x in v.items]
                return Lst(its, "obj" if obj else "arr")
            if isinstance(v, tuple):
                return Lst(list(v), "obj" if obj else "arr")
            return v
        if l in ("empty", "zeros", "ones", "full", "zeros_like", "ones_like", "empty_like", "full_like", "eye", "identity", "repeat"):
            dt = kw.get("dtype", args[1] if len(args) > 1 and l not in ("full", "full_like", "repeat") else None)
            obj = isinstance(dt, Lib) and dt.l in ("object", "object_", "ndarray") or dt in ("builtin:object", "O")
            sh = args[0]
            if obj:
                k = sh[0] if isinstance(sh, tuple) and len(sh) == 1 else sh
                if isinstance(k, int):
                    return Lst([None] * k, "obj")
                raise Undecided("object array shape")
            if l.endswith("_like"):
                return At("fresh " + l, sh.shape if isinstance(sh, At) else None)
            if l == "repeat" and len(args) == 2 and isinstance(args[1], int):
                return Lst([args[0]] * args[1], "arr")
            if isinstance(sh, tuple):
                return At("fresh " + l, tuple(self.size(x) if self.size(x) is not None else "?" for x in sh))
            if isinstance(sh, int):
                return At("fresh " + l, (sh,))
            return At("fresh " + l)
        if l == "fill_diagonal":
            if isinstance(args[0], At):
                args[0].tag = ("changed", args[0].tag)
            return None
        if l in ("stack", "asfarray"):
            return Lst(self.iter(args[0]), "arr")
        if l in ("save",):
            self.file = ("npy", dcopy(args[1]))
            return None
        if l in ("savez", "savez_compressed"):
            self.file = ("npz", {k: dcopy(v) for k, v in kw.items()})
            return None
        if l in ("dump",) and root in ("pickle", "cPickle", "joblib"):
            self.file = ("pickle", dcopy(args[0]))
            return None
        if l in ("load",):
            if self.file is None:
                raise Undecided("nothing was saved")
            kind, v = self.file
            if root in ("pickle", "cPickle", "joblib"):
                if kind != "pickle":
                    raise Raised("UnpicklingError: the file is written in another format", n)
                return dcopy(v)
            if kind == "pickle":
                raise Raised("ValueError: the file is written in another format", n)
            if isinstance(v, Lst) and v.kind == "obj" and kw.get("allow_pickle") is not True:
                raise Raised("ValueError: object arrays need allow_pickle=True", n)
            return dcopy(v)
        if l in ("ndim",):
            a = args[0]
            if isinstance(a, At) and a.shape is not None:
                return len(a.shape)
            if isinstance(a, Lst) and a.kind != "list":
                return len(a.shape())
        if l in ("conj", "conjugate", "transpose", "real", "imag"):
            v = args[0]
            if isinstance(v, At):
                return At((l, v.tag), v.shape)
        return At("%s(...)" % l)


class _SupBound(Bound):
    def __init__(self, b):
        self.fn, self.self_ = b.fn, b.self_


# a call through super() to an event method is the event of the defining class
def layout(prog, cls, role, N=3, L=1, dim=None, D=None, q=None):
    """abstract object: recorded sizes concrete, tensors and environments atoms named by their path"""
    names = {c.name for c in prog.mro(cls.name)}
    dim = dim or (lambda n: "D%d" % n)
    f = {"__dim__": dim}
    at = lambda p, sh=None: At((role,) + p, sh)
    if "EvoMPS_MPS_Uniform" in names:
        Ds = D if D is not None else At(("dim", dim(0)))
        qs = q if q is not None else At(("dim", "q"))
        s = lambda x: x.tag[1] if isinstance(x, At) and isinstance(x.tag, tuple) and x.tag[0] == "dim" else x if isinstance(x, int) else "?"
        d, qq = s(Ds), s(qs)
        f.update(L=L, D=Ds, q=qs)
        f["A"] = Lst([at(("A", k), (qq, d, d)) for k in range(L)])
        for nm in ("l", "r", "K", "K_left"):
            f[nm] = Lst([at((nm, k), (d, d)) for k in range(L)])
        for nm in ("AA", "AAA", "C"):
            f[nm] = Lst([at((nm, k)) for k in range(L)])
        f["userdata"] = at(("userdata",))
        if "EvoMPS_TDVP_Uniform" in names:
            f["ham_sites"] = 2
            f["ham"] = At((role, "ham"))
            f["ham"].shape = ("q",) * 4
        return Obj(cls, role, f)
    sand = "EvoMPS_MPS_Sandwich" in names
    n_el = N + 3 if sand else N + 1
    f["N"] = N
    if any("TDVP" in c for c in names):
        f["ham_sites"] = 2
        f["ham"] = Lst([at(("ham", n), ("q",) * 4) for n in range(N + 1)])
    top = N + 2 if sand else N + 1
    dd = [dim(n) if sand else (1 if n in (0, N) else dim(n)) for n in range(top)]
    if sand:
        dd[N + 1] = dd[N]
    f["D"] = Lst([d if isinstance(d, int) else At(("dim", d)) for d in dd], "arr")
    f["q"] = Lst([At(("dim", "q%d" % n)) for n in range(top)], "arr")
    f["A"] = Lst([None if n == 0 or n > N else at(("A", n), ("q%d" % n, dd[n - 1], dd[n])) for n in range(n_el)], "obj")
    f["l"] = Lst([at(("l", n), (dd[n], dd[n])) if n < top else None for n in range(n_el)], "obj")
    f["r"] = Lst([at(("r", n), (dd[n], dd[n])) if n < top else None for n in range(n_el)], "obj")
    if sand:
        f["N_centre"] = N // 2
        for nm in ("grown_left", "grown_right", "shrunk_left", "shrunk_right"):
            f[nm] = at((nm,), ())
        tdvp = any("TDVP" in c for c in names)
        uc = prog.classes["EvoMPS_TDVP_Uniform" if tdvp else "EvoMPS_MPS_Uniform"]
        for nm, e in (("uni_l", 0), ("uni_r", N)):
            u = layout(prog, uc, role, L=L, dim=lambda n, e=e: dim(e))
            for k, v in u.f.items():
                if isinstance(v, Lst):
                    for a in v.items:
                        if isinstance(a, At):
                            a.tag = (role, nm) + a.tag[1:]
            u.f["userdata"].tag = (role, nm, "userdata")
            f[nm] = u
    else:
        f["N_centre"] = at(("N_centre",))
    return Obj(cls, role, f)


def get(fields, path):
    v = fields
    for p in path:
        if isinstance(v, dict):
            v = v.get(p)
        elif isinstance(v, Obj):
            v = v.f.get(p)
        elif isinstance(v, Lst) and isinstance(p, int) and p < len(v.items):
            v = v.items[p]
        else:
            return None
    return v


def leaves(v):
    if isinstance(v, At):
        yield v
    elif isinstance(v, Lst):
        for x in v.items:
            for y in leaves(x):
                yield y
    elif isinstance(v, (tuple, list)):
        for x in v:
            for y in leaves(x):
                yield y
    elif isinstance(v, dict):
        for x in v.values():
            for y in leaves(x):
                yield y


def spath(p):
    return "".join("[%s]" % x if isinstance(x, int) else ("." + x if i else x) for i, x in enumerate(p))
