"""Compositional may-alias and effect analysis over the syntax tree.

Every function is analysed once per receiver class and per combination of
constant arguments.  Objects that exist before the call are access paths rooted
at a parameter (('p', root, '.attr' | '[]', ...)); objects made by the call are
allocation sites.  A summary holds the writes to pre-existing objects, the
final contents of pre-existing and returned objects, and what is returned;
callers instantiate it.  Views (slices, transposes, reshapes) alias their base.
"""
import ast, re
from .repo import qualname

SCALARNAME = re.compile(r"^(d?tau|dt|.*tau_init|.*tol|fac|L|N|D|k|n|m|d|n1|n2|max_.*|.*_max|p|p_)$")
MAXDEPTH = 6
AMBIENT = re.compile(r"(^|\.)random\.\w+$|^(scipy|numpy)\.(rand|randn)$|^(time|datetime|uuid|secrets|platform|socket|getpass|locale)\.\w+$|"
                     r"^os\.(environ|getenv|getpid|urandom|times|getlogin|uname|listdir|getcwd|cpu_count)$|^sys\.argv$|^builtins\.(id|hash|input)$")
NONE = ("k", None)
EMPTY = frozenset()

VIEW_ATTR = {"T", "real", "imag", "flat"}
VIEW_METH = {"transpose", "reshape", "ravel", "view", "squeeze", "swapaxes", "__getitem__", "values", "items", "keys"}
FRESH_METH = {"conj", "conjugate", "dot", "copy", "astype", "sum", "prod", "trace", "flatten", "tolist", "min", "max", "mean", "any", "all",
              "nonzero", "argsort", "argmax", "argmin", "toarray", "cumsum", "round", "diagonal", "sqrt", "inv", "format", "join", "split",
              "index", "count", "startswith", "endswith", "strip", "lower", "upper", "repeat", "take", "tobytes", "tostring", "clip", "std", "searchsorted"}
INPLACE_METH = {"sort", "fill", "append", "extend", "insert", "pop", "remove", "reverse", "resize", "put", "itemset", "clear", "setdefault",
                "setflags", "partition", "popitem", "add", "discard", "setfield", "byteswap"}
VIEW_FN = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "reshape", "ravel", "transpose", "swapaxes", "rollaxis",
           "moveaxis", "squeeze", "expand_dims", "broadcast_to", "real", "imag", "asmatrix", "aslinearoperator", "real_if_close", "nditer", "flatiter", "require"}
# lib function -> positions of arguments written
MUT_FN = {"copyto": (0,), "put": (0,), "place": (0,), "putmask": (0,), "fill_diagonal": (0,), "shuffle": (0,), "heappush": (0,), "setattr": (0,)}
UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "power", "dot", "maximum", "minimum", "floor_divide", "mod"}
UFUNC1 = {"conjugate", "conj", "sqrt", "exp", "log", "negative", "absolute", "abs", "reciprocal", "square"}
NUMTYPES = ("int", "float", "complex", "bool", "real", "number", "double", "str", "scalar", "integer")


class Closure(object):
    __slots__ = ("fn", "env", "cls", "selfv", "frame")

    def __init__(self, fn, env, cls, selfv, frame=None):
        self.fn, self.env, self.cls, self.selfv, self.frame = fn, env, cls, selfv, frame

    def key(self):
        return (id(self.fn), self.cls, self.selfv)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Closure) and self.key() == o.key()


class Event(object):
    """a write to a pre-existing object"""
    __slots__ = ("path", "kind", "node", "fn", "chain")

    def __init__(self, path, kind, node, fn, chain=()):
        self.path, self.kind, self.node, self.fn, self.chain = path, kind, node, fn, chain

    def key(self):
        return (self.path, self.kind, id(self.node))


class Summary(object):
    def __init__(self):
        self.events = {}          # key -> Event
        self.heap = {}            # (loc, sel) -> value
        self.ret = EMPTY
        self.kinds = {}
        self.done = False
        self.partial = False
        self.draws = set()        # random draws / ambient reads (dotted, node)
        self.never_returns = False


def ext(loc, sel):
    if len(loc) >= 2 + MAXDEPTH:
        if loc[-1] == sel:
            return loc
        return loc[:-1] + ("*",)
    if sel == "[]" and loc[-2:] == ("[]", "[]"):
        return loc
    return loc + (sel,)


class State(object):
    __slots__ = ("env", "heap", "dead")

    def __init__(self, env, heap):
        self.env, self.heap = env, heap

    def copy(self):
        return State(dict(self.env), dict(self.heap))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = env.get(k, EMPTY) | v
    heap = dict(a.heap)
    for k in set(a.heap) | set(b.heap):
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None:
            x = frozenset([ext(*k)]) if k[0][0] == "p" else EMPTY
        if y is None:
            y = frozenset([ext(*k)]) if k[0][0] == "p" else EMPTY
        heap[k] = x | y
    return State(env, heap)


def isconst(v):
    """single known constant"""
    if len(v) == 1:
        (x,) = v
        if isinstance(x, tuple) and x[0] == "k":
            return True
    return False


def doc_scalars(fn):
    """parameter names documented as numbers or flags"""
    d = ast.get_docstring(fn) or ""
    out = set()
    for ln in d.splitlines():
        if ":" in ln:
            nm, _, ty = ln.partition(":")
            ty = ty.strip().lower()
            if ty.split(" ")[0].strip(",()") in NUMTYPES:
                for x in nm.split(","):
                    out.add(x.strip())
    return out


class Effects(object):
    api = None

    def __init__(self, prog, resolver=None):
        self.prog = prog
        self.res = resolver
        self.memo = {}
        self.kind = {}           # alloc loc -> kind
        self.proto = {}          # alloc loc -> value whose elements/attrs it shares
        self.stack = []
        self._sc = {}
        self.attrkinds = {}
        self.method_index = {}
        for c, n in prog.classes.items():
            for mname, f in n._methods.items():
                self.method_index.setdefault(mname, []).append((c, f))
        self.subclasses = {}
        for c in prog.classes:
            for b in prog.mro(c):
                self.subclasses.setdefault(b.name, set()).add(c)
        self.unknown_calls = {}
        self.find_attr_kinds()

    # ------------------------------------------------------------ kinds
    def find_attr_kinds(self):
        """self.X = [...] -> list; self.X = empty(.., dtype=ndarray/object) -> objarr"""
        kinds = {}
        for c, n in self.prog.classes.items():
            for f in n._methods.values():
                for s in ast.walk(f):
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                k = self.expr_kind(s.value)
                                if k:
                                    kinds.setdefault((c, t.attr), set()).add(k)
        self.attrkinds = kinds

    def expr_kind(self, e):
        if isinstance(e, (ast.List, ast.ListComp)):
            return "list"
        if isinstance(e, ast.Dict):
            return "dict"
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and (isinstance(e.left, ast.List) or isinstance(e.right, ast.List)):
            return "list"
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if nm in ("list", "sorted"):
                return "list"
            if nm in ("empty", "zeros", "array", "empty_like", "zeros_like", "asarray", "ones", "full"):
                for a in list(e.args[1:]) + [k.value for k in e.keywords]:
                    if isinstance(a, ast.Attribute) and a.attr in ("ndarray", "object_", "object") or isinstance(a, ast.Name) and a.id == "object":
                        return "objarr"
                return "arr"
            if nm in ("real", "conj", "dot", "sum", "copy"):
                return None
        return None

    def kindof(self, loc, cls):
        if loc[0] == "n":
            return self.kind.get(loc)
        if loc[0] == "p":
            if len(loc) == 2:
                return ("obj:" + cls) if loc[1] == "self" and cls else None
            if len(loc) == 3 and loc[1] == "self" and cls and loc[2].startswith("."):
                ks = set()
                for c in self.prog.mro(cls):
                    ks |= self.attrkinds.get((c.name, loc[2][1:]), set())
                for c in self.subclasses.get(cls, ()):
                    ks |= self.attrkinds.get((c, loc[2][1:]), set())
                if len(ks) == 1:
                    return list(ks)[0]
            if loc[-1].startswith(".") and len(loc) > 3:
                ks = set()
                for (c, a), k in self.attrkinds.items():
                    if a == loc[-1][1:]:
                        ks |= k
                if len(ks) == 1:
                    return list(ks)[0]
        return None

    # ------------------------------------------------------------ entry
    def summary(self, fn, cls, consts=(), free=None, defmod=None, closure=None):
        """consts: tuple of (param, constant)"""
        key = (id(fn), cls, consts, closure and closure.key())
        s = self.memo.get(key)
        if s is not None:
            return s
        s = Summary()
        self.memo[key] = s
        if len(self.stack) > 60:
            s.partial = True
            return s
        self.stack.append(key)
        try:
            for it in range(3):
                n0 = (len(s.events), s.ret)
                a = Analyzer(self, fn, cls, dict(consts), s, closure)
                a.run()
                if not s.partial or (len(s.events), s.ret) == n0:
                    break
        finally:
            self.stack.pop()
        s.done = True
        return s

    def is_api(self, f):
        if self.api is None:
            return True
        k = getattr(f, "_apikey", None)
        if k is None:
            m, x = None, f
            while x is not None and m is None:
                m, x = getattr(x, "_mod", None), getattr(x, "_parent", None)
            k = f._apikey = ((m.name + ":") if m is not None else "") + qualname(f)
        return k in self.api

    def scalars(self, fn):
        r = self._sc.get(id(fn))
        if r is not None:
            return r
        out = set()
        a = fn.args
        allp = list(a.posonlyargs) + list(a.args)
        ds = [None] * (len(allp) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(allp, ds)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is None:
                continue
            x = d.operand if isinstance(d, ast.UnaryOp) else d
            if isinstance(x, ast.Constant) and x.value is not None:
                out.add(p.arg)
        if isinstance(fn, ast.FunctionDef):
            out |= doc_scalars(fn)
        names = {p.arg for p in allp}
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("range", "xrange", "int", "float", "round", "abs"):
                for x in n.args:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id in names and not isinstance(getattr(y, "_parent", None), (ast.Attribute, ast.Subscript, ast.Call)):
                            out.add(y.id)
                        if isinstance(y, ast.Name) and y.id in names and getattr(y, "_parent", None) is n:
                            out.add(y.id)
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in n.ops):
                for x in [n.left] + n.comparators:
                    if isinstance(x, ast.Name) and x.id in names:
                        out.add(x.id)
            if isinstance(n, ast.Subscript):
                sl = n.slice
                for y in ast.walk(sl):
                    if isinstance(y, ast.Name) and y.id in names and isinstance(getattr(y, "_parent", None), (ast.Subscript, ast.BinOp, ast.Slice)):
                        if n.slice is y or getattr(y, "_parent", None) is not n:
                            out.add(y.id)
        used_arr = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                used_arr.add(n.value.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ("shape", "dot", "conj", "T", "ravel", "copy", "size"):
                used_arr.add(n.value.id)
        out -= used_arr
        self._sc[id(fn)] = out
        return out


class Flow(Exception):
    pass


class Analyzer(object):
    def __init__(self, E, fn, cls, consts, summ, closure=None):
        self.E, self.fn, self.cls, self.S = E, fn, cls, summ
        self.prog = E.prog
        self.mod = fn._mod if hasattr(fn, "_mod") else self.modof(fn)
        self.consts = consts
        self.closure = closure
        self.rets = []           # states at return
        self.retv = EMPTY
        self.loops = []
        self.handlers = []
        self.ncall = 0
        self.cur = fn

    def modof(self, n):
        while n is not None and not hasattr(n, "_mod"):
            p = getattr(n, "_parent", None)
            if p is None:
                break
            n = p
        if hasattr(n, "_mod"):
            return n._mod
        for m in self.prog.mods.values():
            if m.tree is n:
                return m
        return None

    def run(self):
        env = {}
        a = self.fn.args
        for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
            if p.arg in self.consts:
                env[p.arg] = frozenset([self.consts[p.arg]])
            elif p.arg in self.E.scalars(self.fn) or SCALARNAME.match(p.arg):
                env[p.arg] = EMPTY
            else:
                env[p.arg] = frozenset([("p", p.arg)])
        for p in (a.vararg, a.kwarg):
            if p:
                env[p.arg] = frozenset([("p", p.arg)])
        isdeco = [d.id for d in getattr(self.fn, "decorator_list", []) if isinstance(d, ast.Name)]
        if "classmethod" in isdeco and a.args and self.cls:
            env[a.args[0].arg] = frozenset([("c", self.cls)])
        st = State(env, {})
        self.endstates = []
        if isinstance(self.fn, ast.Lambda):
            v = self.ev(self.fn.body, st)
            self.retv |= v
            self.endstates.append(st)
        else:
            out = self.block(self.fn.body, st)
            if out is not None:
                self.retv |= frozenset([NONE])
                self.endstates.append(out)
        fin = None
        for s in self.endstates:
            fin = join(fin, s)
        S = self.S
        S.ret |= self.retv
        if fin is None:
            S.never_returns = True
        else:
            for k, v in fin.heap.items():
                S.heap[k] = S.heap.get(k, EMPTY) | v if S.partial else v
            self.final = fin

    # ------------------------------------------------------------ heap
    def alloc(self, node, kind, ctx=()):
        loc = ("n", id(node)) + tuple(ctx)
        if kind:
            self.E.kind[loc] = kind
        return loc

    def getsel(self, st, loc, sel):
        k = (loc, sel)
        if k in st.heap:
            return st.heap[k]
        if loc[0] == "p":
            return frozenset([ext(loc, sel)])
        pr = self.E.proto.get(loc)
        if pr:
            out = EMPTY
            for b in pr:
                if isinstance(b, tuple) and b[0] in ("p", "n") and b != loc:
                    out |= self.getsel(st, b, sel)
            return out
        return EMPTY

    def putsel(self, st, loc, sel, v, strong=False):
        k = (loc, sel)
        if strong:
            st.heap[k] = v
        else:
            st.heap[k] = self.getsel(st, loc, sel) | v

    def locs(self, v):
        return [x for x in v if isinstance(x, tuple) and x[0] in ("p", "n")]

    def event(self, st, loc, kind, node):
        if loc[0] == "p":
            e = Event(loc, kind, node, self.fn)
            self.S.events.setdefault(e.key(), e)

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        for h in self.handlers:
            h[0] = join(h[0], st.copy())
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                v = self.ev(s.value.value, st) if s.value.value is not None else EMPTY
                self.yielded(v)
                return st
            self.ev(s.value, st)
            return self.alive(st)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s.value)
            return self.alive(st)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            self.aug(s, st)
            return self.alive(st)
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else frozenset([NONE])
            st = self.alive(st)
            if st is None:
                return None
            self.retv |= v
            self.endstates.append(st)
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, st)
            return None
        if isinstance(s, ast.If):
            t = self.test(s.test, st)
            a = self.refine(s.test, True, st.copy()) if t is not False else None
            b = self.refine(s.test, False, st.copy()) if t is not True else None
            a = self.block(s.body, a) if a is not None else None
            b = self.block(s.orelse, b) if b is not None else None
            return join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, None)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            h = [st.copy()]
            self.handlers.append(h)
            out = self.block(s.body, st.copy())
            self.handlers.pop()
            if out is not None:
                h[0] = join(h[0], out.copy())
            if out is not None and s.orelse:
                out = self.block(s.orelse, out)
            for hd in s.handlers:
                hs = h[0].copy()
                if hd.name:
                    hs.env[hd.name] = EMPTY
                out = join(out, self.block(hd.body, hs))
            if s.finalbody:
                if out is None:
                    self.block(s.finalbody, h[0].copy())
                else:
                    out = self.block(s.finalbody, out)
            return out
        if isinstance(s, ast.Break):
            self.loops[-1]["brk"] = join(self.loops[-1]["brk"], st)
            return None
        if isinstance(s, ast.Continue):
            self.loops[-1]["cont"] = join(self.loops[-1]["cont"], st)
            return None
        if isinstance(s, ast.FunctionDef):
            if not hasattr(s, "_mod"):
                s._mod = self.mod
            st.env[s.name] = frozenset([("f", Closure(s, None, self.cls, None, self.snap(st)))])
            for d in s.args.defaults:
                self.ev(d, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    for l in self.locs(self.ev(t.value, st)):
                        self.event(st, l, "elem", s)
                elif isinstance(t, ast.Attribute):
                    for l in self.locs(self.ev(t.value, st)):
                        self.event(st, ext(l, "." + t.attr), "rebind", s)
            return st
        if isinstance(s, ast.Assert):
            self.ev(s.test, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                nm = al.asname or al.name.split(".")[0]
                if isinstance(s, ast.Import):
                    st.env[nm] = frozenset([("lib", al.name if al.asname else nm)])
                else:
                    st.env[nm] = frozenset([("lib", (s.module or "") + "." + al.name)])
            return st
        if isinstance(s, ast.Global):
            for nm in s.names:
                st.env[nm] = frozenset([("p", "<global>" + self.mod.name + "." + nm)])
            return st
        if isinstance(s, ast.ClassDef):
            return st
        return st

    def snap(self, st):
        return st

    def yielded(self, v):
        self.retv |= v

    def alive(self, st):
        return st

    def loop(self, s, st):
        frame = {"brk": None, "cont": None}
        self.loops.append(frame)
        cur = st
        exit_ = None
        for it in range(5):
            body = cur.copy()
            if isinstance(s, ast.For):
                itv = self.ev(s.iter, body)
                el = self.elements(itv, body, s.iter)
                ent = body.copy()
                self.assign(s.target, el, body, None)
                body = self.block(s.body, body)
                exit_ = join(exit_, ent)
            else:
                t = self.test(s.test, body)
                if t is not True:
                    exit_ = join(exit_, self.refine(s.test, False, body.copy()))
                else:
                    self.ev(s.test, body)
                body = self.block(s.body, self.refine(s.test, True, body)) if t is not False else None
            body = join(body, frame["cont"])
            frame["cont"] = None
            nxt = join(cur.copy(), body)
            if nxt.env == cur.env and nxt.heap == cur.heap:
                break
            cur = nxt
        if isinstance(s, ast.For):
            # the loop has run at least once or not at all: both are kept
            exit_ = join(exit_, cur)
        else:
            t = self.test(s.test, cur)
            if t is not True:
                exit_ = join(exit_, self.refine(s.test, False, cur.copy()))
        if exit_ is not None and s.orelse:
            exit_ = self.block(s.orelse, exit_)
        self.loops.pop()
        return join(exit_, frame["brk"])

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, src):
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            if old and len(old) == 1 and list(old)[0][0] == "p" and list(old)[0][1].startswith("<global>"):
                self.event(st, list(old)[0], "rebind", t)
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in src.elts):
                vals = [self.ev(x, st) for x in src.elts]
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, st, None)
                return
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, v, st, None)
                else:
                    self.assign(x, self.component(v, i, st), st, None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            ls = self.locs(base)
            for l in ls:
                l2 = ext(l, "." + t.attr)
                # property setters
                setter = self.prop(l, t.attr, "setter")
                if setter is not None:
                    c, f = setter
                    self.apply(f, c, [frozenset([l]), v], {}, st, t, None)
                    continue
                self.event(st, l2, "rebind", t)
                self.putsel(st, l, "." + t.attr, v, strong=len(ls) == 1)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            for l in self.locs(base):
                self.event(st, l, "elem", t)
                k = self.E.kindof(l, self.cls)
                sl = t.slice
                if isinstance(sl, ast.Slice) and (k == "arr" or (k is None and not self.hascontents(v))):
                    continue      # values are copied into the array
                if k == "arr":
                    continue
                if isinstance(sl, (ast.Slice, ast.Tuple)) or isinstance(sl, ast.Constant) and sl.value is Ellipsis:
                    if k in ("list", "objarr"):
                        self.putsel(st, l, "[]", self.elements(v, st, None))
                    continue
                self.putsel(st, l, "[]", v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, src)

    def hascontents(self, v):
        return any(isinstance(x, tuple) and x[0] == "n" for x in v)

    def aug(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
            if self.scalarish(t.id, cur, s):
                st.env[t.id] = frozenset(x for x in cur if x[0] == "n")
                return
            for l in self.locs(cur):
                self.inplace(st, l, v, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            for l in self.locs(base):
                self.event(st, ext(l, "." + t.attr), "rebind", s)
                for x in self.locs(self.getsel(st, l, "." + t.attr)):
                    if x == ext(l, "." + t.attr):
                        continue
                    self.inplace(st, x, v, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            for l in self.locs(base):
                self.event(st, l, "elem", s)
                if self.E.kindof(l, self.cls) == "arr":
                    continue
                for x in self.locs(self.getsel(st, l, "[]")):
                    if x[0] == "p" and x == ext(l, "[]"):
                        self.event(st, x, "elem", s)
                        continue
                    self.inplace(st, x, v, s)

    def inplace(self, st, l, v, node):
        self.event(st, l, "elem", node)
        if self.E.kindof(l, self.cls) == "list":
            self.putsel(st, l, "[]", self.elements(v, st, None))

    def scalarish(self, name, cur, s):
        ls = [x for x in cur if isinstance(x, tuple) and x[0] == "p"]
        if not ls:
            return False
        f = self.fn
        sc = self.E.scalars(f)
        if name in sc:
            return True
        if isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, str)) and isinstance(s.op, (ast.Add, ast.Sub, ast.FloorDiv, ast.Mod)):
            return True
        return False

    # ------------------------------------------------------------ expressions
    def test(self, e, st):
        """constant truth value of a test or None"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.test(e.operand, st)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            r = []
            for x in e.values:
                t = self.test(x, st)
                r.append(t)
                if isinstance(e.op, ast.And) and t is False:
                    return False
                if isinstance(e.op, ast.Or) and t is True:
                    return True
            if all(x is not None for x in r):
                return all(r) if isinstance(e.op, ast.And) else any(r)
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, st), self.ev(e.comparators[0], st)
            op = e.ops[0]
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                r = None
                if isconst(a) and isconst(b):
                    r = list(a)[0][1] == list(b)[0][1] and type(list(a)[0][1]) == type(list(b)[0][1])
                elif b == frozenset([NONE]) and a and not any(x == NONE or x[0] == "p" for x in a):
                    r = False
                if r is not None:
                    return r if isinstance(op, (ast.Is, ast.Eq)) else not r
            return None
        v = self.ev(e, st)
        if isconst(v):
            return bool(list(v)[0][1])
        return None

    def refine(self, e, truth, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not truth, st)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if truth else ast.Or):
            for x in e.values:
                st = self.refine(x, truth, st)
            return st
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            isn = isinstance(e.ops[0], (ast.Is, ast.Eq))
            v = st.env.get(e.left.id)
            if v is not None and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if isn == truth:
                    st.env[e.left.id] = frozenset([NONE])
                else:
                    st.env[e.left.id] = v - frozenset([NONE])
        elif isinstance(e, ast.Name) and e.id in st.env and truth:
            st.env[e.id] = frozenset(x for x in st.env[e.id] if not (x[0] == "k" and not x[1]))
        return st

    def component(self, v, i, st):
        """i-th component of an unpacked value"""
        out = EMPTY
        for l in self.locs(v):
            if l[0] == "n" and (l, "#%d" % i) in st.heap:
                out |= st.heap[(l, "#%d" % i)]
            else:
                out |= self.getsel(st, l, "[]")
        return out

    def elements(self, v, st, src):
        out = EMPTY
        for l in self.locs(v):
            out |= self.getsel(st, l, "[]")
            if l[0] == "n":
                for (l2, s2), x in list(st.heap.items()):
                    if l2 == l and s2.startswith("#"):
                        out |= x
        return out

    def name(self, nm, st, node):
        if nm in st.env:
            return st.env[nm]
        c = self.closure
        if c is not None and c.frame is not None and nm in c.frame.env:
            # free variable: an outside object for the analysed body
            v = c.frame.env[nm]
            out = EMPTY
            for x in v:
                if x[0] in ("f", "c", "k", "lib", "m"):
                    out |= frozenset([x])
                else:
                    out |= frozenset([("p", "<free>" + nm)])
            return out
        # enclosing function's names (functions analysed on their own)
        p = getattr(self.fn, "_parent", None)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                names = self.localnames(p)
                if nm in names:
                    if isinstance(p, ast.FunctionDef):
                        for s in ast.walk(p):
                            if isinstance(s, ast.FunctionDef) and s.name == nm and s is not p:
                                if not hasattr(s, "_mod"):
                                    s._mod = self.mod
                                return frozenset([("f", Closure(s, None, self.cls, None, None))])
                    return frozenset([("p", "<free>" + nm)])
            p = getattr(p, "_parent", None)
        r = self.prog.resolve_name(self.mod, nm)
        if isinstance(r, ast.FunctionDef):
            return frozenset([("f", Closure(r, None, None, None, None))])
        if isinstance(r, ast.ClassDef):
            return frozenset([("c", r.name)])
        if isinstance(r, tuple):
            if r[0] == "lib":
                self.ambient(r[1], node)
                return frozenset([("lib", r[1])])
            if r[0] == "pkgmod":
                return frozenset([("m", r[1].name)])
            if r[0] == "const":
                n = r[1]
                if isinstance(n, ast.Constant):
                    return frozenset([("k", n.value)])
                if isinstance(n, ast.Lambda):
                    n._mod = self.mod
                    return frozenset([("f", Closure(n, None, None, None, None))])
                if isinstance(n, (ast.List, ast.Dict, ast.Set)):
                    return frozenset([("p", "<global>" + self.mod.name + "." + nm)])
                if isinstance(n, ast.Call):
                    return frozenset([("p", "<global>" + self.mod.name + "." + nm)])
                return EMPTY
        self.ambient("builtins." + nm, node)
        return frozenset([("lib", "builtins." + nm)])

    def ambient(self, d, node):
        """a reference to a source of randomness, clocks or process state"""
        if isinstance(node, ast.AST) and AMBIENT.search(d) and not d.endswith((".RandomState", ".Generator")):
            self.S.draws.add((d, node, self.owner_fn(self.fn)))

    def owner_fn(self, f):
        return f

    def localnames(self, f):
        r = getattr(f, "_locnames", None)
        if r is None:
            r = set()
            a = f.args
            for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) + [x for x in (a.vararg, a.kwarg) if x]:
                r.add(p.arg)
            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.FunctionDef):
                        r.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                        r.add(c.id)
                    walk(c)
            if not isinstance(f, ast.Lambda):
                for b in f.body:
                    if isinstance(b, ast.FunctionDef):
                        r.add(b.name)
                    else:
                        if isinstance(b, ast.Name) and isinstance(b.ctx, ast.Store):
                            r.add(b.id)
                        walk(b)
            f._locnames = r
        return r

    def ev(self, e, st):
        if e is None:
            return EMPTY
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return EMPTY

    def e_Constant(self, e, st):
        return frozenset([("k", e.value)]) if isinstance(e.value, (bool, str, int, type(None))) else EMPTY

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st):
        return self.elements(self.ev(e.value, st), st, None)

    def e_Tuple(self, e, st):
        l = self.alloc(e, "tuple")
        for k in [k for k in st.heap if k[0] == l]:
            del st.heap[k]
        for i, x in enumerate(e.elts):
            v = self.ev(x, st)
            st.heap[(l, "#%d" % i)] = v
        return frozenset([l])

    def e_List(self, e, st):
        l = self.alloc(e, "list")
        v = EMPTY
        for x in e.elts:
            v |= self.ev(x, st)
        self.putsel(st, l, "[]", v)
        return frozenset([l])

    def e_Set(self, e, st):
        return self.e_List(e, st)

    def e_Dict(self, e, st):
        l = self.alloc(e, "dict")
        v = EMPTY
        for k, x in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, st)
            v |= self.ev(x, st)
        self.putsel(st, l, "[]", v)
        return frozenset([l])

    def comp(self, e, elt, st):
        saved = dict(st.env)
        for g in e.generators:
            it = self.ev(g.iter, st)
            self.assign(g.target, self.elements(it, st, g.iter), st, None)
            for c in g.ifs:
                self.ev(c, st)
                t = self.refine(c, True, st)
        v = self.ev(elt, st)
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    if n.id in saved:
                        st.env[n.id] = saved[n.id]
                    else:
                        st.env.pop(n.id, None)
        l = self.alloc(e, "list")
        self.putsel(st, l, "[]", v)
        return frozenset([l])

    def e_ListComp(self, e, st):
        return self.comp(e, e.elt, st)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        return self.comp(e, e.value, st)

    def e_IfExp(self, e, st):
        t = self.test(e.test, st)
        out = EMPTY
        if t is not False:
            s = self.refine(e.test, True, st.copy())
            out |= self.ev(e.body, s)
            st.heap.update(s.heap)
        if t is not True:
            s = self.refine(e.test, False, st.copy())
            out |= self.ev(e.orelse, s)
            st.heap.update(s.heap)
        return out

    def e_BoolOp(self, e, st):
        out = EMPTY
        for x in e.values:
            out |= self.ev(x, st)
        return frozenset(x for x in out if x[0] != "k") if len(out) > 1 else EMPTY if any(x[0] == "k" for x in out) else out

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not) and isconst(v):
            return frozenset([("k", not list(v)[0][1])])
        if isinstance(e.op, ast.USub) and isconst(v) and type(list(v)[0][1]) is int:
            return frozenset([("k", -list(v)[0][1])])
        return EMPTY

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        la = [x for x in self.locs(a) if self.E.kindof(x, self.cls) == "list"]
        lb = [x for x in self.locs(b) if self.E.kindof(x, self.cls) == "list"]
        if (la or lb) and isinstance(e.op, (ast.Add, ast.Mult)):
            l = self.alloc(e, "list")
            v = EMPTY
            if la or isinstance(e.op, ast.Add):
                v |= self.elements(a, st, None)
            if lb or isinstance(e.op, ast.Add):
                v |= self.elements(b, st, None)
            self.putsel(st, l, "[]", v)
            return frozenset([l])
        for v, o in ((a, e.right), (b, e.left)):
            for x in v:
                if x[0] in ("n", "p"):
                    self.dunder(x, e, st)
        return EMPTY

    def dunder(self, x, e, st):
        return

    def e_Compare(self, e, st):
        t = None
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        if len(e.ops) == 1:
            t = self.test(e, st) if False else None
        return EMPTY

    def e_Lambda(self, e, st):
        if not hasattr(e, "_mod"):
            e._mod = self.mod
        return frozenset([("f", Closure(e, None, self.cls, None, self.snap(st)))])

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        self.ev(e.slice, st)
        out = EMPTY
        sl = e.slice
        isslice = isinstance(sl, ast.Slice) or isinstance(sl, ast.Tuple) or isinstance(sl, ast.Constant) and sl.value is Ellipsis
        idx = sl.value if isinstance(sl, ast.Constant) and isinstance(sl.value, int) else None
        for l in self.locs(base):
            k = self.E.kindof(l, self.cls)
            if isslice:
                if k in ("list", "tuple"):
                    n = self.alloc(e, "list")
                    self.putsel(st, n, "[]", self.elements(frozenset([l]), st, None))
                    out |= frozenset([n])
                else:
                    out |= frozenset([l])
            elif k == "arr":
                out |= frozenset([l])
            else:
                if idx is not None and l[0] == "n" and (l, "#%d" % idx) in st.heap:
                    out |= st.heap[(l, "#%d" % idx)]
                elif l[0] == "n":
                    out |= self.elements(frozenset([l]), st, None)
                else:
                    out |= self.getsel(st, l, "[]")
        return out

    def prop(self, l, attr, which="getter"):
        for c in self.classes_of(l, None, strict=True):
            for k in self.prog.mro(c):
                for f in k.body:
                    if isinstance(f, ast.FunctionDef) and f.name == attr and f.decorator_list:
                        for d in f.decorator_list:
                            if which == "getter" and isinstance(d, ast.Name) and d.id == "property":
                                return c, f
                            if which == "setter" and isinstance(d, ast.Attribute) and d.attr == "setter":
                                f._mod = k._mod
                                return c, f
        return None

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        out = EMPTY
        for b in base:
            if b[0] == "m":
                m = self.prog.mods[b[1]]
                r = self.prog.resolve_name(m, e.attr)
                if isinstance(r, ast.FunctionDef):
                    out |= frozenset([("f", Closure(r, None, None, None, None))])
                elif isinstance(r, ast.ClassDef):
                    out |= frozenset([("c", r.name)])
                elif isinstance(r, tuple) and r[0] == "lib":
                    out |= frozenset([("lib", r[1])])
                elif isinstance(r, tuple) and r[0] == "const":
                    out |= EMPTY
            elif b[0] == "lib":
                out |= frozenset([("lib", b[1] + "." + e.attr)])
                self.ambient(b[1] + "." + e.attr, e)
            elif b[0] == "c":
                f = self.prog.method(b[1], e.attr)
                if f is not None:
                    out |= frozenset([("f", Closure(f, None, b[1], None, None))])
            elif b[0] == "super":
                f = self.prog.method(b[2], e.attr, after=b[1])
                if f is not None:
                    out |= frozenset([("f", Closure(f, None, b[2], b[3], None))])
            elif b[0] in ("p", "n"):
                if e.attr in VIEW_ATTR:
                    pr = self.getsel(st, b, "." + e.attr)
                    out |= frozenset([b])
                    continue
                if e.attr in ("shape", "size", "ndim", "dtype"):
                    continue
                pg = self.prop(b, e.attr)
                if pg is not None:
                    c, f = pg
                    out |= self.apply(f, c, [frozenset([b])], {}, st, e, None)
                    continue
                out |= self.getsel(st, b, "." + e.attr)
        return out

    # ------------------------------------------------------------ calls
    def classes_of(self, l, mname, strict=False):
        """possible classes of an object (names); strict: only when known"""
        k = self.E.kindof(l, self.cls)
        if k and k.startswith("obj:"):
            return [k[4:]]
        if l[0] == "p" and self.E.res is not None:
            t = self.E.res.loc_type(self, l)
            if t:
                return [c for c in t if mname is None or self.prog.method(c, mname)]
        if strict:
            return []
        return sorted({c for c, f in self.E.method_index.get(mname, [])}) if mname else []

    def args(self, e, st):
        pos = []
        star = EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                star |= self.elements(self.ev(a.value, st), st, None)
                pos.append(None)
            else:
                pos.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                star |= self.elements(v, st, None)
            else:
                kw[k.arg] = v
        return pos, kw, star

    def e_Call(self, e, st):
        # super()
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super":
            c = self.owner()
            selfn = self.fn.args.args[0].arg if getattr(self.fn, "args", None) and self.fn.args.args else "self"
            sv = st.env.get(selfn, EMPTY)
            cn = e.args[0].id if e.args and isinstance(e.args[0], ast.Name) else c
            return frozenset([("super", cn, self.cls or c, sv)])
        pos, kw, star = self.args(e, st)
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st)
            out = EMPTY
            done = False
            for b in base:
                if b[0] in ("p", "n"):
                    out |= self.method(b, f.attr, pos, kw, star, st, e)
                    done = True
                elif b[0] in ("m", "lib", "c", "super"):
                    done = True
                    for x in self.ev_attr(b, f.attr, st):
                        out |= self.invoke(x, pos, kw, star, st, e, unbound=(b[0] == "c"))
            if not base:
                # fresh value: numeric result, string, ...
                if f.attr in VIEW_METH | FRESH_METH | INPLACE_METH:
                    return EMPTY
                cands = self.E.method_index.get(f.attr, [])
                if f.attr in ("update", "copy", "dot", "inv", "sqrt"):
                    cands = []
                for c, fn in cands[:4]:
                    # an object of a package class made elsewhere
                    pass
            return out
        fv = self.ev(f, st)
        out = EMPTY
        for x in fv:
            out |= self.invoke(x, pos, kw, star, st, e)
        return out

    def ev_attr(self, b, attr, st):
        tmp = ast.Attribute(value=ast.Name(id="<b>", ctx=ast.Load()), attr=attr, ctx=ast.Load())
        old = st.env.get("<b>")
        st.env["<b>"] = frozenset([b])
        v = self.e_Attribute(tmp, st)
        del st.env["<b>"]
        return v

    def owner(self):
        n = self.fn
        while n is not None and not isinstance(n, ast.ClassDef):
            n = getattr(n, "_parent", None)
        return n.name if n is not None else None

    def invoke(self, x, pos, kw, star, st, e, unbound=False):
        if x[0] == "f":
            c = x[1]
            p = list(pos)
            if c.selfv is not None:
                p = [c.selfv] + p
            elif c.cls is not None and unbound and hasattr(c.fn, "_cls"):
                # Class.method(obj, ...) or a classmethod
                deco = [d.id for d in c.fn.decorator_list if isinstance(d, ast.Name)]
                if "classmethod" in deco:
                    p = [frozenset([("c", c.cls)])] + p
            return self.apply(c.fn, c.cls, p, kw, st, e, c if c.frame is not None else None, star)
        if x[0] == "c":
            return self.construct(x[1], pos, kw, star, st, e)
        if x[0] == "lib":
            return self.lib(x[1], pos, kw, star, st, e)
        if x[0] == "p":
            return self.unknown(x, pos, kw, star, st, e)
        return EMPTY

    def unknown(self, x, pos, kw, star, st, e):
        """call of a caller-supplied callable: assumed to leave the library's data alone"""
        return EMPTY

    def construct(self, cname, pos, kw, star, st, e):
        l = self.alloc(e, "obj:" + cname)
        for k in [k for k in st.heap if k[0] == l]:
            del st.heap[k]
        f = self.prog.method(cname, "__init__")
        if f is not None:
            self.apply(f, cname, [frozenset([l])] + list(pos), kw, st, e, None, star)
        return frozenset([l])

    def method(self, b, name, pos, kw, star, st, e):
        k = self.E.kindof(b, self.cls)
        # attribute holding a callable
        hv = st.heap.get((b, "." + name))
        if hv:
            out = EMPTY
            hit = False
            for x in hv:
                if x[0] in ("f", "c", "lib"):
                    out |= self.invoke(x, pos, kw, star, st, e)
                    hit = True
            if hit:
                return out
        numpyish = name in VIEW_METH or name in FRESH_METH or name in INPLACE_METH
        known = self.classes_of(b, name, strict=True)
        if known:
            out = EMPTY
            for c in known:
                f = self.prog.method(c, name)
                if f is None:
                    continue
                deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
                if "staticmethod" in deco:
                    out |= self.apply(f, c, list(pos), kw, st, e, None, star)
                elif "classmethod" in deco:
                    out |= self.apply(f, c, [frozenset([("c", c)])] + list(pos), kw, st, e, None, star)
                else:
                    out |= self.apply(f, c, [frozenset([b])] + list(pos), kw, st, e, None, star)
            if out or any(self.prog.method(c, name) for c in known):
                return out
        if numpyish:
            if name in INPLACE_METH:
                self.event(st, b, "elem", e)
                if name in ("append", "insert", "extend", "add", "setdefault"):
                    for a in pos:
                        if a:
                            self.putsel(st, b, "[]", a if name != "extend" else self.elements(a, st, None))
                if name == "pop":
                    return self.getsel(st, b, "[]")
                return EMPTY
            if name == "dot" and len(pos) > 1 and pos[1]:
                for x in self.locs(pos[1]):
                    self.event(st, x, "elem", e)
                return pos[1]
            for o in self.locs(kw.get("out", EMPTY)):
                self.event(st, o, "elem", e)
            if name == "copy" or name == "tolist":
                if k in ("objarr", "list", "dict"):
                    n = self.alloc(e, k)
                    self.putsel(st, n, "[]", self.elements(frozenset([b]), st, None))
                    return frozenset([n])
                if k and k.startswith("obj:"):
                    return EMPTY
                return EMPTY
            if name == "astype" and "copy" in kw:
                return frozenset([b])
            if name in VIEW_METH:
                if name == "values" or name == "items":
                    n = self.alloc(e, "list")
                    self.putsel(st, n, "[]", self.getsel(st, b, "[]"))
                    return frozenset([n])
                return frozenset([b])
            if name in ("dot", "dot_left"):
                return self.structured_product(b, pos, st, e)
            return EMPTY
        if k in ("list", "dict", "tuple", "arr", "objarr"):
            return EMPTY
        if b[0] == "n" and not k:
            return EMPTY
        cands = self.E.method_index.get(name, [])
        if not cands:
            self.E.unknown_calls[name] = self.E.unknown_calls.get(name, 0) + 1
            return EMPTY
        out = EMPTY
        roots = set()
        for c, f in cands:
            out |= self.apply(f, c, [frozenset([b])] + list(pos), kw, st, e, None, star)
        return out

    def structured_product(self, b, pos, st, e):
        """X.dot(Y) is new storage, except that the product of a structured (identity or
        diagonal) matrix with another may hand out the diagonal of one of its factors"""
        d = EMPTY
        for x in [b] + self.locs(pos[0] if pos and pos[0] else EMPTY):
            # only what an object keeps in its own fields is known to be a structured matrix
            if (x[0] == "p" and len(x) > 2 and x[1] == "self" and len(x) < 2 + MAXDEPTH) \
                    or (x, ".diag") in st.heap:
                d |= frozenset(v for v in self.getsel(st, x, ".diag") if v[0] in ("p", "n"))
        if not d:
            return EMPTY
        n = self.alloc(e, None)
        self.putsel(st, n, ".diag", d, strong=True)
        return frozenset([n])

    def lib(self, d, pos, kw, star, st, e):
        nm = d.split(".")[-1]
        base = d.split(".")[0]
        def wr(v):
            for x in self.locs(v):
                self.event(st, x, "elem", e)
        if "out" in kw:
            wr(kw["out"])
        for i in MUT_FN.get(nm, ()):
            if i < len(pos) and pos[i]:
                if nm == "setattr" and len(pos) > 2:
                    a = [x[1] for x in (pos[1] or EMPTY) if x[0] == "k"]
                    for x in self.locs(pos[0]):
                        self.event(st, ext(x, "." + (a[0] if a else "*")), "rebind", e)
                        if a:
                            self.putsel(st, x, "." + a[0], pos[2])
                    return EMPTY
                wr(pos[i])
        for k, v in kw.items():
            if k.startswith("overwrite") and not (isconst(v) and not list(v)[0][1]):
                for a in pos[:2]:
                    if a:
                        wr(a)
        if base != "builtins":
            if nm in UFUNC2 and len(pos) > 2 and pos[2]:
                wr(pos[2])
                return pos[2]
            if nm in UFUNC1 and len(pos) > 1 and pos[1]:
                wr(pos[1])
                return pos[1]
        if "out" in kw and self.locs(kw["out"]):
            return kw["out"]
        if base == "builtins" or nm in ("deepcopy",) or d in ("copy.copy",):
            if nm in ("list", "tuple", "sorted", "reversed", "set", "frozenset"):
                n = self.alloc(e, "list")
                v = self.elements(pos[0], st, None) if pos and pos[0] else EMPTY
                self.putsel(st, n, "[]", v)
                return frozenset([n])
            if nm in ("zip", "enumerate", "map", "filter"):
                n = self.alloc(e, "list")
                tup = ("n", id(e), "t")
                self.E.kind[tup] = "tuple"
                if nm == "zip":
                    for i, a in enumerate(pos):
                        st.heap[(tup, "#%d" % i)] = self.elements(a or star, st, None)
                    st.heap[(n, "[]")] = frozenset([tup])
                elif nm == "enumerate":
                    st.heap[(tup, "#0")] = EMPTY
                    st.heap[(tup, "#1")] = self.elements(pos[0], st, None)
                    st.heap[(n, "[]")] = frozenset([tup])
                elif nm == "map":
                    v = EMPTY
                    for x in pos[0] or ():
                        v |= self.invoke(x, [self.elements(a, st, None) for a in pos[1:]], {}, EMPTY, st, e)
                    st.heap[(n, "[]")] = v
                else:
                    st.heap[(n, "[]")] = self.elements(pos[1], st, None) if len(pos) > 1 else EMPTY
                return frozenset([n])
            if nm == "deepcopy":
                out = EMPTY
                for x in self.locs(pos[0]) if pos else ():
                    k = self.E.kindof(x, self.cls)
                    n = self.alloc(e, k, ("dc",))
                    out |= frozenset([n])
                return out
            if d == "copy.copy":
                out = EMPTY
                for x in self.locs(pos[0]) if pos else ():
                    k = self.E.kindof(x, self.cls)
                    n = self.alloc(e, k, ("sc",))
                    if k in ("list", "objarr", "dict", "tuple") or k is None:
                        self.putsel(st, n, "[]", self.elements(frozenset([x]), st, None))
                    if k is None or k.startswith("obj:"):
                        self.E.proto[n] = frozenset([x])
                    out |= frozenset([n])
                return out
            if nm == "getattr" and len(pos) > 1:
                a = [x[1] for x in (pos[1] or EMPTY) if x[0] == "k"]
                out = EMPTY
                if a:
                    for x in self.locs(pos[0]):
                        out |= self.getsel(st, x, "." + str(a[0]))
                return out
            if nm in ("next", "iter"):
                return self.elements(pos[0], st, None) if nm == "next" and pos else (pos[0] if pos else EMPTY)
            if nm in ("max", "min") and len(pos) > 1:
                return EMPTY
            if nm in ("super",):
                return EMPTY
            return EMPTY
        if nm in VIEW_FN and pos and pos[0] is not None:
            k = [self.E.kindof(x, self.cls) for x in self.locs(pos[0])]
            return frozenset(x for x in self.locs(pos[0]) if self.E.kindof(x, self.cls) not in ("list", "tuple"))
        if nm == "array" and pos:
            c = kw.get("copy")
            if c is not None and isconst(c) and not list(c)[0][1]:
                return frozenset(self.locs(pos[0]))
            return self.objarray(e, pos, kw, st)
        if nm in ("empty", "zeros", "ones", "full"):
            return self.objarray(e, [], kw, st, pos)
        if nm in ("concatenate", "append", "hstack", "vstack", "delete", "insert"):
            return EMPTY
        # functionals: package callables and operators handed to library solvers
        for a in list(pos) + list(kw.values()):
            for x in a or ():
                if x[0] == "f":
                    self.invoke(x, [EMPTY] * 6, {}, EMPTY, st, e) if False else self.callback(x[1], st, e)
                elif x[0] in ("n", "p"):
                    k = self.E.kindof(x, self.cls)
                    if k and k.startswith("obj:") and self.prog.method(k[4:], "matvec"):
                        f = self.prog.method(k[4:], "matvec")
                        self.apply(f, k[4:], [frozenset([x]), EMPTY], {}, st, e, None)
        return EMPTY

    def callback(self, c, st, e):
        a = c.fn.args
        n = len(a.args) - (1 if c.selfv is not None else 0)
        p = [EMPTY] * n
        if c.selfv is not None:
            p = [c.selfv] + p
        self.apply(c.fn, c.cls, p, {}, st, e, c if c.frame is not None else None)

    def objarray(self, e, pos, kw, st, pos2=()):
        k = self.E.expr_kind(e) if isinstance(e, ast.Call) else None
        dt = kw.get("dtype")
        if k == "objarr" or dt is not None and any(x in (("lib", "numpy.ndarray"), ("lib", "builtins.object"), ("lib", "scipy.ndarray")) for x in dt):
            n = self.alloc(e, "objarr")
            if pos:
                self.putsel(st, n, "[]", self.elements(pos[0], st, None))
            return frozenset([n])
        return frozenset([self.alloc(e, "arr")])

    # ------------------------------------------------------------ summaries
    def apply(self, fn, cls, pos, kw, st, node, closure, star=EMPTY):
        if getattr(fn, "name", "") == "mmul" and fn.args.vararg and not fn.args.args:
            # a product is one of its factors only if all others are identity matrices
            self.E.summary(fn, cls)
            if star or None in pos:
                return EMPTY
            out = EMPTY
            for i, v in enumerate(pos):
                if all(self.locs(w) and not all(self.E.kindof(x, self.cls) == "arr" for x in self.locs(w)) for j, w in enumerate(pos) if j != i):
                    out |= frozenset(self.locs(v))
            return out
        a = fn.args
        names = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        bind = {}
        extra = EMPTY
        starred = False
        for i, v in enumerate(pos):
            if v is None:
                starred = True
                continue
            if i < len(names) and not starred:
                bind[names[i]] = v
            else:
                extra |= v
        for k, v in kw.items():
            bind[k] = v
        if star or starred:
            for nmx in names:
                if nmx not in bind:
                    bind[nmx] = star | EMPTY
            extra |= star
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                ds[p.arg] = d
            names.append(p.arg)
        consts = []
        for nmx in names:
            if nmx not in bind:
                d = ds.get(nmx)
                if isinstance(d, ast.Constant) and isinstance(d.value, (bool, str, int, type(None))):
                    bind[nmx] = frozenset([("k", d.value)])
                else:
                    bind[nmx] = EMPTY
            v = bind[nmx]
            if isconst(v):
                (x,) = v
                if x[1] is None or isinstance(x[1], (bool, str)):
                    consts.append((nmx, x))
            elif len(v) == 1:
                (x,) = v
                if x[0] in ("f", "c") and False:
                    consts.append((nmx, x))
        if a.vararg:
            t = ("n", id(node), "va", id(fn))
            self.E.kind[t] = "tuple"
            st.heap[(t, "[]")] = extra
            bind[a.vararg.arg] = frozenset([t])
        # callables handed over are part of the specialisation
        fns = []
        for nmx in names:
            v = bind.get(nmx, EMPTY)
            if any(x[0] == "f" for x in v) and len(v) == 1:
                consts.append((nmx, list(v)[0]))
        if not hasattr(fn, "_mod"):
            fn._mod = self.modof(fn) or self.mod
        S = self.E.summary(fn, cls, tuple(sorted(consts, key=lambda x: x[0])), closure=closure)
        if not S.done:
            self.S.partial = True
        return self.instantiate(S, bind, st, node, closure, fn)

    def instantiate(self, S, bind, st, node, closure, fn):
        memo = {}
        heap0 = dict(st.heap)
        st0 = State(st.env, heap0)

        def tr(loc):
            if loc in memo:
                return memo[loc]
            memo[loc] = EMPTY
            if loc[0] == "p":
                root = loc[1]
                if root in bind:
                    v = bind[root]
                elif root.startswith("<free>"):
                    nm = root[6:]
                    own = getattr(fn, "_parent", None)
                    while own is not None and not isinstance(own, (ast.FunctionDef, ast.Lambda)):
                        own = getattr(own, "_parent", None)
                    if own is self.fn and nm in st.env:
                        v = st.env[nm]
                    elif closure is not None and closure.frame is not None and nm in closure.frame.env:
                        v = closure.frame.env[nm]
                    elif nm in st.env:
                        v = st.env[nm]
                    else:
                        v = frozenset([("p", root)])
                elif root.startswith("<global>"):
                    v = frozenset([("p", root)])
                else:
                    v = EMPTY
                for sel in loc[2:]:
                    nv = EMPTY
                    for x in v:
                        if x[0] in ("p", "n"):
                            if sel == "*":
                                nv |= frozenset([ext(x, "*")]) if x[0] == "p" else EMPTY
                            elif sel == "[]":
                                nv |= self.elements(frozenset([x]), st0, None)
                                if x[0] == "p" and not nv:
                                    nv |= frozenset([ext(x, sel)])
                            else:
                                nv |= self.getsel(st0, x, sel)
                    v = nv
                r = v
            elif loc[0] == "n":
                n = ("n", id(node)) + tuple(loc[1:3]) if len(loc) < 4 else ("n", id(node)) + tuple(loc[1:2]) + tuple(loc[-1:])
                if loc in self.E.kind:
                    self.E.kind.setdefault(n, self.E.kind[loc])
                if loc in self.E.proto and n not in self.E.proto:
                    self.E.proto[n] = trv(self.E.proto[loc])
                r = frozenset([n])
            else:
                r = frozenset([loc])
            memo[loc] = r
            return r

        def trv(v):
            out = EMPTY
            for x in v:
                out |= tr(x) if x[0] in ("p", "n") else frozenset([x])
            return out

        def base_of(path):
            """locations an event path denotes: an attribute path means the holder + selector"""
            return tr(path)

        for ev in list(S.events.values()):
            p = ev.path
            if ev.kind == "rebind" and p[-1].startswith("."):
                for h in tr(p[:-1]):
                    if h[0] == "p":
                        q = ext(h, p[-1])
                        e2 = Event(q, "rebind", ev.node, ev.fn, ((node, self.fn),) + ev.chain[:3])
                        self.S.events.setdefault(e2.key(), e2)
            else:
                for h in tr(p):
                    if h[0] == "p":
                        e2 = Event(h, ev.kind, ev.node, ev.fn, ((node, self.fn),) + ev.chain[:3])
                        self.S.events.setdefault(e2.key(), e2)
        for d, n, f in S.draws:
            # a function outside the frozen interface is judged as part of its caller
            self.S.draws.add((d, n, f if self.E.is_api(f) else self.fn))
        updates = []
        for (loc, sel), v in S.heap.items():
            tl = [x for x in tr(loc) if x[0] in ("p", "n")]
            nv = trv(v)
            strong = len(tl) == 1 and (sel.startswith(".") or sel.startswith("#"))
            for x in tl:
                updates.append((x, sel, nv, strong or loc[0] == "n" and sel.startswith("#")))
        for x, sel, nv, strong in updates:
            if strong:
                st.heap[(x, sel)] = nv
            else:
                self.putsel(st, x, sel, nv)
        return trv(S.ret)
