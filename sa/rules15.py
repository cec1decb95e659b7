"""C15: options given by the caller are honoured and forwarded.

For every public operation a summary is computed from the syntax tree, callees
included: where the value of each option (parameter or documented setting of the
object) goes, and which calls and stores happen only when a test on it holds or fails.
Summaries are context independent (tags are the function's own parameters and the
object's settings) and are substituted at call sites, so moving code into helpers,
renaming locals or rewriting conditions does not change them.  They are compared with
the inventory of the documented behaviour in data/options.json."""
import ast
from .repo import qualname

SKIPMODS = {"tdvp_calc_C", "tdvp_calc_C_cython", "setup", "cuda_alternatives", "allclose"}
LOGS = {"log", "logging", "logger", "warnings"}
NEG = {"pos": "neg", "neg": "pos"}


def opt_name(t):
    return t


class Summary(object):
    def __init__(self):
        self.eff = {}        # effect -> {key: set(status)}   key = (tag, test)
        self.sinks = {}      # (callee, param) -> {tag: set('exact','derived')} plus '#': number-of-sites marker
        self.sites = {}      # (callee, param) -> list of dict tag -> kind  (dedup)
        self.used = set()    # tags with any consuming use
        self.ret = {}        # tag -> kind
        self.over = set()    # options replaced although they were given

    def add_eff(self, e, guards):
        g = {k: {v} for k, v in guards.items()}
        if e not in self.eff:
            self.eff[e] = g
            return
        self.merge_eff(e, g)

    def merge_eff(self, e, g):
        if e not in self.eff:
            self.eff[e] = {k: set(v) for k, v in g.items()}
            return
        cur = self.eff[e]
        new = {}
        for k in set(cur) | set(g):
            a = cur.get(k) or missing(k, cur)
            b = g.get(k) or missing(k, g)
            new[k] = a | b
        self.eff[e] = new

    def add_site(self, callee, param, val):
        s = self.sites.setdefault((callee, param), set())
        s.add(val)


def missing(k, g):
    # another test of the same option stands there: not comparable
    return {"other"} if any(x[0] == k[0] for x in g) else {"none"}


def freeze(tags, const):
    return (frozenset(tags.items()), const)


class Analysis(object):
    def __init__(self, prog, settings):
        self.prog = prog
        self.settings = settings       # class name -> set of attribute names
        self.memo = {}
        self.pos = {}
        self.busy = set()

    def positions(self, name):
        """parameter names by position of a method, where all classes agree"""
        if name not in self.pos:
            sigs = [[a.arg for a in c._methods[name].args.args[1:]] for c in self.prog.classes.values() if name in c._methods]
            out = []
            for i in range(max([len(x) for x in sigs] or [0])):
                v = {x[i] if i < len(x) else None for x in sigs}
                out.append(v.pop() if len(v) == 1 else None)
            self.pos[name] = out
        return self.pos[name]

    # ------------------------------------------------------------ summaries
    def summary(self, fn, cls, mod):
        key = (id(fn), cls)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return Summary()
        self.busy.add(key)
        S = Summary()
        env = {}
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            env[n] = ({n: "exact"}, NOCONST)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = ({x.arg: "exact"}, NOCONST)
        deco = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
        self_name = names[0] if cls is not None and names and "staticmethod" not in deco else None
        if self_name:
            env[self_name] = ({}, NOCONST)
        W = Walk(self, S, cls, mod, self_name, fn)
        body = fn.body if isinstance(fn, ast.FunctionDef) else [ast.Return(value=fn.body)]
        W.block(body, env, {})
        self.busy.discard(key)
        self.memo[key] = S
        return S


class _NC(object):
    def __repr__(self):
        return "?"


NOCONST = _NC()


class _Any(_NC):
    pass


ANY = "*"
ANYC = _Any()          # handed over in a collection: unknown


def join(a, b):
    """two values meeting at a control-flow join"""
    ta, ca = a
    tb, cb = b
    t = dict(ta)
    for k, v in tb.items():
        t[k] = v if t.get(k, v) == v else "derived"
    return (t, ca if ca == cb and type(ca) is type(cb) else NOCONST)


def derived(*vals):
    t = {}
    for v in vals:
        for k in v[0]:
            t[k] = "derived"
    return (t, NOCONST)


class KwDict(object):
    def __init__(self, items):
        self.items = items



class Walk(object):
    def __init__(self, A, S, cls, mod, self_name, fn, local=None):
        self.A, self.S, self.cls, self.mod, self.self_name, self.fn = A, S, cls, mod, self_name, fn
        self.local = dict(local or {})
        self.depth = 0

    def settings(self):
        return self.A.settings.get(self.cls, ()) if self.cls else ()

    # ------------------------------------------------------------ statements
    # env: name -> (tags, const); guards: {(tag, test): 'pos'|'neg'}
    # returns (env, terminated)
    def block(self, body, env, guards):
        guards = dict(guards)
        for s in body:
            env, term, extra = self.stmt(s, env, guards)
            if extra:
                guards.update(extra)
            if term:
                return env, True
        return env, False

    def use(self, v):
        for t in v[0]:
            self.S.used.add(t)

    def bind(self, t, v, env, guards):
        if isinstance(t, ast.Name):
            if guards and guards.get((t.id, ("==", "None"))) == "neg" and t.id not in v[0] and env.get(t.id, ({}, 0))[0] == {t.id: "exact"}:
                self.S.over.add((t.id, t.lineno, qualname(self.fn)))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e.value if isinstance(e, ast.Starred) else e, derived(v), env, guards)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env, guards)
            self.use(v)
            base = t.value.id if isinstance(t.value, ast.Name) else None
            owner = "self" if base is not None and base == self.self_name else "."
            e = "%s.%s=" % ("self" if owner == "self" else "", t.attr)
            self.S.add_eff(e, guards)
            self.S.add_site(e, "value", freeze(*v))
            if owner == "self" and self.cls:
                # property setter
                st = self.setter(t.attr)
                if st is not None:
                    self.apply(st, self.cls, self.mod, [v], {}, guards, skip_self=True)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env, guards)
            self.ev(t.slice, env, guards)
            self.use(v)
            root = t
            while isinstance(root, (ast.Subscript, ast.Attribute)):
                if isinstance(root, ast.Attribute) and isinstance(root.value, ast.Name) and root.value.id == self.self_name:
                    self.S.add_eff("self.%s[]=" % root.attr, guards)
                    break
                root = root.value
            if isinstance(root, ast.Name) and root.id in env:
                env[root.id] = join(env[root.id], derived(v)) if v[0] else env[root.id]
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, guards)

    def setter(self, attr):
        for c in self.A.prog.mro(self.cls):
            for b in c.body:
                if isinstance(b, ast.FunctionDef) and b.name == attr and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in b.decorator_list):
                    return b
        return None

    def merge(self, e1, t1, e2, t2):
        if t1 and t2:
            return e1, True
        if t1:
            return e2, False
        if t2:
            return e1, False
        out = {}
        for k in set(e1) | set(e2):
            if k in e1 and k in e2:
                out[k] = e1[k] if e1[k] == e2[k] else join(e1[k], e2[k])
            else:
                out[k] = e1.get(k, e2.get(k))
        return out, False

    def stmt(self, s, env, guards):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, guards)
            return env, False, None
        if isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value, env, guards)
                self.use(v)
                for k, x in v[0].items():
                    self.S.ret[k] = x if self.S.ret.get(k, x) == x else "derived"
            return env, True, None
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, guards)
            env = dict(env)
            if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) \
                    and len(s.value.elts) == len(s.targets[0].elts) and not any(isinstance(e, ast.Starred) for e in s.value.elts + s.targets[0].elts):
                vs = [self.ev(e, env, {}) for e in s.value.elts]
                for t, x in zip(s.targets[0].elts, vs):
                    self.bind(t, x, env, guards)
                return env, False, None
            for t in s.targets:
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Lambda):
                    self.local[t.id] = s.value
                self.bind(t, v, env, guards)
            return env, False, None
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                env = dict(env)
                self.bind(s.target, self.ev(s.value, env, guards), env, guards)
            return env, False, None
        if isinstance(s, ast.AugAssign):
            env = dict(env)
            v = self.ev(s.value, env, guards)
            self.use(v)
            import copy
            t = copy.copy(s.target)
            t.ctx = ast.Load()
            cur = self.ev(t, env, guards)
            self.bind(s.target, derived(cur, v), env, guards)
            return env, False, None
        if isinstance(s, ast.If):
            self.testuse(s.test, env, guards)
            pos = self.implied(s.test, env, True)
            neg = self.implied(s.test, env, False)
            g1 = dict(guards)
            g1.update(pos)
            g2 = dict(guards)
            g2.update(neg)
            c = self.constval(s.test, env)
            e1, t1 = self.block(s.body, dict(env), g1)
            e2, t2 = self.block(s.orelse, dict(env), g2)
            out, term = self.merge(e1, t1, e2, t2)
            extra = None
            if t1 and not t2:
                extra = neg
            elif t2 and not t1:
                extra = pos
            # a default that replaces None keeps the option's identity on the other path
            return out, term, extra
        if isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(s.iter, env, guards)
            self.use(v)
            e = dict(env)
            for _ in range(2):
                self.bind(s.target, derived(v), e, guards)
                e2, _t = self.block(s.body, dict(e), guards)
                e, _ = self.merge(e, False, e2, False)
            e2, _t = self.block(s.orelse, dict(e), guards)
            return self.merge(e, False, e2, False)[0], False, None
        if isinstance(s, ast.While):
            e = dict(env)
            for _ in range(2):
                self.testuse(s.test, e, guards)
                g = dict(guards)
                g.update(self.implied(s.test, e, True))
                e2, _t = self.block(s.body, dict(e), g)
                e, _ = self.merge(e, False, e2, False)
            e2, _t = self.block(s.orelse, dict(e), guards)
            return self.merge(e, False, e2, False)[0], False, None
        if isinstance(s, ast.Try):
            e1, t1 = self.block(s.body, dict(env), guards)
            if not t1:
                e1, t1 = self.block(s.orelse, e1, guards)
            out, term = e1, t1
            for h in s.handlers:
                e2, t2 = self.block(h.body, dict(self.merge(dict(env), False, e1, False)[0]), guards)
                out, term = self.merge(out, term, e2, t2)
            if s.finalbody:
                out, t3 = self.block(s.finalbody, dict(out), guards)
                term = term or t3
            return out, term, None
        if isinstance(s, ast.With):
            env = dict(env)
            for it in s.items:
                v = self.ev(it.context_expr, env, guards)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, derived(v), env, guards)
            e, t = self.block(s.body, env, guards)
            return e, t, None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env, guards)
            self.S.add_eff("raise", guards)
            return env, True, None
        if isinstance(s, ast.Assert):
            self.testuse(s.test, env, guards)
            return env, False, None
        if isinstance(s, ast.FunctionDef):
            self.local[s.name] = s
            self.nested(s, env, guards)
            return env, False, None
        if isinstance(s, (ast.Break, ast.Continue)):
            return env, True, None
        if isinstance(s, ast.ClassDef):
            return env, False, None
        return env, False, None

    def nested(self, fn, env, guards, args=None):
        if self.depth > 4:
            return
        self.depth += 1
        e = dict(env)
        for x in fn.args.args + fn.args.kwonlyargs:
            e[x.arg] = ({}, NOCONST)
        if args:
            e.update(args)
        if isinstance(fn, ast.Lambda):
            self.ev(fn.body, e, guards)
        else:
            r = dict(self.S.ret)
            self.block(fn.body, e, guards)
            self.S.ret = r
        self.depth -= 1

    # ------------------------------------------------------------ conditions
    def testuse(self, t, env, guards):
        v = self.ev(t, env, guards)
        self.use(v)

    def atom(self, t, env):
        """(tags, key, polarity) of an atomic condition"""
        pol = "pos"
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
            pol = NEG[pol]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, op = t.left, t.comparators[0], t.ops[0]
            lv, rv = self.ev(l, env, None), self.ev(r, env, None)
            c = lambda v, n: v[1] if v[1] is not NOCONST else None
            lc = lv[1] is not NOCONST and not lv[0]
            rc = rv[1] is not NOCONST and not rv[0]
            if lc and not rc:
                l, r, lv, rv = r, l, rv, lv
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
                rc = True
            if rc:
                k = rv[1]
                if k == "left" and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    k = "right"             # the only two values of gauge_fixing and canonical_form
                    pol = NEG[pol]
                if isinstance(op, (ast.Is, ast.Eq)):
                    return lv[0], ("==", repr(k)), pol
                if isinstance(op, (ast.IsNot, ast.NotEq)):
                    return lv[0], ("==", repr(k)), NEG[pol]
                if isinstance(op, ast.Gt):
                    return lv[0], (">", repr(k)), pol
                if isinstance(op, ast.LtE):
                    return lv[0], (">", repr(k)), NEG[pol]
                if isinstance(op, ast.Lt):
                    return lv[0], ("<", repr(k)), pol
                if isinstance(op, ast.GtE):
                    return lv[0], ("<", repr(k)), NEG[pol]
                return lv[0], (type(op).__name__, repr(k)), pol
            # two non-constant sides
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                less = isinstance(op, (ast.Lt, ast.LtE))
                out = {}
                sides = []
                for tg, p in ((lv[0], "pos" if less else "neg"), (rv[0], "neg" if less else "pos")):
                    sides.append((tg, ("<", "other"), p if pol == "pos" else NEG[p]))
                if lv[0] and not rv[0]:
                    return sides[0]
                if rv[0] and not lv[0]:
                    return sides[1]
                return ({}, None, pol)
            return derived(lv, rv)[0], ("cmp", type(op).__name__.replace("Not", "").replace("IsNot", "Is")), pol if not isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)) else NEG[pol]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("callable", "isinstance", "bool", "len") and t.args:
            v = self.ev(t.args[0], env, None)
            if t.func.id == "bool":
                return v[0], ("truth", ""), pol
            return v[0], (t.func.id, ""), pol
        v = self.ev(t, env, None)
        return v[0], ("truth", ""), pol

    def implied(self, t, env, val):
        """guards that hold when condition t has the value val"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.implied(t.operand, env, not val)
        if isinstance(t, ast.BoolOp):
            out = {}
            if isinstance(t.op, ast.And) == val:
                for x in t.values:
                    out.update(self.implied(x, env, val))
            else:
                # weaker: some operand; recorded as a guard of the combination
                for x in t.values:
                    for (tag, key), p in self.implied(x, env, val).items():
                        out[(tag, ("some",) + key)] = p
            return out
        tags, key, pol = self.atom(t, env)
        if key is None:
            return {}
        if not val:
            pol = NEG[pol]
        if key[0] == "==" and key[1] in ("True", "False"):
            if key[1] == "False":
                pol = NEG[pol]
            key = ("truth", "")
        return {(tag, key if kind == "exact" else ("via",) + key): pol for tag, kind in tags.items()}

    def constval(self, t, env):
        return NOCONST

    # ------------------------------------------------------------ expressions
    # guards None: evaluate without recording
    def ev(self, n, env, guards):
        rec = guards is not None
        if isinstance(n, ast.Constant):
            return ({}, n.value)
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return ({}, NOCONST)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.self_name:
                if n.attr in self.settings():
                    return ({"self." + n.attr: "exact"}, NOCONST)
                if self.cls:
                    fn = self.A.prog.method(self.cls, n.attr)
                    if fn is not None and any(isinstance(d, ast.Name) and d.id == "property" for d in fn.decorator_list):
                        return self.apply(fn, self.cls, self.mod, [], {}, guards if rec else None, skip_self=True)
                return ({}, NOCONST)
            v = self.ev(n.value, env, guards)
            return derived(v)
        if isinstance(n, ast.Call):
            return self.call(n, env, guards)
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env, guards)
            if isinstance(n.op, ast.USub) and isinstance(v[1], (int, float, complex)) and not v[0]:
                return ({}, -v[1])
            if isinstance(n.op, ast.Not) and isinstance(v[1], bool) and not v[0]:
                return ({}, not v[1])
            return derived(v)
        if isinstance(n, ast.IfExp):
            t = self.ev(n.test, env, guards)
            if rec:
                self.use(t)
                g1, g2 = dict(guards), dict(guards)
                g1.update(self.implied(n.test, env, True))
                g2.update(self.implied(n.test, env, False))
            else:
                g1 = g2 = None
            return join(self.ev(n.body, env, g1), self.ev(n.orelse, env, g2))
        if isinstance(n, ast.BoolOp):
            g = dict(guards) if rec else None
            vs = []
            for x in n.values:
                vs.append(self.ev(x, env, g))
                if rec:
                    g.update(self.implied(x, env, isinstance(n.op, ast.And)))
            return derived(*vs)
        if isinstance(n, ast.Lambda):
            if rec:
                self.nested(n, env, guards)
            v = self.ev(n.body, dict(env, **{a.arg: ({}, NOCONST) for a in n.args.args}), None)
            return derived(v)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                v = self.ev(g.iter, e, guards)
                self.bind(g.target, derived(v), e, {} if rec else {}) if not isinstance(g.target, ast.Name) else e.__setitem__(g.target.id, derived(v))
                for c in g.ifs:
                    self.ev(c, e, guards)
            if isinstance(n, ast.DictComp):
                return derived(self.ev(n.key, e, guards), self.ev(n.value, e, guards))
            return derived(self.ev(n.elt, e, guards))
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.keys):
            items = {x.value: self.ev(y, env, guards) for x, y in zip(n.keys, n.values)}
            return (derived(*items.values())[0], KwDict(items))
        if isinstance(n, ast.Dict):
            return derived(*[self.ev(x, env, guards) for x in list(n.keys) + list(n.values) if x is not None])
        if isinstance(n, (ast.Tuple, ast.List)) and not n.elts:
            return ({}, ())
        vs = [self.ev(x, env, guards) for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
        if isinstance(n, (ast.BinOp, ast.Compare)) and rec:
            for v in vs:
                self.use(v)
        if isinstance(n, ast.BinOp) and len(vs) == 2 and not vs[0][0] and not vs[1][0] and all(isinstance(v[1], (int, float)) and not isinstance(v[1], bool) for v in vs):
            a, b = vs[0][1], vs[1][1]
            try:
                r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b}[type(n.op)]()
                return ({}, r)
            except (KeyError, ZeroDivisionError, OverflowError):
                pass
        return derived(*vs)

    # ------------------------------------------------------------ calls
    def call(self, n, env, guards):
        rec = guards is not None
        f = n.func
        args, star = [], []
        for a in n.args:
            v = self.ev(a, env, guards)
            if isinstance(a, ast.Starred):
                star.append(v)
            else:
                args.append(v)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env, guards)
            if k.arg is None:
                if isinstance(v[1], KwDict):
                    kw.update(v[1].items)
                else:
                    star.append(v)
            else:
                kw[k.arg] = v
        allv = args + list(kw.values()) + star
        prog = self.A.prog
        # ---- resolve
        if isinstance(f, ast.Name):
            if f.id in self.local and f.id not in [a.arg for a in self.fn.args.args]:
                d = self.local[f.id]
                b = dict(zip([x.arg for x in d.args.args], args))
                b.update(kw)
                if rec:
                    self.nested(d, env, guards, b)
                return derived(*allv)
            if f.id in env and f.id not in self.mod.funcs:
                if rec:
                    for v in allv:
                        self.use(v)
                    self.use(env[f.id])
                    self.S.add_eff("call of a parameter", guards)
                return derived(env[f.id], *allv)
            r = prog.resolve_name(self.mod, f.id)
            if isinstance(r, ast.FunctionDef):
                return self.apply(r, None, r._mod, args, kw, guards, star=star)
            if isinstance(r, ast.ClassDef):
                return self.construct(r, args, kw, guards, star)
            if f.id == "dict" and kw and not args and not star:
                return (derived(*kw.values())[0], KwDict(kw))
            name = f.id if not (isinstance(r, tuple) and r[0] == "lib") else r[1].split(".")[-1]
            return self.libcall(name, args, kw, guards, star)
        if isinstance(f, ast.Attribute):
            b = f.value
            if isinstance(b, ast.Name) and b.id == self.self_name and self.cls:
                fn = prog.method(self.cls, f.attr)
                if fn is not None:
                    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
                    return self.apply(fn, self.cls, fn._mod, args, kw, guards, skip_self=not static, star=star)
                if f.attr in env:
                    pass
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and self.cls:
                after = None
                if b.args and isinstance(b.args[0], ast.Name):
                    after = b.args[0].id
                else:
                    c = getattr(self.fn, "_cls", None)
                    after = getattr(c, "name", c)
                fn = prog.method(self.cls, f.attr, after=after)
                if fn is not None:
                    return self.apply(fn, self.cls, fn._mod, args, kw, guards, skip_self=True, star=star)
                return derived(*allv)
            if isinstance(b, ast.Name) and b.id not in env and b.id != self.self_name:
                r = prog.resolve_name(self.mod, b.id)
                if isinstance(r, tuple) and r[0] == "pkgmod":
                    t = prog.resolve_name(r[1], f.attr)
                    if isinstance(t, ast.FunctionDef):
                        return self.apply(t, None, t._mod, args, kw, guards, star=star)
                    if isinstance(t, ast.ClassDef):
                        return self.construct(t, args, kw, guards, star)
                if isinstance(r, tuple) and r[0] == "lib" or r is None:
                    if b.id in LOGS:
                        return ({}, NOCONST)
                    return self.libcall(f.attr, args, kw, guards, star)
                if isinstance(r, ast.ClassDef):
                    fn = prog.method(r.name, f.attr)
                    if fn is not None:
                        first = [x.arg for x in fn.args.args][:1]
                        dc = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
                        skip = bool(dc & {"classmethod"})
                        return self.apply(fn, r.name, fn._mod, args if skip or "staticmethod" in dc else args[1:], kw, guards, skip_self="staticmethod" not in dc, star=star)
            v = self.ev(b, env, guards)
            root = b
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            lib = isinstance(root, ast.Name) and root.id not in env and root.id != self.self_name
            if isinstance(root, ast.Name) and root.id in LOGS and root.id not in env:
                return ({}, NOCONST)
            r = self.libcall(f.attr if lib else "." + f.attr, args, kw, guards, star)
            return derived(v, r)
        v = self.ev(f, env, guards)
        return derived(v, *allv)

    def libcall(self, name, args, kw, guards, star=()):
        if name.startswith(".") and args and not star:
            pos = self.A.positions(name[1:])
            while args and len(args) <= len(pos) and pos[len(args) - 1] is not None and pos[len(args) - 1] not in kw:
                kw = dict(kw)
                kw[pos[len(args) - 1]] = args[-1]
                args = args[:-1]
        if guards is not None:
            if name not in ("print", "format"):
                for v in list(args) + list(kw.values()) + list(star):
                    self.use(v)
                self.S.add_eff(name, guards)
                for k, v in kw.items():
                    self.S.add_site(name, k, freeze(*v))
                if kw and not star:
                    self.S.add_site(name, "<keywords>", (frozenset(), ",".join(sorted(kw))))
                if name.startswith("."):
                    for i, v in enumerate(args):
                        self.S.add_site(name, str(i), freeze(*v))
        if name in ("float", "int", "complex", "bool", "asarray", "abs") and len(args) == 1 and not kw:
            return (args[0][0] if name != "abs" else derived(args[0])[0], args[0][1] if name != "abs" else NOCONST)
        return derived(*(list(args) + list(kw.values()) + list(star)))

    def construct(self, cls, args, kw, guards, star):
        fn = self.A.prog.method(cls.name, "__init__")
        if fn is None:
            return derived(*(args + list(kw.values())))
        r = self.apply(fn, cls.name, fn._mod, args, kw, guards, skip_self=True, label=cls.name, star=star)
        return derived(r, *(args + list(kw.values())))

    def apply(self, fn, cls, mod, args, kw, guards, skip_self=False, label=None, star=()):
        """substitute the callee's summary"""
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        if skip_self:
            names = names[1:]
        bind = dict(zip(names, args))
        for k, v in kw.items():
            bind[k] = v
        dflt = {}
        full = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        for a, d in zip(full[len(full) - len(fn.args.defaults):], fn.args.defaults):
            dflt[a] = d
        for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if d is not None:
                dflt[a.arg] = d
        for a in names + [x.arg for x in fn.args.kwonlyargs]:
            if star and a not in bind:
                bind[a] = ({t: "exact" for v in star for t in v[0]}, ANYC)
        for a, d in dflt.items():
            if a not in bind:
                v = Walk(self.A, Summary(), None, fn._mod, None, fn).ev(d, {}, None)
                bind[a] = ({}, v[1])
        same = cls is not None and cls == self.cls
        S = self.A.summary(fn, cls, fn._mod)

        def sub(tag, kind):
            if tag.startswith("self."):
                return {tag: kind} if same else {}
            if tag in bind:
                return {t: (k if kind == "exact" else "derived") for t, k in bind[tag][0].items()}
            return {}
        if guards is not None:
            nm = label or fn.name
            self.S.add_eff(nm, guards)
            for p in names + [a.arg for a in fn.args.kwonlyargs]:
                if p in bind:
                    self.S.add_site(nm, p, freeze(*bind[p]))
            for t in S.used:
                for t2 in sub(t, "exact"):
                    self.S.used.add(t2)
            for e, g in S.eff.items():
                g2 = {}
                for (tag, key), st in g.items():
                    for t2, kind in sub(tag, "exact").items():
                        k2 = (t2, key if kind == "exact" else ("via",) + (key if key[0] != "via" else key[1:]))
                        g2[k2] = g2[k2] | st if k2 in g2 else set(st)
                for k, p in guards.items():
                    g2[k] = {p}
                self.S.merge_eff(e, g2)
            for (callee, param), vals in S.sites.items():
                for tags, const in vals:
                    t3 = {}
                    for t, kind in tags:
                        for t2, k2 in sub(t, kind).items():
                            t3[t2] = k2 if t3.get(t2, k2) == k2 else "derived"
                    c = const
                    if const is NOCONST and len(tags) == 1:
                        (t, kind), = tags
                        if kind == "exact" and t in bind and not bind[t][0]:
                            c = bind[t][1]
                    self.S.add_site(callee, param, freeze(t3, c))
        r = {}
        for t, kind in S.ret.items():
            for t2, k2 in sub(t, kind).items():
                r[t2] = k2
        return (r, NOCONST)


SETTINGS = set("""canonical_form zero_tol sanity_checks check_fac ev_arpack_ncv ev_arpack_nev ev_brute ev_use_arpack itr_atol itr_rtol
pow_itr_max symm_gauge K_solver gauge_fixing ham_sites ham_tp con_tol penalise_neg pinv_tol pinv_solver force_pseudo sanity_tol p left
pseudo tau PPinv_use_CUDA pinv_CUDA ev_arpack_CUDA CUDA_batch_maxD pinv_CUDA_batch N_centre""".split())


def operations(prog):
    """(name, function, class, module) of every public operation, per class that has it"""
    out = []
    for m in prog.mods.values():
        if m.name in SKIPMODS:
            continue
        for f in m.funcs.values():
            if not f.name.startswith("_"):
                out.append(("%s.%s" % (m.name, f.name), f, None, m))
    for cn in sorted(prog.classes):
        c = prog.classes[cn]
        if c._mod.name in SKIPMODS or cn.endswith("CUDA"):
            continue
        seen = set()
        for k in prog.mro(cn):
            for nm, f in k._methods.items():
                if nm in seen or (nm.startswith("_") and nm != "__init__"):
                    continue
                seen.add(nm)
                out.append(("%s.%s" % (cn, nm), f, cn, f._mod))
    return out


def pkg_names(prog):
    out = set()
    for m in prog.mods.values():
        if m.name in SKIPMODS:
            continue
        out |= set(m.funcs)
        out |= set(m.classes)
    for c in prog.classes.values():
        out |= set(c._methods)
    return out


def simple(c):
    return isinstance(c, (bool, int, float, str)) or c is None


def enc(c):
    if c is ANYC:
        return ANY
    return "?" if c is NOCONST or not simple(c) else repr(c)


def inventory(prog):
    A = Analysis(prog, {c: SETTINGS for c in prog.classes})
    pk = pkg_names(prog)
    inv = {}
    for name, fn, cls, mod in operations(prog):
        S = A.summary(fn, cls, mod)
        params = [x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        if cls and params and params[0] in ("self", "cls"):
            params = params[1:]
        own = set(params)
        isopt = lambda t: t in own or t.startswith("self.")
        sites = {}
        for (callee, p), vals in S.sites.items():
            if p == "<keywords>":
                sites["%s|%s" % (callee, p)] = sorted(c for _, c in vals)
                continue
            if callee not in pk and callee != name.split(".")[-1] and not callee.startswith((".", "self.")) and p.isdigit():
                continue
            if p.isdigit() and callee.startswith(".") and callee[1:] not in pk:
                continue
            sites["%s|%s" % (callee, p)] = sorted({json_key(t, c) for t, c in vals})
        eff = {}
        for e, g in S.eff.items():
            if e.startswith(".") and e[1:] not in pk or not e.startswith((".", "self.")) and e not in pk and e not in ("raise", "call of a parameter"):
                continue
            gg = {}
            for (tag, key), st in g.items():
                if isopt(tag):
                    gg["%s|%s" % (tag, " ".join(key))] = "".join(sorted({"pos": "+", "neg": "-", "none": "0", "other": "?"}[x] for x in st))
            eff[e] = gg
        dfl = {}
        a = fn.args
        full = [x.arg for x in a.posonlyargs + a.args]
        W = Walk(A, Summary(), None, mod, None, fn)
        for x, d in list(zip(full[len(full) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            dfl[x] = enc(W.ev(d, {}, None)[1])
        inv[name] = dict(fn=fn, params=params, used=sorted(t for t in S.used if isopt(t)), sites=sites, eff=eff, defaults=dfl, over=sorted(S.over))
    return inv


def json_key(t, c):
    return ";".join("%s:%s" % (k, v[0]) for k, v in sorted(t)) + "|" + enc(c)
