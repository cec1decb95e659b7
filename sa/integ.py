"""C10: which linear combination of tangent vectors an integration step adds.

Abstract interpretation in a domain of linear forms: every per-site sequence
(self.A, tangent vectors, saved copies) is summarised by its entry at a generic
site, an entry being an exact linear form over the initial tensor and the
tangent vectors evaluated so far, with coefficients polynomial in the step size.
Containers and arrays are heap objects, so aliasing and in-place updates count.
Each evaluation of the tangent vector becomes a stage (a_ij, read off the form of
the state it is evaluated at); the final form gives the weights b_j."""
import ast
from fractions import Fraction
from .alg import Poly, aspoly
from .repo import qualname

AT = Poly.sym("@")


class Giveup(Exception):
    pass


# ---------------------------------------------------------------- forms
def fnorm(d):
    out = {}
    for m, c in d.items():
        m = list(m)
        sg = 1
        while m.count("I") >= 2:
            m.remove("I"); m.remove("I"); sg = -sg
        if "sqrt" in m:
            pass
        for a in list(m):
            if isinstance(a, tuple) and a[0] == "inv" and a[1] in m and a in m:
                m.remove(a); m.remove(a[1])
        for a in list(m):
            if isinstance(a, tuple) and a[0] == "sqrt" and m.count(a) >= 2:
                m.remove(a); m.remove(a); m.append(a[1])
        k = tuple(sorted(m, key=repr))
        v = out.get(k, 0) + c * sg
        if v:
            out[k] = v
        else:
            out.pop(k, None)
    return out


def fadd(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        v = d.get(m, 0) + s * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return d


def fmul(a, b):
    d = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = tuple(sorted(m + m2, key=repr))
            d[k] = d.get(k, 0) + c * c2
    return fnorm({k: v for k, v in d.items() if v})


def fconst(c):
    return {(): Fraction(c)} if c else {}


def isvec(a):
    return isinstance(a, tuple) and a[0] in ("A", "k", "B", "X", "op")


def fsub(f, m):
    """substitute site symbols in vector atoms"""
    out = {}
    for mo, c in f.items():
        k = tuple(sorted((tuple(x.subst(m) if isinstance(x, Poly) else x for x in a) if isinstance(a, tuple) else a for a in mo), key=repr))
        out[k] = out.get(k, 0) + c
    return {k: v for k, v in out.items() if v}


# ---------------------------------------------------------------- values
class S(object):
    """scalar form"""
    def __init__(self, f):
        self.f = f


class Ref(object):
    def __init__(self, i):
        self.i = i


class K(object):
    def __init__(self, v):
        self.v = v


class Sym(object):
    """opaque value with a name (options, other objects)"""
    def __init__(self, nm):
        self.nm = nm


class Tup(object):
    def __init__(self, items):
        self.items = items


class Fn(object):
    def __init__(self, node, env=None, me=None, cls=None):
        self.node, self.env, self.me, self.cls = node, env, me, cls


class Obj(object):
    def __init__(self, cls, nm="self"):
        self.cls, self.nm = cls, nm


TOP = Sym("?")


class Arr(object):
    """array: dict block -> form (None = unknown)"""
    def __init__(self, f, shape=None):
        self.b = f if isinstance(f, dict) and (0, 0) in f else {(0, 0): f}


class Lst(object):
    """sequence summarised by its entry at site '@' """
    def __init__(self, el, kind="list"):
        self.el, self.kind = el, kind


class St(object):
    def __init__(self):
        self.env, self.heap, self.attrs = [{}], {}, {}
        self.stages, self.derived, self.stale, self.conds = [], {}, [], []
        self.pend = []

    def clone(self):
        s = St()
        s.env = [dict(e) for e in self.env]
        for i, o in self.heap.items():
            s.heap[i] = Arr(dict(o.b)) if isinstance(o, Arr) else Lst(o.el, o.kind)
        s.attrs = dict(self.attrs)
        s.stages, s.derived, s.stale, s.conds = list(self.stages), dict(self.derived), list(self.stale), list(self.conds)
        s.pend = list(self.pend)
        return s


class Lin(object):
    MAXP = 96

    def __init__(self, prog, cls, nosite=False, opts=None):
        self.prog, self.cls, self.nosite = prog, cls, nosite
        self.n = 0
        self.opts = opts or {}
        self.depth = 0
        self.steps = 0
        self.log = []

    # -------------------------------------------------- heap
    def new(self, st, o):
        self.n += 1
        st.heap[self.n] = o
        return Ref(self.n)

    def arr(self, st, f):
        return self.new(st, Arr(f))

    def newk(self, st):
        # tangent vector at the present state
        if self.nosite:
            return K(None)
        j = self.stage(st)
        return self.arr(st, {(("k", j, AT),): Fraction(1)})

    def curA(self, st):
        a = st.attrs.get("A")
        o = st.heap.get(a.i) if isinstance(a, Ref) else None
        if isinstance(o, Lst) and isinstance(o.el, Ref) and isinstance(st.heap[o.el.i], Arr):
            return st.heap[o.el.i].b
        return None

    def blk(self, b):
        if b is None:
            return None
        if any(v is None for v in b.values()):
            return None
        return tuple(sorted((k, tuple(sorted(v.items(), key=repr))) for k, v in b.items()))

    def stage(self, st):
        f = self.blk(self.curA(st))
        for j, (g, ok) in enumerate(st.stages):
            if g == f and f is not None:
                return j
        bad = [d for d in ("l", "r", "C", "K") if st.derived.get(d) != f]
        st.stages.append((f, bad))
        return len(st.stages) - 1

    # -------------------------------------------------- statements
    def block(self, body, st):
        outs = [(None, None, st)]
        for n in body:
            nxt = []
            for sig, v, s in outs:
                if sig:
                    nxt.append((sig, v, s))
                else:
                    nxt.extend(self.stmt(n, s))
            outs = nxt
            if len(outs) > self.MAXP:
                raise Giveup("too many paths")
        return outs

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > 60000:
            raise Giveup("too many steps")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(None, None, st)]
        return m(n, st)

    def s_Pass(self, n, st):
        return [(None, None, st)]

    def s_Expr(self, n, st):
        return [(None, None, s) for v, s in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [("return", K(None), st)]
        return [("return", v, s) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        return []

    def s_Assert(self, n, st):
        if isinstance(n.test, ast.Constant) and not n.test.value:
            return []
        return [(None, None, st)]

    def s_Break(self, n, st):
        return [("break", None, st)]

    def s_Continue(self, n, st):
        return [("continue", None, st)]

    def s_FunctionDef(self, n, st):
        st.env[-1][n.name] = Fn(n, len(st.env) - 1)
        return [(None, None, st)]

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            for t in n.targets:
                self.assign(t, v, s)
            out.append((None, None, s))
        return out

    def s_AnnAssign(self, n, st):
        return self.s_Assign(ast.Assign(targets=[n.target], value=n.value), st) if n.value else [(None, None, st)]

    def s_AugAssign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            load = ast.copy_location(self.asload(n.target), n.target)
            for cur, s2 in self.ev(load, s):
                if isinstance(n.target, ast.Subscript):
                    b0 = self.ev(self.asload(n.target.value), s2)[0][0]
                    if isinstance(b0, Ref) and isinstance(s2.heap.get(b0.i), Lst):
                        self.wrote(s2, s2.heap[b0.i], self.ev(self.asload(n.target.slice), s2)[0][0])
                if isinstance(cur, Ref) and isinstance(s2.heap[cur.i], Arr):
                    o = s2.heap[cur.i]
                    blk = self.slices(n.target, s2)
                    if blk is not None:
                        base = self.ev(self.asload(n.target.value), s2)[0][0]
                        o = s2.heap[base.i] if isinstance(base, Ref) else o
                        if blk == "all":
                            blk = (0, 0)
                        o.b[blk] = self.aform(n.op, o.b.get(blk, {}), v, s2)
                    else:
                        r = self.aform(n.op, o.b.get((0, 0)), v, s2)
                        multi = len(o.b) > 1
                        o.b = {(0, 0): None if multi else r}
                elif isinstance(cur, Ref) and isinstance(s2.heap[cur.i], Lst):
                    lo = s2.heap[cur.i]
                    if lo.kind == "list":
                        pass        # list.__iadd__ appends behind the entries of the sites
                    else:
                        el = self.at(s2, cur, AT)
                        vv = v
                        if isinstance(v, Ref) and isinstance(s2.heap[v.i], Lst):
                            vv = self.at(s2, v, AT)
                        if isinstance(el, Ref):
                            o = s2.heap[el.i]
                            o.b = {(0, 0): self.aform(n.op, o.b.get((0, 0)), vv, s2)}
                else:
                    r = self.binop(n.op, cur, v, s2)
                    self.assign(n.target, r, s2)
                out.append((None, None, s2))
        return out

    def asload(self, t):
        t = ast.parse(ast.unparse(t), mode="eval").body
        return t

    def s_If(self, n, st):
        out = []
        for v, s in self.cond(n.test, st):
            if v is not False:
                a = s.clone() if v is None else s
                if v is None:
                    a.conds.append(ast.unparse(n.test))
                    self.refine(n.test, True, a)
                out.extend(self.block(n.body, a))
            if v is not True:
                b = s
                if v is None:
                    b.conds.append("not(" + ast.unparse(n.test) + ")")
                    self.refine(n.test, False, b)
                out.extend(self.block(n.orelse, b))
        return out

    def refine(self, t, val, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, not val, st)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                for x in t.values:
                    self.refine(x, val, st)
            return
        st.attrs[("cond", ast.unparse(t))] = val

    def s_For(self, n, st):
        return self.loop(n, st)

    def s_While(self, n, st):
        r = []
        for sig, v, s in self.block(n.body, st):
            if sig in ("break", "continue", None):
                r.append((None, None, s))
            else:
                r.append((sig, v, s))
        return r

    def loop(self, n, st):
        res = []
        self.n += 1
        k = Poly.sym("i%d" % self.n)
        for it, s in self.ev(n.iter, st):
            pre = dict(s.env[-1])
            pre_heap = {i: Arr(dict(o.b)) for i, o in s.heap.items() if isinstance(o, Arr)}
            members = self.members(s)
            el = self.iterval(it, k, s)
            self.assign(n.target, el, s)
            s.pend.append(k)
            for sig, v, s2 in self.block(n.body, s):
                if s2.pend and s2.pend[-1] is k or True:
                    s2.pend = [x for x in s2.pend if x is not k]
                if sig == "return":
                    res.append((sig, v, s2))
                    continue
                # accumulators: a scalar or lone array changed by the loop is unknown afterwards
                for nm, v0 in pre.items():
                    v1 = s2.env[-1].get(nm)
                    if v1 is not v0 and isinstance(v0, (S, Poly, K)) and isinstance(v1, (S, Poly)):
                        s2.env[-1][nm] = TOP
                for i, o0 in pre_heap.items():
                    if i in members:
                        continue
                    o1 = s2.heap.get(i)
                    if isinstance(o1, Arr) and o1.b != o0.b:
                        o1.b = {(0, 0): None}
                res.append((None, None, s2))
        return res

    def members(self, st):
        """arrays that are entries of a per-site sequence: one per site, so a loop over
        the sites touches each of them once"""
        return set(o.el.i for o in st.heap.values() if isinstance(o, Lst) and isinstance(o.el, Ref))

    def iterval(self, it, k, st):
        if isinstance(it, tuple):
            kind = it[0]
            if kind == "range":
                return k
            if kind == "enum":
                return Tup([k, self.iterval(it[1], k, st)])
            if kind == "zip":
                return Tup([self.iterval(x, k, st) for x in it[1]])
            if kind == "rev":
                return self.iterval(it[1], k, st)
        if isinstance(it, Ref) and isinstance(st.heap[it.i], Lst):
            return self.at(st, it, k)
        return TOP

    def s_With(self, n, st):
        return self.block(n.body, st)

    def s_Try(self, n, st):
        outs = self.block(n.body, st)
        r = []
        for sig, v, s in outs:
            if sig is None:
                for x in self.block(n.orelse, s):
                    r.extend(self.fin(n, x))
            else:
                r.extend(self.fin(n, (sig, v, s)))
        return r

    def fin(self, n, x):
        sig, v, s = x
        r = []
        for g, w, s2 in self.block(n.finalbody, s):
            r.append((g, w, s2) if g else (sig, v, s2))
        return r

    # -------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[-1][t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)[0][0]
            if isinstance(b, Obj) and b.nm == "self":
                st.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, st)
            else:
                for x in t.elts:
                    self.assign(x, TOP, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(self.asload(t.value), st)[0][0]
            if not isinstance(base, Ref):
                return
            o = st.heap[base.i]
            if isinstance(o, Lst):
                if isinstance(t.slice, ast.Slice):
                    if isinstance(v, Ref) and isinstance(st.heap[v.i], Lst):
                        o.el = st.heap[v.i].el
                    return
                i = self.ev(t.slice, st)[0][0]
                if isinstance(i, Poly) and i.cval() is not None and st.pend == []:
                    return      # a boundary entry
                if not isinstance(i, Poly):
                    o.el = TOP if not isinstance(v, K) else v
                    return
                # object arrays hold references as lists do
                self.setat(st, o, i, v)
            else:
                blk = self.slices(t, st)
                f = self.formof(v, st)
                if blk == "all":
                    o.b = {(0, 0): f}
                elif blk is not None:
                    if o.b == {(0, 0): {}}:
                        o.b = {k: {} for k in ((0, 0), (0, 1), (1, 0), (1, 1))}
                    if blk == (0, 0) and isinstance(v, Ref) and isinstance(st.heap[v.i], Arr):
                        o.b.update({k: x for k, x in st.heap[v.i].b.items()})
                    o.b[blk] = f
                else:
                    # single component: a loop over components is a pointwise update
                    o.b = {(0, 0): self.comp(o, f)}

    def comp(self, o, f):
        return f

    def slices(self, t, st):
        """block of a 3-axis tensor addressed by [:, :a, b:], 'all' for [...], None otherwise"""
        if not isinstance(t, ast.Subscript):
            return None
        sl = t.slice
        el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        base = self.ev(self.asload(t.value), st)[0][0]
        if not (isinstance(base, Ref) and isinstance(st.heap.get(base.i), Arr)):
            return None
        if all(isinstance(x, ast.Slice) and x.lower is None and x.upper is None for x in el) or (len(el) == 1 and isinstance(el[0], ast.Constant) and el[0].value is Ellipsis):
            return "all"
        if len(el) == 3 and all(isinstance(x, ast.Slice) for x in el):
            r = []
            for x in el[1:]:
                if x.lower is None:
                    r.append(0)
                elif x.upper is None:
                    r.append(1)
                else:
                    return None
            return tuple(r)
        return None

    def wrote(self, st, o, i):
        a = st.attrs.get("A")
        if isinstance(a, Ref) and st.heap.get(a.i) is o and isinstance(i, Poly) and st.pend:
            self.log.append(("w", st.pend[-1], i))

    def setat(self, st, o, i, v):
        """o[i] = v at a generic site"""
        self.wrote(st, o, i)
        if isinstance(v, Ref) and isinstance(st.heap[v.i], Arr):
            a = st.heap[v.i]
            a.b = {k: None if f is None else self.rel(f, i) for k, f in a.b.items()}
        o.el = v

    def rel(self, f, i):
        out = {}
        for mo, c in f.items():
            k = []
            for a in mo:
                if isinstance(a, tuple) and isinstance(a[-1], Poly):
                    d = a[-1] - i
                    if a[-1].subst({"@": Poly.const(0)}) == a[-1]:
                        a = a[:-1] + (AT + d,)
                k.append(a)
            k = tuple(sorted(k, key=repr))
            out[k] = out.get(k, 0) + c
        return out

    def at(self, st, ref, i):
        """entry of a sequence at index i (the array object itself: in-place updates reach it)"""
        o = st.heap[ref.i]
        return o.el

    # -------------------------------------------------- expressions
    def cond(self, t, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(None if v is None else not v, s) for v, s in self.cond(t.operand, st)]
        if isinstance(t, ast.BoolOp):
            outs = [(True if isinstance(t.op, ast.And) else False, st)]
            stop = isinstance(t.op, ast.Or)
            r = []
            cur = [(not stop, st)]
            unk = False
            for x in t.values:
                nxt = []
                for v, s in cur:
                    for w, s2 in self.cond(x, s):
                        if w is stop:
                            r.append((stop, s2))
                        else:
                            nxt.append((None if (w is None or v is None) else (not stop), s2))
                cur = nxt
            return r + cur
        if ("cond", ast.unparse(t)) in st.attrs:
            return [(st.attrs[("cond", ast.unparse(t))], st)]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            r = []
            for v, s in self.ev(t.left, st):
                x = None
                if isinstance(v, K):
                    x = v.v is None
                elif isinstance(v, (Ref, S, Poly, Tup, Obj, Fn)):
                    x = False
                if x is not None and isinstance(t.ops[0], ast.IsNot):
                    x = not x
                r.append((x, s))
            return r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            r = []
            for v, s in self.ev(t.left, st):
                for w, s2 in self.ev(t.comparators[0], s):
                    x = None
                    if isinstance(v, K) and isinstance(w, K):
                        x = v.v == w.v
                        if isinstance(t.ops[0], ast.NotEq):
                            x = not x
                    elif isinstance(v, Poly) and isinstance(w, Poly) and (v - w).cval() is not None:
                        x = ((v - w).cval() == 0) == isinstance(t.ops[0], ast.Eq)
                    r.append((x, s2))
            return r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and st.pend:
            # site against the ends of the chain: take the bulk
            for v, s in self.ev(t.left, st):
                for w, s2 in self.ev(t.comparators[0], s):
                    if isinstance(v, Poly) and isinstance(w, Poly):
                        d = v - w
                        ks = [k for k in s2.pend if any(list(k.d)[0][0] in m for m in d.d)]
                        if ks:
                            c = d.d.get(list(ks[-1].d)[0], 0)
                            big = any(x in ("N", "L") for m in d.d for x in m)
                            less = (c > 0) == big
                            return [(less == isinstance(t.ops[0], (ast.Lt, ast.LtE)), s2)]
        r = []
        for v, s in self.ev(t, st):
            if isinstance(v, K):
                r.append((bool(v.v), s))
            elif isinstance(v, Poly) and v.cval() is not None:
                r.append((bool(v.cval()), s))
            else:
                r.append((None, s))
        return r

    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        return m(n, st) if m else [(TOP, st)]

    def evs(self, ns, st):
        outs = [([], st)]
        for x in ns:
            outs = [(vs + [v], s2) for vs, s in outs for v, s2 in self.ev(x, s)]
        return outs

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return [(K(v), st)]
        if isinstance(v, complex):
            return [(S({("I",): Fraction(v.imag).limit_denominator(10**12)}), st)]
        if isinstance(v, (int, float)):
            return [(Poly.const(Fraction(v).limit_denominator(10**12)), st)]
        return [(TOP, st)]

    def e_Name(self, n, st):
        for e in reversed(self.scopes(st)):
            if n.id in e:
                return [(e[n.id], st)]
        return [(Sym(n.id), st)]

    def scopes(self, st):
        e = st.env[-1]
        r = [e]
        while "__up__" in e:
            e = st.env[e["__up__"]]
            r.insert(0, e)
        return r

    def e_Attribute(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if isinstance(b, Obj) and b.nm == "self":
                if n.attr in s.attrs:
                    out.append((s.attrs[n.attr], s))
                else:
                    fn = self.prog.method(self.cls, n.attr)
                    out.append((Fn(fn, None, b, fn._cls.name) if fn is not None else Sym("self." + n.attr), s))
            elif isinstance(b, Ref):
                if n.attr in ("T",):
                    out.append((self.wrap(b, "T", s), s))
                elif n.attr in ("real", "imag"):
                    out.append((TOP, s))
                else:
                    out.append((("meth", b, n.attr), s))
            elif isinstance(b, S) and n.attr in ("real", "imag"):
                out.append((TOP, s))
            elif isinstance(b, Sym):
                out.append((Sym(b.nm + "." + n.attr), s))
            else:
                out.append((TOP, s))
        return out

    def wrap(self, b, w, st):
        o = st.heap[b.i]
        if not isinstance(o, Arr) or o.b.get((0, 0)) is None or len(o.b) > 1:
            return self.new(st, Arr(None))
        f = {}
        for mo, c in o.b[(0, 0)].items():
            k = []
            for a in mo:
                if w == "c" and a == "I":
                    c = -c
                elif isinstance(a, tuple) and a[0] == w:
                    a = a[1]
                elif isinstance(a, tuple):
                    # conj and transpose commute: keep them in one order
                    if w == "c" and a[0] == "T":
                        inner = a[1]
                        inner = inner[1] if inner[0] == "c" else ("c", inner)
                        a = ("T", inner)
                    else:
                        a = (w, a)
                k.append(a)
            f[tuple(sorted(k, key=repr))] = c
        return self.arr(st, f)

    def e_Tuple(self, n, st):
        return [(Tup(vs), s) for vs, s in self.evs(n.elts, st)]

    def e_List(self, n, st):
        out = []
        for vs, s in self.evs(n.elts, st):
            el = K(None)
            for v in vs:
                if not isinstance(v, K):
                    el = v
            out.append((self.new(s, Lst(el)), s))
        return out

    def e_IfExp(self, n, st):
        out = []
        for v, s in self.cond(n.test, st):
            if v is None:
                a = s.clone()
                self.refine(n.test, True, a)
                self.refine(n.test, False, s)
                out += self.ev(n.body, a) + self.ev(n.orelse, s)
            else:
                out += self.ev(n.body if v else n.orelse, s)
        return out

    def e_ListComp(self, n, st):
        if len(n.generators) != 1:
            return [(TOP, st)]
        g = n.generators[0]
        self.n += 1
        k = Poly.sym("i%d" % self.n)
        out = []
        for it, s in self.ev(g.iter, st):
            s.env.append(dict(__up__=len(s.env) - 1))
            if len(s.env) >= 2:
                s.env[-1]["__up__"] = len(s.env) - 2
            self.assign(g.target, self.iterval(it, k, s), s)
            s.pend.append(k)
            for v, s2 in self.ev(n.elt, s):
                s2.env.pop()
                s2.pend = [x for x in s2.pend if x is not k]
                o = Lst(K(None))
                r = self.new(s2, o)
                self.setat(s2, o, k, v) if not isinstance(v, Sym) else setattr(o, "el", v)
                out.append((r, s2))
        return out

    e_GeneratorExp = e_ListComp

    def e_Lambda(self, n, st):
        return [(Fn(n, len(st.env) - 1), st)]

    def e_Compare(self, n, st):
        return [(K(v) if v is not None else TOP, s) for v, s in self.cond(n, st)] if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) else [(TOP, st)]

    def e_BoolOp(self, n, st):
        return [(K(v) if v is not None else TOP, s) for v, s in self.cond(n, st)]

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(K(v) if v is not None else TOP, s) for v, s in self.cond(n, st)]
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                v = self.binop(ast.Mult(), Poly.const(-1), v, s)
            out.append((v, s))
        return out

    def e_BinOp(self, n, st):
        return [(self.binop(n.op, a, b, s), s) for (a, b), s in self.evs([n.left, n.right], st)]

    def scal(self, v):
        if isinstance(v, S):
            return v.f
        if isinstance(v, Poly):
            c = v.cval()
            return fconst(c) if c is not None else None
        return None

    def formof(self, v, st):
        if isinstance(v, Ref) and isinstance(st.heap[v.i], Arr):
            return st.heap[v.i].b.get((0, 0)) if len(st.heap[v.i].b) == 1 else None
        s = self.scal(v)
        return s

    def inv(self, f):
        if f is None or len(f) != 1:
            return None
        (m, c), = f.items()
        k = []
        sg = Fraction(1)
        for a in m:
            if a == "I":
                sg = -sg
                k.append("I")
            else:
                k.append(("inv", a))
        return {tuple(sorted(k, key=repr)): sg / c}

    def aform(self, op, f, v, st):
        """form of 'array op= v' """
        g = self.formof(v, st)
        if f is None or g is None:
            return None
        if isinstance(op, ast.Add):
            return fadd(f, g)
        if isinstance(op, ast.Sub):
            return fadd(f, g, -1)
        if isinstance(op, ast.Mult):
            return fmul(f, g) if not (self.hasvec(f) and self.hasvec(g)) else None
        if isinstance(op, ast.Div):
            i = self.inv(g)
            return fmul(f, i) if i is not None and not self.hasvec(g) else None
        return None

    def hasvec(self, f):
        return any(not isinstance(a, str) and a[0] not in ("inv", "sqrt", "sc") for m in f for a in m)

    def binop(self, op, a, b, st):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Mod):
                return a if a.cval() is None else TOP
            if isinstance(op, ast.Div) and a.cval() is not None and b.cval():
                return Poly.const(Fraction(a.cval()) / Fraction(b.cval()))
            if isinstance(op, ast.Pow) and a.cval() is not None and b.cval() is not None and Fraction(b.cval()).denominator == 1:
                return Poly.const(Fraction(a.cval()) ** int(b.cval()))
            return TOP
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st.heap[x.i], Lst):
                o = st.heap[x.i]
                if o.kind == "list" and isinstance(op, ast.Mult) and not (isinstance(y, Ref)):
                    return self.new(st, Lst(o.el))
                if o.kind == "list" and isinstance(op, ast.Add) and isinstance(y, Ref) and isinstance(st.heap[y.i], Lst):
                    o2 = st.heap[y.i]
                    el = o.el if not isinstance(o.el, K) else o2.el
                    return self.new(st, Lst(el))
                if o.kind != "list":
                    u = self.at(st, a, AT) if isinstance(a, Ref) and isinstance(st.heap[a.i], Lst) else a
                    w = self.at(st, b, AT) if isinstance(b, Ref) and isinstance(st.heap[b.i], Lst) else b
                    return self.new(st, Lst(self.binop(op, u, w, st), "objarr"))
                return TOP
        arr = [isinstance(x, Ref) and isinstance(st.heap[x.i], Arr) for x in (a, b)]
        if any(arr):
            f, g = self.formof(a, st), self.formof(b, st)
            if f is None or g is None:
                return self.new(st, Arr(None))
            r = None
            if isinstance(op, ast.Add):
                r = fadd(f, g)
            elif isinstance(op, ast.Sub):
                r = fadd(f, g, -1)
            elif isinstance(op, ast.Mult):
                r = fmul(f, g) if not (self.hasvec(f) and self.hasvec(g)) else None
            elif isinstance(op, ast.Div):
                i = self.inv(g)
                r = fmul(f, i) if i is not None else None
            elif isinstance(op, ast.MatMult):
                r = self.dot(f, g)
            return self.new(st, Arr(r))
        f, g = self.scal(a), self.scal(b)
        if f is None or g is None:
            return TOP
        if isinstance(op, ast.Add):
            return S(fadd(f, g))
        if isinstance(op, ast.Sub):
            return S(fadd(f, g, -1))
        if isinstance(op, ast.Mult):
            return S(fmul(f, g))
        if isinstance(op, ast.Div):
            i = self.inv(g)
            return S(fmul(f, i)) if i is not None else TOP
        if isinstance(op, ast.Pow) and isinstance(b, Poly) and b.cval() in (1, 2, 3, 4):
            r = fconst(1)
            for _ in range(int(b.cval())):
                r = fmul(r, f)
            return S(r)
        if isinstance(op, ast.Pow) and isinstance(b, Poly) and b.cval() == Fraction(1, 2):
            return self.sqrt(a)
        return TOP

    def dot(self, f, g):
        d = {}
        for m, c in f.items():
            for m2, c2 in g.items():
                v1 = tuple(x for x in m if isinstance(x, tuple) and x[0] not in ("inv", "sqrt", "sc"))
                v2 = tuple(x for x in m2 if isinstance(x, tuple) and x[0] not in ("inv", "sqrt", "sc"))
                rest = tuple(x for x in m + m2 if x not in v1 and x not in v2)
                if len(v1) != 1 or len(v2) != 1:
                    return None
                s1 = v1[0][-1] if isinstance(v1[0][-1], Poly) else None
                k = tuple(sorted(rest + (("dot", v1[0], v2[0]),), key=repr))
                d[k] = d.get(k, 0) + c * c2
        return d

    def sqrt(self, v):
        f = self.scal(v)
        if f is None or len(f) != 1:
            return TOP
        (m, c), = f.items()
        if m == ("dtau",) and c == 1:
            return S({(("sqrt", "dtau"),): Fraction(1)})
        if m == () and c > 0:
            r = Fraction(c)
            import math
            p, q = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if p * p == r.numerator and q * q == r.denominator:
                return S({(): Fraction(p, q)})
            return S({(("sqrt", str(r)),): Fraction(1)})
        return TOP

    def e_Subscript(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if isinstance(b, Ref):
                o = s.heap[b.i]
                if isinstance(o, Lst):
                    if isinstance(n.slice, ast.Slice):
                        # list slices copy the container; slices of object arrays are views
                        out.append((self.new(s, Lst(o.el)) if o.kind == "list" else b, s))
                        continue
                    for i, s2 in self.ev(n.slice, s):
                        out.append((self.shifted(o.el, i, s2), s2))
                    continue
                blk = self.slices(n, s)
                if blk == "all" or blk == (0, 0) and len(o.b) == 1:
                    out.append((b, s))
                elif blk is not None:
                    out.append((("view", b, blk), s))
                    out[-1] = (self.new(s, Arr(o.b.get(blk, {}))), s)
                else:
                    out.append((self.new(s, Arr(o.b.get((0, 0)) if len(o.b) == 1 else None)), s))
            elif isinstance(b, Tup):
                for i, s2 in self.ev(n.slice, s):
                    c = i.cval() if isinstance(i, Poly) else None
                    out.append((b.items[int(c)] if c is not None and -len(b.items) <= c < len(b.items) else TOP, s2))
            elif isinstance(b, Sym):
                out.append((TOP, s))
            else:
                out.append((TOP, s))
        return out

    def shifted(self, el, i, st):
        """entry at index i.  Reading a neighbouring site yields that site's vector"""
        if not (isinstance(el, Ref) and isinstance(st.heap.get(el.i), Arr)) or not isinstance(i, Poly) or not st.pend:
            return el
        for k in reversed(st.pend):
            (sym,), = k.d.keys()
            if any(sym in mono for mono in i.d):
                d = i - k
                cv = d.cval()
                if cv is None or cv == 0 or st.attrs.get("__m__") == d:
                    return el
                o = st.heap[el.i]
                w = getattr(self, "_written", None)
                return self.new(st, Arr({b: None if f is None else fsub(f, {"@": AT + d}) for b, f in o.b.items()}))
        return el

    def e_Call(self, n, st):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            cls = f.value.args[0].id if f.value.args and isinstance(f.value.args[0], ast.Name) else st.env[-1].get("__cls__", K(None)).v
            fn = self.prog.method(self.cls, f.attr, after=cls)
            if fn is None:
                return [(TOP, st)]
            return self.callnode(n, Fn(fn, None, Obj(self.cls), fn._cls.name), st, f.attr)
        out = []
        for fv, s in self.ev(f, st):
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            out.extend(self.callnode(n, fv, s, nm))
        return out

    def callnode(self, n, fv, st, nm):
        args = [a for a in n.args if not isinstance(a, ast.Starred)]
        kws = [k for k in n.keywords if k.arg]
        out = []
        for vs, s in self.evs(args + [k.value for k in kws], st):
            pos, kw = vs[:len(args)], dict(zip([k.arg for k in kws], vs[len(args):]))
            out.extend(self.call(fv, nm, pos, kw, s, n))
        return out

    PRIM = {"calc_B", "calc_B_n", "_calc_B_r_n", "_calc_B_l_n", "calc_l", "calc_r", "calc_lr", "calc_C", "calc_K", "calc_K_l", "calc_AA", "expand_D", "_init_arrays", "restore_CF",
            "calc_BB", "calc_B_2s", "calc_BB_2s", "calc_BB_Y_2s", "simple_renorm", "auto_truncate", "calc_l_r_roots", "_update_after_truncate", "expect_2s", "expect_3s", "expect_1s"}

    def call(self, fv, nm, pos, kw, st, node):
        if isinstance(fv, Fn) and isinstance(fv.me, Obj) and fv.me.nm == "self" and nm in self.PRIM:
            return self.prim(nm, pos, kw, st)
        if isinstance(fv, Fn):
            return self.inline(fv, pos, kw, st)
        if isinstance(fv, tuple) and fv[0] == "meth":
            return [(self.method(fv[1], fv[2], pos, kw, st), st)]
        if isinstance(fv, Sym):
            if "." not in fv.nm:
                fn = self.pkgfn(fv.nm, node)
                if fn is not None:
                    return self.inline(Fn(fn), pos, kw, st)
            return [(self.lib(fv.nm.split(".")[-1], fv.nm, pos, kw, st), st)]
        return [(TOP, st)]

    def pkgfn(self, nm, node):
        p = node
        while p is not None and not isinstance(p, ast.Module):
            p = getattr(p, "_parent", None)
        for m in self.prog.mods.values():
            if m.tree is p:
                f = self.prog.resolve_name(m, nm)
                return f if isinstance(f, ast.FunctionDef) else None
        return None

    def inline(self, fv, pos, kw, st):
        node = fv.node
        if self.depth > 12:
            raise Giveup("recursion")
        a = node.args
        names = [x.arg for x in a.args]
        env = {}
        if fv.env is not None:
            env["__up__"] = fv.env
        if fv.me is not None:
            pos = [fv.me] + list(pos)
        if fv.cls:
            env["__cls__"] = K(fv.cls)
        for nm, v in zip(names, pos):
            env[nm] = v
        for k, v in kw.items():
            env[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for nm, d in defs.items():
            if nm not in env:
                env[nm] = self.ev(d, st)[0][0]
        for nm in names:
            env.setdefault(nm, TOP)
        st.env.append(env)
        self.depth += 1
        depth = len(st.env)
        try:
            if isinstance(node, ast.Lambda):
                outs = [("return", v, s) for v, s in self.ev(node.body, st)]
            else:
                outs = self.block(node.body, st)
        finally:
            self.depth -= 1
        res = []
        for sig, v, s in outs:
            del s.env[depth - 1:]
            res.append((v if sig == "return" else K(None), s))
        return res

    def prim(self, nm, pos, kw, st):
        f = self.blk(self.curA(st))
        if nm == "calc_B":
            b = self.new(st, Lst(self.newk(st)))
            rx = kw.get("return_x")
            return [(b if not (isinstance(rx, K) and rx.v) else Tup([b, TOP]), st)]
        if nm in ("calc_B_n", "_calc_B_r_n", "_calc_B_l_n"):
            i = pos[0] if pos else kw.get("n")
            if isinstance(i, Poly) and st.pend:
                self.log.append(("c", st.pend[-1], i))
            return [(self.newk(st), st)]
        if nm in ("calc_l", "calc_r"):
            st.derived[nm[5:]] = f
            return [(K(None), st)]
        if nm == "calc_lr":
            st.derived["l"] = st.derived["r"] = f
            return [(K(None), st)]
        if nm == "calc_C":
            ca = pos[2] if len(pos) > 2 else kw.get("calc_AA")
            st.derived["C"] = f if not (isinstance(ca, K) and ca.v is False) or st.derived.get("AA") == f else "stale pair tensors"
            if not (isinstance(ca, K) and ca.v is False):
                st.derived["AA"] = f
            return [(K(None), st)]
        if nm == "calc_AA":
            st.derived["AA"] = f
            return [(K(None), st)]
        if nm in ("calc_K", "calc_K_l"):
            ok = st.derived.get("C") == f and st.derived.get("l") == f and st.derived.get("r") == f
            st.derived["K"] = f if ok else "computed from stale data"
            return [(Tup([TOP, TOP]), st)]
        if nm in ("restore_CF", "auto_truncate", "_update_after_truncate", "simple_renorm"):
            o = st.heap[st.attrs["A"].i]
            if isinstance(o.el, Ref):
                st.heap[o.el.i].b = {(0, 0): {(("X", "gauge-changed", AT),): Fraction(1)}}
            f = self.blk(self.curA(st))
            for d in "lr":
                st.derived[d] = f
            return [(TOP, st)]
        if nm == "expand_D":
            A = self.curA(st)
            zero = all(isinstance(kw.get(x, K(None)), Poly) and kw[x].cval() == 0 for x in ("refac", "imfac"))
            o = st.heap[st.attrs["A"].i]
            b = {(0, 0): dict(A[(0, 0)]) if A and A[(0, 0)] is not None else None}
            for k in ((0, 1), (1, 0), (1, 1)):
                b[k] = {} if zero else None
            o.el = self.new(st, Arr(b))
            st.attrs["A"] = self.new(st, Lst(o.el, o.kind))
            return [(K(None), st)]
        if nm == "_init_arrays":
            old = st.heap[st.attrs["A"].i]
            st.attrs["A"] = self.new(st, Lst(self.new(st, Arr({k: {} for k in ((0, 0), (0, 1), (1, 0), (1, 1))})), old.kind))
            return [(K(None), st)]
        if nm in ("calc_BB", "calc_B_2s", "calc_BB_2s"):
            bad = self.stage(st)
            l1 = self.new(st, Lst(self.arr(st, {(("B", "BB12", bad, AT),): Fraction(1)})))
            l2 = self.new(st, Lst(self.arr(st, {(("B", "BB21", bad, AT),): Fraction(1)})))
            return [(Tup([l1, l2, Sym("dD")]), st)]
        if nm == "calc_BB_Y_2s":
            self.stage(st)
            return [(Tup([TOP, TOP]), st)]
        if nm == "calc_l_r_roots":
            return [(Tup([TOP] * 4), st)]
        if nm.startswith("expect"):
            return [(S({(("sc", "<L>"),): Fraction(1)}), st)]
        return [(TOP, st)]

    def method(self, b, nm, pos, kw, st):
        o = st.heap[b.i]
        if isinstance(o, Lst):
            if nm == "append":
                if o.el is not None and not (isinstance(o.el, K) and o.el.v is None) and not isinstance(pos[0], Ref):
                    return K(None)
                if isinstance(pos[0], Ref) and isinstance(st.heap[pos[0].i], Arr) and st.pend:
                    self.setat(st, o, st.pend[-1], pos[0])
                else:
                    o.el = pos[0]
                return K(None)
            if nm == "copy":
                return self.new(st, Lst(o.el, o.kind))
            if nm == "fill":
                o.el = pos[0]
                return K(None)
            return TOP
        if nm in ("copy", "astype", "reshape", "ravel", "view"):
            c = Arr(dict(o.b))
            return self.new(st, c) if nm != "view" else b
        if nm == "fill":
            f = self.scal(pos[0])
            o.b = {(0, 0): f}
            return K(None)
        if nm == "resize":
            return K(None)
        if nm in ("conj", "conjugate"):
            return self.wrap(b, "c", st)
        if nm == "transpose":
            return self.wrap(b, "T", st)
        if nm == "dot":
            f, g = self.formof(b, st), self.formof(pos[0], st)
            return self.new(st, Arr(self.dot(f, g) if f is not None and g is not None else None))
        return TOP

    def lib(self, nm, full, pos, kw, st):
        a = pos[0] if pos else None
        if nm in ("range", "xrange", "arange"):
            return ("range",)
        if nm == "enumerate":
            return ("enum", a)
        if nm == "zip":
            return ("zip", pos)
        if nm in ("reversed", "sorted", "iter"):
            return ("rev", a)
        if nm in ("deepcopy",):
            return self.deep(a, st)
        if nm in ("list", "tuple") and isinstance(a, Ref) and isinstance(st.heap[a.i], Lst):
            return self.new(st, Lst(st.heap[a.i].el))
        if nm == "copy" and isinstance(a, Ref):
            o = st.heap[a.i]
            return self.new(st, Lst(o.el, o.kind)) if isinstance(o, Lst) else self.new(st, Arr(dict(o.b)))
        if nm in ("array", "asarray", "ascontiguousarray") and isinstance(a, Ref):
            o = st.heap[a.i]
            if isinstance(o, Arr):
                return b_copy(self, st, o) if nm == "array" else a
            return self.new(st, Lst(o.el, "objarr"))
        if nm in ("empty", "zeros", "empty_like", "zeros_like"):
            obj = False
            if nm.endswith("_like"):
                obj = isinstance(a, Ref) and isinstance(st.heap[a.i], Lst)
            else:
                d = kw.get("dtype") or (pos[1] if len(pos) > 1 else None)
                obj = isinstance(d, Sym) and d.nm.split(".")[-1] in ("ndarray", "object", "object_")
            if obj:
                return self.new(st, Lst(K(None), "objarr"))
            return self.new(st, Arr({(0, 0): {}}))
        if nm == "sqrt":
            return self.sqrt(a)
        if nm in ("conj", "conjugate") and isinstance(a, Ref):
            return self.wrap(a, "c", st)
        if nm in ("conj", "conjugate") and isinstance(a, S):
            return S({m: c for m, c in a.f.items()})
        if nm in ("H",) and isinstance(a, Ref):
            return self.wrap(self.wrap(a, "c", st), "T", st)
        if nm == "dot" and len(pos) == 2:
            f, g = self.formof(pos[0], st), self.formof(pos[1], st)
            return self.new(st, Arr(self.dot(f, g) if f is not None and g is not None else None))
        if nm in ("add", "subtract", "multiply", "divide", "true_divide") and len(pos) >= 2:
            op = dict(add=ast.Add, subtract=ast.Sub, multiply=ast.Mult).get(nm, ast.Div)()
            r = self.binop(op, pos[0], pos[1], st)
            o = kw.get("out") or (pos[2] if len(pos) > 2 else None)
            if isinstance(o, Ref) and isinstance(st.heap[o.i], Arr):
                st.heap[o.i].b = {(0, 0): self.formof(r, st)}
                return o
            return r
        if nm == "normal":
            return Tup([TOP, TOP]) if False else TOP
        if nm == "len":
            return TOP
        if nm == "isinstance":
            return TOP
        return TOP

    def deep(self, a, st):
        if isinstance(a, Ref):
            o = st.heap[a.i]
            if isinstance(o, Arr):
                return self.new(st, Arr(dict(o.b)))
            return self.new(st, Lst(self.deep(o.el, st), o.kind))
        return a


def b_copy(L, st, o):
    return L.new(st, Arr(dict(o.b)))


# ------------------------------------------------------------------ runs
def initial(I, kind):
    st = St()
    a = I.arr(st, {(("A", "0", AT),): Fraction(1)})
    st.attrs["A"] = I.new(st, Lst(a, kind))
    st.attrs["sanity_checks"] = K(False)
    for x in ("eta_sq", "etaBB_sq", "h_expect"):
        st.attrs[x] = Sym("self." + x)
    st.attrs["ham_sites"] = Poly.sym("hs")
    st.attrs["N"], st.attrs["L"] = Poly.sym("N"), Poly.sym("L")
    f = I.blk(I.curA(st))
    for d in ("l", "r", "C", "K", "AA"):
        st.derived[d] = f
    return st


DT = S({("dtau",): Fraction(1)})


def coeff(form, atom):
    """coefficient of a vector atom as a scalar form; rest"""
    c, rest = {}, {}
    for m, v in form.items():
        if atom in m:
            k = list(m)
            k.remove(atom)
            c[tuple(k)] = v
        else:
            rest[m] = v
    return c, rest


def dtcoef(c):
    """c == x * dtau -> x else None"""
    if not c:
        return Fraction(0)
    if len(c) == 1 and ("dtau",) in c:
        return c[("dtau",)]
    return None


def fr(f):
    if f is None:
        return "?"
    return " + ".join("%s·%s" % (c, "·".join(a if isinstance(a, str) else "%s%s" % (a[0], "".join("[%s]" % (x,) for x in a[1:])) for a in m)) for m, c in sorted(f.items(), key=repr)) or "0"


def analyse(prog, ctx, cls, meth, kw, kind, nosite, label, rk):
    fn = prog.method(cls, meth)
    if fn is None:
        from .repo import AnalysisBroken
        raise AnalysisBroken("%s.%s vanished" % (cls, meth))
    q = qualname(fn)
    ctx.analysed.add("%s:%s" % (fn._mod.rel, q))
    I = Lin(prog, cls, nosite)
    st = initial(I, kind)
    kws = {}
    for k, v in kw.items():
        kws[k] = v(I, st) if callable(v) else v
    given = kws.get("B") or kws.get("B_i")
    given = given if isinstance(given, Ref) else None
    try:
        outs = I.inline(Fn(fn, None, Obj(cls), fn._cls.name), [DT], kws, st)
    except Giveup as e:
        ctx.undec(label, str(e))
        return
    if not outs:
        ctx.undec(label, "no completed path")
    # tensors overwritten in the loop that still evaluates tangent vectors
    for _, k, i in [x for x in I.log if x[0] == "c"]:
        for _, k2, j in [x for x in I.log if x[0] == "w" and x[1] == k]:
            cs = [(i - j - (Poly.sym("hs") - 1)).subst({"hs": Poly.const(h)}).cval() for h in (2, 3)]
            c = None if None in cs else min(cs)
            if c is None:
                ctx.undec(label, "distance between evaluated and overwritten site not determined")
            elif c < 0:
                ctx.violation("overwritten-early", fn._mod.rel, q, "overwritten-early:" + label, "%s: the tensor at %r is overwritten in the iteration that evaluates the tangent vector at %r, which later ones (terms span hs sites) still depend on" % (label, j, i), fn.lineno)
            else:
                ctx.count("overwrites behind the reach of later evaluations")
    A0 = ("A", "0", AT)
    for v, s in outs:
        path = label + (" [" + "; ".join(s.conds[:6]) + "]" if s.conds else "")
        b = I.curA(s)
        F = b.get((0, 0)) if b else None
        def bad(rule, msg):
            ctx.violation(rule, fn._mod.rel, q, rule + ":" + label, "%s: %s" % (path, msg), fn.lineno)
        if F is None:
            ctx.undec(path, "form of A after the step not determined")
            continue
        if nosite:
            if F == {(A0,): 1}:
                ctx.count("paths leaving sites without tangent space unchanged")
            elif any("A" not in (a[0] if isinstance(a, tuple) else a) for m in F for a in m) or True:
                bad("no-tangent-site", "a site without tangent vector becomes %s" % fr(F))
            continue
        # which stages
        c0, rest = coeff(F, A0)
        if c0 != {(): 1}:
            bad("step-form", "A after the step is %s, not A0 minus increments" % fr(F))
            continue
        ks = []
        if given is not None:
            ks.append(("k", "given", AT))
        ks += [("k", j, AT) for j in range(len(s.stages))]
        b_, r = {}, rest
        for kk in ks:
            c, r = coeff(r, kk)
            x = dtcoef(c)
            if x is None:
                bad("step-form", "coefficient of %s in A after the step is not a number times dtau: %s" % (kk[1], fr(F)))
                break
            b_[kk] = -x
        else:
            if r:
                bad("step-form", "A after the step contains foreign terms: %s" % fr(r))
                continue
            used = [kk for kk in ks if b_[kk] or rk]
            stale = [(kk, s.stages[kk[1]][1]) for kk in ks if kk[1] != "given" and s.stages[kk[1]][1] and b_[kk]]
            if stale:
                bad("stale-stage", "tangent vector number %s is evaluated with %s not recomputed for the state it belongs to" % (stale[0][0][1] + 1, ", ".join(stale[0][1])))
                continue
            # tableau
            rows = {}
            ok = True
            for kk in ks:
                if kk[1] == "given":
                    rows[kk] = {}
                    continue
                g = s.stages[kk[1]][0]
                if g is None:
                    ok = False
                    break
                g = dict(g).get((0, 0))
                g = dict(g)
                c, rr = coeff(g, A0)
                if c != {(): 1}:
                    ok = False
                    break
                row = {}
                for k2 in ks:
                    c, rr = coeff(rr, k2)
                    x = dtcoef(c)
                    if x is None:
                        ok = False
                        break
                    row[k2] = -x
                if rr or not ok:
                    ok = False
                    break
                rows[kk] = row
            if not ok:
                if any(b_[kk] for kk in ks):
                    bad("step-form", "a tangent vector is evaluated at a state that is not the saved state plus multiples of dtau times earlier tangent vectors")
                continue
            # a supplied vector stands for the one at the initial state
            def val(kk, e):
                return sum(rows[kk].get(k2, 0) * e(k2) for k2 in ks)
            one = lambda kk: 1
            cs = {kk: val(kk, one) for kk in ks}
            ac = {kk: val(kk, lambda x: cs[x]) for kk in ks}
            conds = [("sum b = 1", sum(b_[k] for k in ks), Fraction(1))]
            if rk:
                ac2 = {kk: val(kk, lambda x: cs[x] ** 2) for kk in ks}
                aac = {kk: val(kk, lambda x: ac[x]) for kk in ks}
                conds += [("sum b c = 1/2", sum(b_[k] * cs[k] for k in ks), Fraction(1, 2)),
                          ("sum b c^2 = 1/3", sum(b_[k] * cs[k] ** 2 for k in ks), Fraction(1, 3)),
                          ("sum b A c = 1/6", sum(b_[k] * ac[k] for k in ks), Fraction(1, 6)),
                          ("sum b c^3 = 1/4", sum(b_[k] * cs[k] ** 3 for k in ks), Fraction(1, 4)),
                          ("sum b c A c = 1/8", sum(b_[k] * cs[k] * ac[k] for k in ks), Fraction(1, 8)),
                          ("sum b A c^2 = 1/12", sum(b_[k] * ac2[k] for k in ks), Fraction(1, 12)),
                          ("sum b A A c = 1/24", sum(b_[k] * aac[k] for k in ks), Fraction(1, 24))]
            for nm, x, want in conds:
                if x != want:
                    bad("order", "order condition %s is violated (value %s): weights %s" % (nm, x, {str(k[1]): str(v) for k, v in b_.items()}))
                    break
                ctx.count("order conditions")
            else:
                if given is not None:
                    # it must replace the evaluation at the initial state
                    dup = [kk for kk in ks if kk[1] != "given" and b_[kk] and cs[kk] == 0]
                    if dup or not b_[("k", "given", AT)]:
                        bad("given-vector", "a supplied tangent vector does not take the place of the first stage (weights %s)" % {str(k[1]): str(v) for k, v in b_.items()})
                        continue
                    ctx.count("paths with a supplied tangent vector")
                ctx.count("paths with the stated increment")
            # bond expansion: product of the off-diagonal blocks is -dtau BB12 BB21
            if b and len(b) > 1 and not rk:
                f01, f10, f11 = b.get((0, 1)), b.get((1, 0)), b.get((1, 1))
                if f01 is None or f10 is None or f11 is None:
                    ctx.undec(path, "expansion blocks not determined")
                elif f01 == {} and f10 == {} and f11 == {}:
                    pass
                else:
                    def split(f, nm):
                        ats = [a for m in f for a in m if isinstance(a, tuple) and a[0] == "B"]
                        if len(set(ats)) != 1 or ats[0][1] != nm or ats[0][-1] != AT:
                            return None
                        c, rr = coeff(f, ats[0])
                        return (c, ats[0]) if not rr else None
                    x, y = split(f01, "BB12"), split(f10, "BB21")
                    if x is None or y is None or f11 != {}:
                        bad("expansion", "the new blocks are %s, %s, %s" % (fr(f01), fr(f10), fr(f11)))
                    elif fmul(x[0], y[0]) != {("dtau",): Fraction(-1)}:
                        bad("expansion", "the product of the coefficients of the new blocks is %s, not -dtau" % fr(fmul(x[0], y[0])))
                    elif any(s.stages[a[1][2]][1] or s.stages[a[1][2]][0] != s.stages[0][0] for a in (x, y)):
                        bad("expansion", "the second-order part is evaluated at another state than the first-order part")
                    else:
                        ctx.count("expansion blocks with product -dtau")


def givenB(kind="list"):
    def f(I, st):
        if I.nosite:
            return I.new(st, Lst(K(None), kind))
        return I.new(st, Lst(I.arr(st, {(("k", "given", AT),): Fraction(1)}), kind))
    return f


def givenBB(I, st):
    # supplied second-order part, of the present state
    j = I.stage(st)
    return Tup([I.new(st, Lst(I.arr(st, {(("B", "BB12", j, AT),): Fraction(1)}))), I.new(st, Lst(I.arr(st, {(("B", "BB21", j, AT),): Fraction(1)}))), TOP])


def run(prog, ctx):
    G, U, Sd = "EvoMPS_TDVP_Generic", "EvoMPS_TDVP_Uniform", "EvoMPS_TDVP_Sandwich"
    T, Fl = K(True), K(False)
    cases = []
    for cls, kind in ((G, "objarr"), (U, "list"), (Sd, "objarr")):
        opts = [("", {})]
        if cls == G:
            opts = [("plain", dict(save_memory=Fl, calc_Y_2s=Fl, dynexp=Fl)), ("save_memory", dict(save_memory=T, calc_Y_2s=Fl, dynexp=Fl)),
                    ("second order", dict(save_memory=Fl, calc_Y_2s=T, dynexp=Fl)), ("dynexp", dict(save_memory=Fl, calc_Y_2s=Fl, dynexp=T))]
        else:
            opts = [("plain", dict(dynexp=Fl)), ("dynexp", dict(dynexp=T))]
        for lab, o in opts:
            for gl, g in (("", {}), (", B given", {"B": givenB()})):
                if g and lab in ("save_memory",):
                    continue
                for ns in (False, True):
                    if ns and (cls == U or lab == "dynexp"):
                        continue
                    cases.append((cls, "take_step", dict(o, **g), kind, ns, "%s.take_step(%s%s)%s" % (cls, lab, gl, ", no tangent space" if ns else ""), False))
        if cls == U:
            cases.append((cls, "take_step", dict(dynexp=T, BB=givenBB), kind, False, "%s.take_step(dynexp, BB given)" % cls, False))
        for gl, g in (("", {}), ("B given", {"B_i": givenB()})):
            for ns in (False, True):
                if ns and cls == U:
                    continue
                cases.append((cls, "take_step_RK4", dict(g), kind, ns, "%s.take_step_RK4(%s)%s" % (cls, gl, ", no tangent space" if ns else ""), True))
    for c in cases:
        try:
            analyse(prog, ctx, *c)
        except RecursionError:
            ctx.undec(c[5], "recursion")
