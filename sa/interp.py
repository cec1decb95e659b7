"""Type inference by abstract interpretation over the syntax tree.

Every statement of a function is visited in all feasible branch combinations
(bounded, then widened to TOP); loops over sites are typed with an inductive
loop type (start, step, end), loops over tensor axes are typed once with a
symbolic index; calls into the package are followed (inlined)."""
import ast
from .alg import *
from .dom import *
from .repo import qualname

MAXSTATES = 24
MAXDEPTH = 14


class Geo(object):
    modL = False
    bindh = False      # translation-invariant operators occur

    def site(self, p):
        p = aspoly(p)
        return p.drop("L") if self.modL else p

    def dim(self, space):
        """dimension symbol of a space"""
        k = space[0]
        if k == "P" and self.bindh and "h" in space[1].syms():
            return Poly.sym(("dim", space))
        if k == "P":
            return Poly.sym("q") if self.modL else Poly.sym(("q", space[1]))
        if k in ("B", "U"):
            if self.modL:
                return Poly.sym("D" + (("_" + space[3]) if space[3] else "") + (("." + space[1]) if space[1] not in ("s", "") else ""))
            return Poly.sym(("D" + (("_" + space[3]) if space[3] else "") + (("." + space[1]) if space[1] not in ("s", "") else ""), space[2]))
        if k == "M":
            return self.dim(("B", space[2], space[3], ""))
        if k == "V":
            return space[-1]
        if k == "F" and len(space) > 2 and isinstance(space[2], tuple) and space[2][:1] == ("dim",):
            return space[2][1]
        return Poly.sym(("dim", space))

    def axdim(self, ax):
        if isinstance(ax, Leg):
            return self.dim(ax.space)
        if isinstance(ax, Comp):
            d = Poly.const(1)
            for l in ax.legs:
                d = d * self.dim(l.space)
            return d
        return ax.dim


class State(object):
    __slots__ = ("loc", "cells", "attrs", "facts", "assume", "idx", "born", "loops", "cborn")

    def __init__(self):
        self.loc, self.cells, self.attrs, self.facts, self.assume = {}, {}, {}, {}, ()
        self.idx, self.born, self.loops, self.cborn = (), {}, (), {}

    def clone(self):
        s = State()
        s.loc, s.cells, s.attrs, s.facts = dict(self.loc), dict(self.cells), dict(self.attrs), dict(self.facts)
        s.assume, s.idx, s.born, s.loops, s.cborn = self.assume, self.idx, dict(self.born), self.loops, dict(self.cborn)
        return s

    def same(self, o):
        return (_deq(self.loc, o.loc) and _deq(self.cells, o.cells) and _deq(self.attrs, o.attrs))


def _deq(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        if not veq(a[k], b[k]):
            return False
    return True


class Prune(Exception):
    """this evaluation path cannot happen (e.g. attribute of None)"""


class Interp(object):
    unroll = 4                # loops of known length up to this are run as they stand

    def __init__(self, prog, geo, axioms=None, assume_false=("sanity_checks",)):
        self.prog, self.geo = prog, geo
        self.axioms = axioms or {}
        self.n = 0
        self.violations = {}
        self.sites = {}       # (file,line,col,kind) -> status
        self.undecided = {}
        self.funcs = set()
        self.stack = []
        self.assume_false = set(assume_false)
        self.mute = 0
        self.steps = 0
        self.maxsteps = 400000
        self.truncated = False
        self.indlog, self.indsites = {}, {}

    # ------------------------------------------------------------ helpers
    def fresh(self, p="x"):
        self.n += 1
        return "%s@%d" % (p, self.n)

    def curfile(self):
        return self.stack[-1]._mod.rel if self.stack else "?"

    def report(self, node, rule, msg):
        if self.mute:
            return
        fn = self.stack[-1] if self.stack else None
        f = fn._mod.rel if fn is not None else "?"
        q = qualname(fn) if fn is not None else "?"
        try:
            text = ast.unparse(node)
        except Exception:
            text = "?"
        key = (f, q, rule, text)
        if key not in self.violations:
            self.violations[key] = dict(file=f, line=getattr(node, "lineno", 0), func=q, rule=rule, msg=msg, construct=text,
                                        path=" > ".join(qualname(x) for x in self.stack))

    def oblig(self, node, ok=True):
        if self.mute:
            return
        fn = self.stack[-1] if self.stack else None
        key = (fn._mod.rel if fn is not None else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        d = self.sites if ok else self.undecided
        d[key] = d.get(key, 0) + 1

    def cell(self, st, v):
        r = Ref(self.fresh("c"))
        st.cells[r.id] = v
        st.cborn[r.id] = frozenset(st.idx)
        return r

    def de(self, v, st):
        while isinstance(v, Ref):
            v = st.cells.get(v.id, TOP)
        return v

    # ------------------------------------------------------------ truth
    def ge0(self, p, st):
        """True if p >= 0 known, False if p < 0 known, else None"""
        c = p.cval()
        if c is not None:
            return c >= 0
        for a in st.assume:
            d = (p - a).cval()
            if d is not None and d >= 0:
                return True
            d = (p + a).cval()
            if d is not None and d < 0:
                return False
        return None

    def truth(self, v, st):
        v = self.de(v, st)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Poly):
            c = v.cval()
            return None if c is None else bool(c)
        if isinstance(v, (Obj, Fn, Cls, ModV, Lib, OpFn)):
            return True
        if isinstance(v, TupV):
            return bool(v.items)
        return None

    # ------------------------------------------------------------ tensor ops
    def lift(self, fn, *vs):
        """apply fn to every combination of intersection alternatives"""
        res, err, had_undecided = [], None, False
        import itertools
        for combo in itertools.product(*[alts(v) for v in vs]):
            try:
                r = fn(*combo)
            except TypeErr as e:
                err = err or e
                continue
            if r is TOP:
                had_undecided = True
                continue
            for a in alts(r):
                if a not in res:
                    res.append(a)
        if res:
            if len(res) > 16:
                return TOP
            return mkalt(res)
        if had_undecided:
            return TOP
        raise err or TypeErr("no consistent typing")

    def baseonly(self, d):
        for s in d.syms():
            if isinstance(s, tuple):
                if s[0].split(".")[0] not in ("q", "D"):
                    return False
            elif s.split("@")[0].split(".")[0] not in ("q", "D"):
                return False
        return True

    def dims_clash(self, a, b):
        if a is None or b is None or a == b:
            return False
        return self.baseonly(a) and self.baseonly(b) and not (a.cval() == 1 or b.cval() == 1)

    def pair(self, a, b, node):
        """axis a is summed against axis b"""
        if isinstance(a, Unk) or isinstance(b, Unk):
            da, db = self.geo.axdim(a), self.geo.axdim(b)
            if da is not None and db is not None and da.cval() == 1 and db.cval() == 1:
                return
            if self.dims_clash(da, db):
                raise TypeErr("contracted axes have different dimensions: %r against %r" % (a, b), "shape")
            self.oblig(node, False)
            return
        if isinstance(a, Comp) and isinstance(b, Comp) and len(a.legs) != len(b.legs):
            raise TypeErr("joins composite axes of different content: %r with %r" % (a, b))
        if a != b.dual():
            raise TypeErr(self.explain(a, b))
        self.oblig(node)

    def explain(self, a, b):
        if isinstance(a, Leg) and isinstance(b, Leg):
            if a.space != b.space:
                return "joins index %r to %r: different sites/bonds" % (a, b)
            if a.space[0] == "B" and a.up == b.up:
                return "joins index %r to %r: not a covariant/contravariant pair (two tensors or two environments of the same bond side)" % (a, b)
            return "joins index %r to %r: ket and bra layer confused (missing or extra conjugation / transposition)" % (a, b)
        return "joins index %r to %r" % (a, b)

    def mergefree(self, f1, f2, node):
        f = list(f1) + list(f2)
        cnt = {}
        for i, l in f:
            cnt.setdefault(i, []).append(l)
        for i, ls in cnt.items():
            if len(ls) == 2 and not any(isinstance(x, Unk) for x in ls):
                if ls[0] != ls[1].dual():
                    raise TypeErr("summation index '%s': %s" % (i[0], self.explain(ls[0], ls[1])))
                self.oblig(node)
            elif len(ls) > 2:
                return None
        return f

    def bind(self, a, b, legs):
        """translation-invariant operators: their position symbol 'h' takes the value required by
        the first index pair that determines it"""
        for p, q in legs:
            ps = p.legs if isinstance(p, Comp) else (p,)
            qs = q.legs if isinstance(q, Comp) else (q,)
            if len(ps) != len(qs):
                continue
            for x, y in zip(ps, qs):
                if not (isinstance(x, Leg) and isinstance(y, Leg)) or x.space[0] != "P" or y.space[0] != "P":
                    continue
                hx, hy = x.space[1].linear_in("h"), y.space[1].linear_in("h")
                if hx == 1 and hy == 0:
                    return a.sub({"h": y.space[1] - x.space[1] + Poly.sym("h")}), b
                if hy == 1 and hx == 0:
                    return a, b.sub({"h": x.space[1] - y.space[1] + Poly.sym("h")})
        return a, b

    def bindfree(self, a, b):
        if not (self.geo.modL or self.geo.bindh):
            return a, b
        fb = {}
        for i, l in b.free:
            fb.setdefault(i, l)
        return self.bind(a, b, [(l, fb[i]) for i, l in a.free if i in fb])

    def contract(self, a, b, pairs, node, order=None):
        """a, b: Ten; pairs: list of (axis of a, axis of b)"""
        if not isinstance(a, Ten) or not isinstance(b, Ten):
            return TOP
        if self.geo.modL or self.geo.bindh:
            a, b = self.bind(a, b, [(a.axes[i], b.axes[j]) for i, j in pairs if i < len(a.axes) and j < len(b.axes)])
            a, b = self.bindfree(a, b)
        if a.zero and b.zero:
            return a
        for i, j in pairs:
            if i >= len(a.axes) or j >= len(b.axes):
                raise TypeErr("tensor has too few axes for this contraction", "shape")
            if not (a.zero or b.zero):
                self.pair(a.axes[i], b.axes[j], node)
            else:
                self.pair_dim(a.axes[i], b.axes[j])
        ra = [x for k, x in enumerate(a.axes) if k not in [p[0] for p in pairs]]
        rb = [x for k, x in enumerate(b.axes) if k not in [p[1] for p in pairs]]
        f = self.mergefree(a.free, b.free, node)
        if f is None:
            return TOP
        return Ten(ra + rb, t_mul(a.terms, b.terms), f, a.zero or b.zero)

    def pair_dim(self, a, b):
        if self.dims_clash(self.geo.axdim(a), self.geo.axdim(b)):
            raise TypeErr("contracted axes have different dimensions: %r against %r" % (a, b), "shape")

    def dot(self, a, b, node):
        def f(x, y):
            if x is TOP or y is TOP:
                return TOP
            if not isinstance(x, Ten) or not isinstance(y, Ten):
                return TOP
            if not x.axes or not y.axes:
                return self.mul1(x, y, node)
            if x.kind == "eye" and y.kind != "eye":
                return self.eyedot(x, y, len(y.axes) - 2 if len(y.axes) > 1 else 0)
            if y.kind == "eye" and x.kind != "eye":
                return self.eyedot(y, x, len(x.axes) - 1)
            if x.kind == "eye" and y.kind == "eye":
                return x
            j = len(y.axes) - 2 if len(y.axes) > 1 else 0
            return self.contract(x, y, [(len(x.axes) - 1, j)], node)
        return self.lift(f, a, b)

    def eyedot(self, e, x, ax):
        if self.dims_clash(self.geo.axdim(e.axes[0]), self.geo.axdim(x.axes[ax])):
            raise TypeErr("identity of dimension %r applied to %r" % (self.geo.axdim(e.axes[0]), x.axes[ax]), "shape")
        return x

    def mul1(self, x, y, node):
        """elementwise / scalar product"""
        if x is TOP or y is TOP:
            return TOP
        if not isinstance(x, Ten) or not isinstance(y, Ten):
            return TOP
        if x.axes and y.axes:
            if x.kind == "diagvec" or y.kind == "diagvec":
                return TOP
            if len(x.axes) == len(y.axes):
                for p, q in zip(x.axes, y.axes):
                    if isinstance(p, Unk) or isinstance(q, Unk) or p != q.dual():
                        return TOP
                f = self.mergefree(x.free, y.free, node)
                if f is None:
                    return TOP
                return Ten(x.axes, t_mul(x.terms, y.terms), f, kind="had")
            return TOP
        x, y = self.bindfree(x, y)
        f = self.mergefree(x.free, y.free, node)
        if f is None:
            return TOP
        return Ten(x.axes or y.axes, t_mul(x.terms, y.terms), f, x.zero or y.zero, x.kind if x.axes else y.kind)

    def openfree(self, t):
        cnt = {}
        for i, l in t.free:
            cnt.setdefault(i, []).append(l)
        return {i: ls[0] for i, ls in cnt.items() if len(ls) == 1}

    def closefree(self, t):
        """drop closed index pairs"""
        o = self.openfree(t)
        return Ten(t.axes, t.terms, [(i, l) for i, l in o.items()], t.zero, t.kind)

    def add(self, a, b, node, sign=1):
        def f(x, y):
            if x is TOP or y is TOP:
                return TOP
            if not isinstance(x, Ten) or not isinstance(y, Ten):
                return TOP
            if x.zero and not x.axes:
                return y.with_(terms=t_scale(y.terms, sign)) if sign != 1 else y
            if y.zero and not y.axes:
                return x
            if len(x.axes) != len(y.axes):
                if not x.axes or not y.axes:
                    return TOP
                return TOP
            if x.kind == "eye" and y.kind != "eye":
                x = Ten(y.axes, x.terms, y.free)
            elif y.kind == "eye" and x.kind != "eye":
                y = Ten(x.axes, y.terms, x.free)
            ax = []
            for p, q in zip(x.axes, y.axes):
                if x.zero and isinstance(p, Unk) or y.zero and isinstance(q, Unk) or isinstance(p, Unk) or isinstance(q, Unk):
                    if self.dims_clash(self.geo.axdim(p), self.geo.axdim(q)):
                        raise TypeErr("adds arrays of different shape: %r and %r" % (p, q), "shape")
                    ax.append(q if isinstance(p, Unk) else p)
                    continue
                if p != q:
                    raise TypeErr("adds tensors whose axes differ: %r and %r" % (p, q))
                ax.append(p)
            if not x.zero and not y.zero:
                self.oblig(node)
            fx, fy = self.openfree(x), self.openfree(y)
            free = dict(fx)
            if x.zero:
                free = fy
            elif y.zero:
                free = fx
            elif set(fx) != set(fy):
                free.update(fy)
            else:
                for i in fx:
                    if fx[i] != fy[i] and not isinstance(fx[i], Unk) and not isinstance(fy[i], Unk):
                        raise TypeErr("adds terms in which index '%s' has different type: %r and %r" % (i[0], fx[i], fy[i]))
            return Ten(ax, t_add(x.terms, y.terms, sign), list(free.items()), x.zero and y.zero,
                       "eye" if x.kind == "eye" and y.kind == "eye" else None)
        return self.lift(f, a, b)

    def conj(self, v):
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            return Ten([x.cj() for x in t.axes], t_conj(t.terms), [(i, l.cj()) for i, l in t.free], t.zero, t.kind)
        return self.lift(f, v)

    def transpose(self, v, axes=None):
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            if axes is None:
                ax = tuple(reversed(t.axes))
            else:
                if len(axes) != len(t.axes):
                    raise TypeErr("transposition with %d axes of a tensor with %d" % (len(axes), len(t.axes)), "shape")
                ax = tuple(t.axes[i] for i in axes)
            return t.with_(axes=ax)
        return self.lift(f, v)

    def trace(self, v, node):
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            if len(t.axes) != 2:
                return TOP
            if t.kind == "eye":
                return Ten((), None)
            if not t.zero:
                self.pair(t.axes[0], t.axes[1], node)
            return Ten((), t.terms, t.free, t.zero)
        return self.lift(f, v)

    def reshape(self, v, dims, node):
        """dims: list of Poly or None (unknown) ; -1 allowed once"""
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            if t.kind == "eye":
                return TOP
            flat = []
            for a in t.axes:
                if isinstance(a, Comp):
                    flat.extend(a.legs)
                else:
                    flat.append(a)
            want = list(dims)
            if len(want) == 1 and want[0] is not None and want[0].cval() == -1:
                return t.with_(axes=(Comp(flat),) if len(flat) > 1 else tuple(flat)) if all(isinstance(x, Leg) for x in flat) else TOP
            # greedy grouping by dimension products
            fd = [self.geo.axdim(x) for x in flat]
            if any(d is None for d in fd):
                if len(want) == len(flat):
                    return t
                return TOP
            out, i = [], 0
            neg = [k for k, w in enumerate(want) if w is not None and w.cval() == -1]
            def group(seq, wants):
                out, i = [], 0
                for w in wants:
                    if w is None:
                        return None, "unknown"
                    acc, g = Poly.const(1), []
                    if w.cval() == 1:
                        if i < len(seq) and self.geo.axdim(seq[i]).cval() == 1:
                            out.append([seq[i]])
                            i += 1
                        else:
                            out.append([])
                        continue
                    while i < len(seq) and acc != w:
                        acc = acc * self.geo.axdim(seq[i])
                        g.append(seq[i])
                        i += 1
                    if acc != w:
                        return None, (w, acc)
                    out.append(g)
                while i < len(seq) and self.geo.axdim(seq[i]).cval() == 1:
                    i += 1
                return (out, i), None
            if neg:
                k = neg[0]
                r1, e1 = group(flat, want[:k])
                if r1 is None:
                    return self.badreshape(flat, want, e1)
                r2, e2 = group(list(reversed(flat)), list(reversed(want[k + 1:])))
                if r2 is None:
                    return self.badreshape(flat, want, e2)
                lo, hi = r1[1], len(flat) - r2[1]
                if lo > hi:
                    return TOP
                groups = r1[0] + [flat[lo:hi]] + [list(reversed(g)) for g in reversed(r2[0])]
            else:
                r, e = group(flat, want)
                if r is None:
                    return self.badreshape(flat, want, e)
                if r[1] != len(flat):
                    return TOP
                groups = r[0]
            for g in groups:
                if len(g) > 1:
                    g = [x for x in g if not (isinstance(x, Unk) and x.dim is not None and x.dim.cval() == 1)] or g[:1]
                if not g:
                    out.append(Unk(Poly.const(1)))
                elif len(g) == 1:
                    out.append(g[0])
                elif all(isinstance(x, Leg) for x in g):
                    out.append(Comp(g))
                else:
                    return TOP
            self.oblig(node)
            return t.with_(axes=tuple(out))
        return self.lift(f, v)

    def badreshape(self, flat, want, e):
        # only a definite error if all dims are base dims and the total is the same
        # multiset (a permutation of factors) -- i.e. a wrong order of axes
        if e == "unknown":
            return TOP
        tot = Poly.const(1)
        for x in flat:
            tot = tot * self.geo.axdim(x)
        w = Poly.const(1)
        for x in want:
            if x is None or x.cval() == -1:
                return TOP
            w = w * x
        if tot == w and all(self.baseonly(self.geo.axdim(x)) for x in flat):
            raise TypeErr("reshape regroups axes in the wrong order: %s into %s" % (" ".join(map(repr, flat)), want), "shape")
        return TOP

    def index(self, t, ixs, node, st):
        """t[ixs] ; ixs list of abstract index values or slice markers"""
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            if t.kind in ("had",):
                return TOP
            axes, free, k, terms = [], list(t.free), 0, t.terms
            for ix in ixs:
                if ix == "newaxis":
                    axes.append(Unk(Poly.const(1)))
                    continue
                if k >= len(t.axes):
                    return TOP if t.zero else TOP
                a = t.axes[k]
                if isinstance(ix, Idx):
                    d = self.geo.axdim(a)
                    if self.dims_clash(d, ix.dim):
                        raise TypeErr("index '%s' runs over a range of length %r but is applied to axis %r of length %r" % (ix.name, ix.dim, a, d), "range")
                    if isinstance(a, (Leg,)):
                        free.append(((ix.name, ix.id), a))
                    elif isinstance(a, Comp):
                        free.append(((ix.name, ix.id), a))
                    elif not t.zero:
                        free.append(((ix.name, ix.id), a))
                    k += 1
                elif isinstance(ix, IdxC):
                    if ix.stride is not None or not isinstance(a, Comp) or len(a.legs) != len(ix.items):
                        return TOP
                    for x, l in zip(ix.items, a.legs):
                        if self.dims_clash(self.geo.axdim(l), x.dim):
                            raise TypeErr("joint index '%s' runs over %r values but the factor of the axis has %r" % (x.name, x.dim, self.geo.axdim(l)), "range")
                        free.append(((x.name, x.id), l))
                    k += 1
                elif ix == "full":
                    axes.append(a)
                    k += 1
                elif ix == "part":
                    axes.append(Unk(None))
                    k += 1
                    terms = None
                elif isinstance(ix, Poly):
                    k += 1
                    terms = None if not t.zero else t.terms
                elif isinstance(ix, tuple) and ix[0] == "upto":
                    # leading/trailing sub-range of the axis of given length
                    axes.append(Unk(ix[1]))
                    terms = None
                    k += 1
                else:
                    return TOP
            axes.extend(t.axes[k:])
            cnt = self.mergefree(free, [], node)
            if cnt is None:
                return TOP
            return Ten(axes, terms, free, t.zero, None)
        return self.lift(f, t)

    # ------------------------------------------------------------ arrays of sites
    def arr_get(self, arr, i, st, node=None):
        i0 = i
        if arr.length is not None:
            c = i.cval()
            if c is not None and c < 0:
                i = arr.length + i
        key = self.geo.site(i)
        for w in reversed(arr.writes):
            idx, val, q, lo, hi, prev = w
            widx = self.geo.site(idx)
            if q is None:
                if widx == key:
                    return val
                continue
            c = widx.linear_in(q)
            if not c or abs(c) != 1:
                if widx == key:
                    return val
                continue
            rest = widx - Poly({(q,): c})
            sol = (key - rest) * c
            if any(isinstance(s, str) and s == q for s in sol.syms()):
                continue
            if lo is not None and not self.geo.modL:
                g = self.ge0(sol - lo, st)
                if g is False:
                    continue
            if hi is not None and not self.geo.modL:
                g = self.ge0(hi - sol, st)
                if g is False:
                    continue
            if prev is not None:
                kk, step = prev
                d = (sol - self.geo.site(Poly.sym(kk))).cval()
                if d is None or d * step >= 0:
                    continue
            return sub(val, {q: sol})
        if arr.default is not None:
            return arr.default(key)
        return TOP

    # ------------------------------------------------------------ expressions
    def ev(self, node, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            self.truncated = True
            return [(TOP, st)]
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(TOP, st)]
        return m(node, st)

    def evs(self, nodes, st):
        """evaluate a list of expressions left to right"""
        outs = [([], st)]
        for n in nodes:
            new = []
            for vs, s in outs:
                if n is None:
                    new.append((vs + [None], s))
                    continue
                for v, s2 in self.ev(n, s):
                    new.append((vs + [v], s2))
            outs = new
        return outs

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return [(Const(v), st)]
        if isinstance(v, int):
            return [(Poly.const(v), st)]
        if isinstance(v, (float, complex)):
            return [(Ten((), t_const(v), zero=(v == 0)), st)]
        return [(TOP, st)]

    def e_Name(self, n, st):
        return [(self.lookup(n.id, st), st)]

    def lookup(self, name, st):
        if name in st.loc:
            return st.loc[name]
        fn = self.stack[-1] if self.stack else None
        clo = st.loc.get("__closure__")
        while clo:
            if name in clo:
                return clo[name]
            clo = clo.get("__closure__")
        if fn is not None:
            r = self.prog.resolve_name(fn._mod, name)
            v = self.fromres(r, fn._mod)
            if v is not None:
                return v
        if name in ("True", "False", "None"):
            return Const({"True": True, "False": False, "None": None}[name])
        return Lib("builtins." + name)

    def fromres(self, r, mod):
        if r is None:
            return None
        if isinstance(r, ast.FunctionDef):
            return Fn(r, r._mod)
        if isinstance(r, ast.ClassDef):
            return Cls(r.name)
        if r[0] == "pkgmod":
            return ModV(r[1])
        if r[0] == "lib":
            return Lib(r[1])
        if r[0] == "const":
            if isinstance(r[1], ast.Constant):
                return self.e_Constant(r[1], None)[0][0]
            return TOP
        return None

    def e_Attribute(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            out.extend(self.getattr(v, n.attr, s, n))
        return out

    def getattr(self, v0, attr, st, node):
        v = self.de(v0, st)
        if isinstance(v, Const) and v.v is None:
            raise Prune()
        if isinstance(v, ModV):
            r = self.prog.resolve_name(v.m, attr)
            x = self.fromres(r, v.m)
            return [(x if x is not None else TOP, st)]
        if isinstance(v, Lib):
            return [(Lib(v.name + "." + attr), st)]
        if isinstance(v, Obj):
            if attr in self.assume_false:
                return [(Const(False), st)]
            k = (v.name, attr)
            if k in st.attrs:
                return [(st.attrs[k], st)]
            x = v.schema.get(self, v, attr, st) if v.schema else None
            if x is not None:
                if isinstance(x, Arr1):
                    x = self.cell(st, x)
                    st.attrs[k] = x
                return [(x, st)]
            m = self.prog.method(v.cls, attr)
            if m is not None:
                for d in m.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        return self.call_fn(Fn(m, m._mod, v), [], {}, st, node)
                return [(Fn(m, m._mod, v, None, m._cls.name), st)]
            return [(TOP, st)]
        if isinstance(v, Cls):
            m = self.prog.method(v.name, attr)
            if m is not None:
                return [(Fn(m, m._mod, None, None, m._cls.name), st)]
            return [(TOP, st)]
        if isinstance(v, (Ten, Alt)):
            return [(self.tenattr(v, v0, attr, st, node), st)]
        if isinstance(v, (Arr1, TupV)):
            if attr == "shape":
                return [(TupV([self.len_(v)]), st)]
            return [(Meth(v0, attr), st)]
        if v is TOP and attr in ("dot", "conj", "copy", "reshape", "ravel", "append", "fill", "sum"):
            return [(Meth(v0, attr), st)]
        return [(TOP, st)]

    def len_(self, v):
        if isinstance(v, TupV):
            return Poly.const(len(v.items))
        if isinstance(v, Arr1):
            return v.length if v.length is not None else TOP
        if isinstance(v, (Ten, Alt)):
            t = alts(v)[0]
            if t.axes:
                d = self.geo.axdim(t.axes[0])
                return d if d is not None else TOP
        return TOP

    def tenattr(self, v, v0, attr, st, node):
        if attr == "T":
            return self.guard(lambda: self.transpose(v), node)
        if attr == "A":
            return v0
        if attr == "shape":
            t = alts(v)[0]
            if not isinstance(t, Ten):
                return TOP
            ds = [self.geo.axdim(a) for a in t.axes]
            return TupV([d if d is not None else TOP for d in ds])
        if attr in ("real", "imag"):
            return self.lift(lambda t: t.with_(terms=None) if isinstance(t, Ten) else TOP, v)
        if attr == "ndim":
            return Poly.const(len(alts(v)[0].axes))
        if attr == "dtype":
            return Lib("dtype")
        if attr == "size":
            return TOP
        return Meth(v0, attr)

    def guard(self, f, node):
        try:
            return f()
        except TypeErr as e:
            self.report(node, e.rule, e.msg)
            return TOP

    def e_Tuple(self, n, st):
        return [(TupV(vs), s) for vs, s in self.evs(n.elts, st)]

    def e_List(self, n, st):
        out = []
        for vs, s in self.evs(n.elts, st):
            if not vs:
                s = s.clone()
                out.append((self.cell(s, Arr1(None, (), Poly.const(0), self.fresh("list"))), s))
            else:
                s = s.clone()
                out.append((self.cell(s, TupV(vs, True)), s))
        return out

    def e_IfExp(self, n, st):
        out = []
        for b, s in self.branch(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for v0, s in self.ev(n.operand, st):
            v = self.de(v0, s)
            if isinstance(n.op, ast.USub):
                if isinstance(v, Poly):
                    r = -v
                elif isinstance(v, (Ten, Alt)):
                    r = self.lift(lambda t: t.with_(terms=t_scale(t.terms, -1)) if isinstance(t, Ten) else TOP, v)
                else:
                    r = TOP
            elif isinstance(n.op, ast.Not):
                t = self.truth(v, s)
                r = TOP if t is None else Const(not t)
            elif isinstance(n.op, ast.UAdd):
                r = v
            else:
                r = TOP
            out.append((r, s))
        return out

    def tonum(self, v):
        """Poly -> scalar Ten when mixing with tensors"""
        if isinstance(v, Poly):
            c = v.cval()
            if c is not None:
                return Ten((), t_const(c), zero=(c == 0))
            return Ten((), {((("int", v), (), False, False),): ONE})
        if isinstance(v, Const) and isinstance(v.v, bool):
            return Ten((), None)
        return v

    def e_BinOp(self, n, st):
        out = []
        for (a, b), s in self.evs([n.left, n.right], st):
            out.append((self.binop(n.op, a, b, s, n), s))
        return out

    def binop(self, op, a, b, st, node):
        a, b = self.de(a, st), self.de(b, st)
        if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(op, ast.Add):
            return TupV(a.items + b.items, a.lst)
        if isinstance(a, TupV) and isinstance(b, Poly) and isinstance(op, ast.Mult):
            if b.cval() is not None and 0 <= b.cval() <= 12:
                r = TupV(a.items * int(b.cval()), a.lst)
                return self.cell(st, r) if a.lst else r
            if len(a.items) == 1:
                it = a.items[0]
                return self.cell(st, Arr1(lambda i, it=it: it, (), b, "rep" + repr(it)[:40]))
            return TOP
        if isinstance(a, Poly) and isinstance(b, Poly):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Mod):
                if self.geo.modL and b == Poly.sym("L"):
                    return a.drop("L")
                ca, cb = a.cval(), b.cval()
                if ca is not None and cb:
                    return Poly.const(ca % cb)
                return TOP
            if isinstance(op, ast.FloorDiv):
                ca, cb = a.cval(), b.cval()
                if ca is not None and cb:
                    return Poly.const(ca // cb)
                return TOP
            if isinstance(op, ast.Pow):
                cb = b.cval()
                if cb is not None and 0 <= cb <= 4 and cb == int(cb):
                    r = Poly.const(1)
                    for _ in range(int(cb)):
                        r = r * a
                    return r
                return TOP
            if isinstance(op, ast.Div):
                a, b = self.tonum(a), self.tonum(b)
            else:
                return TOP
        if isinstance(a, (Idx, IdxC)) or isinstance(b, (Idx, IdxC)):
            return self.jointidx(op, a, b, node)
        if isinstance(a, Range) and isinstance(op, ast.Mod) and isinstance(b, Poly) and self.geo.modL and b == Poly.sym("L"):
            return a
        a, b = self.tonum(a), self.tonum(b)
        if isinstance(a, (Ten, Alt)) and isinstance(b, (Ten, Alt)):
            if isinstance(op, ast.Add):
                return self.guard(lambda: self.add(a, b, node), node)
            if isinstance(op, ast.Sub):
                return self.guard(lambda: self.add(a, b, node, -1), node)
            if isinstance(op, ast.Mult):
                return self.guard(lambda: self.lift(lambda x, y: self.mul1(x, y, node), a, b), node)
            if isinstance(op, ast.Div):
                def dv(x, y):
                    if not isinstance(x, Ten) or not isinstance(y, Ten) or y.axes:
                        return TOP
                    f = self.mergefree(x.free, y.free, node)
                    if f is None:
                        return TOP
                    return Ten(x.axes, t_mul(x.terms, t_inv(y.terms)), f, x.zero, x.kind)
                return self.guard(lambda: self.lift(dv, a, b), node)
            if isinstance(op, ast.MatMult):
                return self.guard(lambda: self.dot(a, b, node), node)
            if isinstance(op, ast.Pow):
                def pw(x, y):
                    if not isinstance(x, Ten) or x.axes:
                        return TOP
                    if y.terms is not None and y.terms == t_const(2):
                        return Ten((), t_mul(x.terms, x.terms), x.free)
                    return Ten((), None, x.free)
                return self.lift(pw, a, b)
        return TOP

    def jointidx(self, op, a, b, node):
        if isinstance(op, ast.Mult):
            if isinstance(a, Poly):
                a, b = b, a
            if isinstance(b, Poly):
                if isinstance(a, Idx):
                    return IdxC([a], b)
                if isinstance(a, IdxC) and a.stride is None:
                    return IdxC(a.items, b)
                if isinstance(a, IdxC):
                    return IdxC(a.items, a.stride * b)
        if isinstance(op, ast.Sub) and isinstance(a, IdxC) and a.stride is not None and isinstance(b, (Idx, IdxC)):
            self.report(node, "joint-index", "joint index that subtracts the minor index: the first values wrap around to the end")
            return TOP
        if isinstance(op, ast.Add):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, IdxC) and x.stride is not None:
                    if isinstance(y, Idx):
                        its, dim = (y,), y.dim
                    elif isinstance(y, IdxC) and y.stride is None:
                        its, dim = y.items, Poly.const(1)
                        for i in y.items:
                            dim = dim * i.dim if i.dim is not None and dim is not None else None
                    else:
                        continue
                    if dim is None:
                        return TOP
                    if dim == x.stride:
                        return IdxC(x.items + its)
                    if self.dims_clash(dim, x.stride):
                        self.report(node, "joint-index", "joint index with stride %r, but the minor index '%s' runs over %r values" % (x.stride, its[0].name, dim))
                    return TOP
        return TOP

    def e_Compare(self, n, st):
        out = []
        for vs, s in self.evs([n.left] + n.comparators, st):
            out.append((self.compare(n, vs, s), s))
        return out

    def compare(self, n, vs, st):
        if len(n.ops) > 1:
            res = True
            for i, op in enumerate(n.ops):
                r = self.cmp1(op, vs[i], vs[i + 1], st)
                if r is False:
                    return Const(False)
                if r is None:
                    res = None
            return TOP if res is None else Const(True)
        r = self.cmp1(n.ops[0], vs[0], vs[1], st)
        return TOP if r is None else Const(r)

    def cmp1(self, op, a0, b0, st):
        a, b = self.de(a0, st), self.de(b0, st)
        if isinstance(op, (ast.Is, ast.Eq)) or isinstance(op, (ast.IsNot, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            r = None
            an, bn = isinstance(a, Const) and a.v is None, isinstance(b, Const) and b.v is None
            if an or bn:
                o = b if an else a
                if an and bn:
                    r = True
                elif o is TOP:
                    r = None
                else:
                    r = False
            elif isinstance(a, Const) and isinstance(b, Const):
                r = a.v == b.v
            elif isinstance(a, Poly) and isinstance(b, Poly):
                d = (a - b).cval()
                if d is not None:
                    r = d == 0
                else:
                    g1, g2 = self.ge0(a - b, st), self.ge0(b - a, st)
                    if g1 is False or g2 is False:
                        r = False
                    elif g1 and g2:
                        r = True
            elif isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a, Obj) and isinstance(b, Obj):
                r = a == b
            elif isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a0, Ref) and isinstance(b0, Ref):
                r = True if a0 == b0 else None
            elif isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a, (Ten, Alt)) and isinstance(b, (Ten, Alt)):
                r = True if veq(a, b) else False
            elif isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, (Ten, Alt)) and isinstance(b, Poly) and b.cval() == 0:
                # "if value != 0" skip-zero idiom
                if not alts(a)[0].axes:
                    r = False
            if r is None:
                return None
            return (not r) if neg else r
        if isinstance(a, Poly) and isinstance(b, Poly):
            if isinstance(op, ast.GtE):
                return self.ge0(a - b, st)
            if isinstance(op, ast.Gt):
                return self.ge0(a - b - 1, st)
            if isinstance(op, ast.LtE):
                return self.ge0(b - a, st)
            if isinstance(op, ast.Lt):
                return self.ge0(b - a - 1, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, Const) and isinstance(b, TupV) and all(isinstance(x, Const) for x in b.items):
                r = a.v in [x.v for x in b.items]
                return r if isinstance(op, ast.In) else not r
        return None

    def e_BoolOp(self, n, st):
        # value semantics approximated by truth
        out = []
        for b, s in self.branch(n, st):
            out.append((Const(b), s))
        return out

    # ------------------------------------------------------------ branching
    def branch(self, test, st):
        """list of (bool, state) for the feasible outcomes of a condition"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur, out = [(isand, st)], []
            live = [st]
            for v in test.values:
                nxt = []
                for s in live:
                    for b, s2 in self.branch(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                live = nxt
            out.extend((isand, s) for s in live)
            return self.dedupe(out)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not b, s) for b, s in self.branch(test.operand, st)]
        out = []
        try:
            evd = self.ev(test, st)
        except Prune:
            return []
        for v, s in evd:
            t = self.truth(v, s)
            if t is None:
                key = self.factkey(test, s)
                if key is not None and key in s.facts:
                    t = s.facts[key]
            if t is not None:
                out.append((t, s))
            else:
                key = self.factkey(test, s)
                for b in (True, False):
                    s2 = s.clone()
                    if key is not None:
                        s2.facts[key] = b
                        nk = self.negkey(test, s)
                        if nk is not None:
                            s2.facts[nk] = not b
                    self.narrow(test, b, s2)
                    out.append((b, s2))
        return out

    def dedupe(self, outs):
        res = []
        for b, s in outs:
            if any(b == b2 and s.same(s2) and s.facts == s2.facts and s.assume == s2.assume for b2, s2 in res):
                continue
            res.append((b, s))
        return res

    def factkey(self, test, st):
        names = set()
        for x in ast.walk(test):
            if isinstance(x, ast.Call):
                f = x.func
                if not (isinstance(f, ast.Name) and f.id in ("callable", "isinstance", "len", "hasattr")):
                    return None
            if isinstance(x, ast.Name):
                names.add(x.id)
        sig = []
        for nm in sorted(names):
            v = st.loc.get(nm)
            if isinstance(v, Obj):
                sig.append((nm, v.name))
            elif isinstance(v, (Poly, Const)):
                sig.append((nm, v))
            elif v is not None:
                sig.append((nm, id(self.stack[-1]) if self.stack else 0, len(self.stack), self.ver(st, nm)))
            else:
                sig.append((nm, None))
        try:
            txt = ast.unparse(test)
        except Exception:
            return None
        return (txt, tuple(sig))

    def ver(self, st, nm):
        return st.born.get(("ver", nm), 0)

    def negkey(self, test, st):
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                 ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
            c = m.get(type(test.ops[0]))
            if c:
                return self.factkey(ast.Compare(test.left, [c()], test.comparators), st)
        return None

    def narrow(self, test, b, st):
        """use the outcome of a comparison of integers / None tests"""
        if isinstance(test, ast.Compare):
            ops, left = test.ops, test.left
            cmpv = [left] + test.comparators
            if len(ops) > 1 and not b:
                return
            for i, op in enumerate(ops):
                try:
                    self.mute += 1
                    ra, rb = self.ev(cmpv[i], st), self.ev(cmpv[i + 1], st)
                except Prune:
                    return
                finally:
                    self.mute -= 1
                x, y = self.de(ra[0][0], st), self.de(rb[0][0], st)
                if isinstance(x, Poly) and isinstance(y, Poly):
                    o = type(op)
                    if not b:
                        o = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(o)
                    if o is ast.Lt:
                        st.assume += (y - x - 1,)
                    elif o is ast.LtE:
                        st.assume += (y - x,)
                    elif o is ast.Gt:
                        st.assume += (x - y - 1,)
                    elif o is ast.GtE:
                        st.assume += (x - y,)
                    elif o is ast.Eq:
                        st.assume += (x - y, y - x)
                    elif o is ast.NotEq:
                        # n != bound together with n >= bound gives n > bound
                        if self.ge0(x - y, st):
                            st.assume += (x - y - 1,)
                        elif self.ge0(y - x, st):
                            st.assume += (y - x - 1,)

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            for ixs, s2 in self.evidx(n.slice, s):
                out.append((self.getitem(v, ixs, s2, n), s2))
        return out

    def evidx(self, sl, st):
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        outs = [([], st)]
        for e in elts:
            new = []
            for ixs, s in outs:
                if isinstance(e, ast.Slice):
                    if e.lower is None and e.upper is None and e.step is None:
                        new.append((ixs + ["full"], s))
                    else:
                        for (lo, hi, stp), s2 in self.evs([e.lower, e.upper, e.step], s):
                            new.append((ixs + [("slice", self.dn(lo, s2), self.dn(hi, s2), self.dn(stp, s2))], s2))
                    continue
                for v, s2 in self.ev(e, s):
                    v = self.de(v, s2)
                    if isinstance(v, Const) and v.v is None:
                        v = "newaxis"
                    new.append((ixs + [v], s2))
            outs = new
        return outs

    def dn(self, v, st):
        return None if v is None else self.de(v, st)

    def slice_to_axis(self, ix):
        """type of a partial slice of an axis: its length if evident"""
        _, lo, hi, stp = ix
        if stp is not None:
            return "part"
        if lo is None and isinstance(hi, Poly):
            c = hi.cval()
            if c is not None and c < 0:
                return "part"
            return ("upto", hi)
        if hi is None and isinstance(lo, Poly):
            neg = -lo
            c = lo.cval()
            if (c is not None and c < 0) or (c is None and all(v < 0 for v in lo.d.values())):
                return ("upto", neg)
        if isinstance(lo, Poly) and isinstance(hi, Poly):
            return ("upto", hi - lo)
        return "part"

    def getitem(self, v0, ixs, st, node):
        v = self.de(v0, st)
        if isinstance(v, Const) and v.v is None:
            raise Prune()
        if isinstance(v, (Ten, Alt)):
            ix2 = []
            for i in ixs:
                if isinstance(i, tuple) and i and i[0] == "slice":
                    i = self.slice_to_axis(i)
                elif i is TOP or isinstance(i, (Ten, Alt, Const)):
                    i = "bad"
                elif isinstance(i, TupV) and len(ixs) == 1:
                    return self.getitem(v0, list(i.items), st, node)
                ix2.append(i)
            return self.guard(lambda: self.index(v, ix2, node, st), node)
        if isinstance(v, TupV) and len(ixs) == 1:
            i = ixs[0]
            if isinstance(i, Poly):
                c = i.cval()
                if c is not None and -len(v.items) <= c < len(v.items):
                    return v.items[int(c)]
                if len(v.items) == 1:
                    return v.items[0]
            if isinstance(i, tuple) and i[0] == "slice":
                lo = i[1].cval() if isinstance(i[1], Poly) else (0 if i[1] is None else "x")
                hi = i[2].cval() if isinstance(i[2], Poly) else (len(v.items) if i[2] is None else "x")
                if lo != "x" and hi != "x" and lo is not None and hi is not None and i[3] is None:
                    return TupV(v.items[int(lo):int(hi)], v.lst)
            if isinstance(i, Idx) and v.items and all(veq(x, v.items[0]) for x in v.items):
                return v.items[0]
            return TOP
        if isinstance(v, Arr1):
            if len(ixs) >= 1 and isinstance(ixs[0], Poly):
                r = self.arr_get(v, ixs[0], st, node)
                if len(ixs) > 1:
                    return self.getitem(r, ixs[1:], st, node)
                return r
            if len(ixs) == 1 and isinstance(ixs[0], Idx):
                # an index over a list of unknown extent: typed generically
                if v.default is not None and getattr(v.default, "idx_ok", False):
                    return v.default(ixs[0])
                return TOP
            if len(ixs) == 1 and isinstance(ixs[0], tuple) and ixs[0][0] == "slice":
                lo, hi, stp = ixs[0][1:]
                if stp is None and (lo is None or isinstance(lo, Poly)):
                    lo = lo or Poly.const(0)
                    if lo.cval() is not None and lo.cval() < 0:
                        if v.length is None:
                            return TOP
                        lo = v.length + lo
                    arr, me, st0 = v, self, st
                    ln = None
                    if hi is None and v.length is not None:
                        ln = v.length - lo
                    elif isinstance(hi, Poly):
                        if hi.cval() is not None and hi.cval() < 0 and v.length is not None:
                            hi = v.length + hi
                        ln = hi - lo
                    return Arr1(lambda i: me.arr_get(arr, i + lo, st0), (), ln, ("slice", v.tag, lo, len(v.writes)))
            if len(ixs) == 1 and ixs[0] == "full":
                return Arr1(v.default, v.writes, v.length, v.tag)
            return TOP
        return TOP

    def e_ListComp(self, n, st):
        return self.comp(n, st)

    e_GeneratorExp = e_ListComp

    def comp(self, n, st):
        if len(n.generators) != 1 or n.generators[0].ifs:
            return [(TOP, st)]
        g = n.generators[0]
        out = []
        for it, s in self.ev(g.iter, st):
            s2 = s.clone()
            spec = self.iterspec(it, s2, g.target, g.iter)
            if spec is None:
                out.append((TOP, s))
                continue
            kind = spec[0]
            if kind == "items":
                res = [([], s2)]
                for item in spec[1]:
                    new = []
                    for acc, s3 in res:
                        s3 = s3.clone()
                        self.assign(g.target, item, s3, n)
                        for v, s4 in self.ev(n.elt, s3):
                            new.append((acc + [v], s4))
                    res = new
                for acc, s3 in res:
                    out.append((TupV(acc, True), self.pop_to(s3, s)))
            elif kind == "idx":
                ix, elem = spec[1], spec[2]
                s2.idx = s2.idx + ((ix.name, ix.id),)
                self.assign(g.target, elem, s2, n)
                for v0, s3 in self.ev(n.elt, s2):
                    v = self.de(v0, s3)
                    r = TOP
                    if isinstance(v, (Ten, Alt)):
                        def f(t):
                            if not isinstance(t, Ten):
                                return TOP
                            o = self.openfree(t)
                            leg = o.pop((ix.name, ix.id), None)
                            if leg is None:
                                leg = Unk(ix.dim)
                            return Ten((leg,) + t.axes, t.terms, [(i, l) for i, l in t.free if i != (ix.name, ix.id)], t.zero)
                        r = self.guard(lambda: self.lift(f, v), n)
                    elif isinstance(v, Poly):
                        r = TOP
                    out.append((r, self.pop_to(s3, s)))
            elif kind == "site":
                q, lo, hi, step, elem = spec[1:]
                s2.assume = s2.assume + self.range_assume(q, lo, hi, step)
                self.assign(g.target, elem, s2, n)
                for v0, s3 in self.ev(n.elt, s2):
                    v = self.de(v0, s3)
                    k = Poly.sym(q)
                    if step == 1:
                        idx = k - lo
                    else:
                        idx = (lo - k)
                    ln = (hi - lo) * step if step in (1, -1) else None
                    arr = Arr1(None, [(idx, v, q, None, None, None)], ln, self.fresh("comp"))
                    out.append((arr, self.pop_to(s3, s)))
            else:
                out.append((TOP, s))
        return out

    def pop_to(self, s, base):
        """state s with the locals of base (comprehension scope ends)"""
        s = s.clone()
        s.loc = dict(base.loc)
        s.idx = base.idx
        s.assume = base.assume
        return s

    def range_assume(self, q, lo, hi, step):
        k = Poly.sym(q)
        if step == 1:
            return (k - lo, hi - 1 - k)
        if step == -1:
            return (lo - k, k - hi - 1)
        return ()

    # what does iterating over 'it' do?
    def iterspec(self, it, st, target, node):
        it = self.de(it, st)
        name = target.id if isinstance(target, ast.Name) else "i"
        if isinstance(it, Range):
            lo, hi, step = it.lo, it.hi, it.step
            if not (isinstance(lo, Poly) and isinstance(hi, Poly)):
                return None
            if self.isdimlike(hi - lo) and step == 1 and lo.cval() == 0:
                ix = Idx(self.fresh("i"), hi, name)
                return ("idx", ix, ix)
            n = ((hi - lo) * step).cval()
            if n is not None and step in (1, -1) and 0 <= n <= self.unroll:
                return ("items", [lo + step * i for i in range(int(n))])
            q = self.fresh(name)
            return ("site", q, lo, hi, step, Poly.sym(q))
        if isinstance(it, TupV):
            return ("items", it.items)
        if isinstance(it, (Ten, Alt)):
            t = alts(it)[0]
            if not t.axes:
                return None
            ix = Idx(self.fresh("i"), self.geo.axdim(t.axes[0]), name)
            return ("idx", ix, self.guard(lambda: self.index(it, [ix], node, st), node))
        if isinstance(it, Arr1):
            q = self.fresh(name)
            if it.default is not None and getattr(it.default, "idx_ok", False):
                ix = Idx(self.fresh("i"), it.length, name)
                return ("idx", ix, it.default(ix))
            hi = it.length
            if hi is None:
                return None
            return ("site", q, Poly.const(0), hi, 1, self.arr_get(it, Poly.sym(q), st))
        return None

    def isdimlike(self, p):
        """is this an expression in dimensions only (no sites)?"""
        s = p.syms()
        if not s:
            return False
        for x in s:
            if isinstance(x, tuple):
                if x[0].split(".")[0].split("_")[0] not in ("q", "D", "dim"):
                    return False
            elif x.split("@")[0].split(".")[0].split("_")[0] not in ("q", "D"):
                return False
        return True

    def e_JoinedStr(self, n, st):
        return [(TOP, st)]

    def e_Lambda(self, n, st):
        n._mod = self.stack[-1]._mod if self.stack else None
        clo = dict(st.loc)
        return [(Fn(n, n._mod, None, clo), st)]

    def e_Dict(self, n, st):
        return [(TOP, st)]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # super(...) / super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            slf = st.loc.get("self")
            if isinstance(slf, Obj):
                cur = self.stack[-1]
                cname = cur._cls.name if hasattr(cur, "_cls") else None
                if n.func.value.args and isinstance(n.func.value.args[0], ast.Name):
                    cname = n.func.value.args[0].id
                m = self.prog.method(slf.cls, n.func.attr, after=cname)
                if m is not None:
                    return self.callwith(Fn(m, m._mod, slf), n, st)
            return [(TOP, st)]
        out = []
        try:
            fs = self.ev(n.func, st)
        except Prune:
            raise
        for f, s in fs:
            out.extend(self.callwith(f, n, s))
        return out

    def callwith(self, f, n, st):
        out = []
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        for vs, s in self.evs(nodes, st):
            args, ok = [], True
            for a, v in zip(n.args, vs):
                if isinstance(a, ast.Starred):
                    v = self.de(v, s)
                    if isinstance(v, TupV):
                        args.extend(v.items)
                    else:
                        ok = False
                else:
                    args.append(v)
            kw = {}
            for k, v in zip(n.keywords, vs[len(n.args):]):
                if k.arg is None:
                    ok = False
                else:
                    kw[k.arg] = v
            if not ok:
                out.append((TOP, s))
                continue
            out.extend(self.call(f, args, kw, s, n))
        return out

    def call(self, f, args, kw, st, node):
        f = self.de(f, st)
        from . import axioms as AX
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, Lib):
            return AX.lib(self, f.name, args, kw, st, node)
        if isinstance(f, Meth):
            return AX.meth(self, f.obj, f.name, args, kw, st, node)
        if isinstance(f, OpFn):
            return [(self.guard(lambda: self.index(f.ten, [self.de(a, st) for a in args], node, st), node), st)]
        if isinstance(f, Cls):
            ax = self.axioms.get(f.name)
            if ax:
                return ax(self, args, kw, st, node)
            return [(TOP, st)]
        return [(TOP, st)]

    def call_fn(self, f, args, kw, st, node):
        node_f = f.node
        q = (f.mod.name if f.mod else "?") + "." + (qualname(node_f) if isinstance(node_f, ast.FunctionDef) else "<lambda>")
        ax = self.axioms.get(q)
        if ax is not None:
            try:
                return ax(self, ([f.bound] if f.bound is not None else []) + list(args), kw, st, node)
            except TypeErr as e:
                self.report(node, e.rule, e.msg)
                return [(TOP, st)]
        if len(self.stack) >= MAXDEPTH or sum(1 for x in self.stack if x is node_f) >= 2:
            return [(TOP, st)]
        if isinstance(node_f, ast.Lambda):
            node_f._mod = f.mod
        a = node_f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        static = isinstance(node_f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node_f.decorator_list)
        clsm = isinstance(node_f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in node_f.decorator_list)
        pos = list(args)
        if f.bound is not None and not static:
            pos = [f.bound] + pos
        elif clsm and f.cls:
            pos = [Cls(f.cls)] + pos
        loc = {}
        if len(pos) > len(names):
            if a.vararg is None:
                return [(TOP, st)]
            loc[a.vararg.arg] = TupV(pos[len(names):])
            pos = pos[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = TupV([])
        for nm, v in zip(names, pos):
            loc[nm] = v
        for k, v in kw.items():
            loc[k] = v
        # defaults
        self.stack.append(node_f)
        try:
            dn = names[len(names) - len(a.defaults):]
            for nm, d in zip(dn, a.defaults):
                if nm not in loc:
                    loc[nm] = self.ev(d, st)[0][0]
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in loc:
                    loc[x.arg] = self.ev(d, st)[0][0] if d is not None else TOP
            for nm in names:
                if nm not in loc:
                    loc[nm] = TOP
            for nm in list(loc):
                if nm in self.assume_false:
                    loc[nm] = Const(False)
            if f.closure is not None:
                loc["__closure__"] = f.closure
            s = st.clone()
            s.loc = loc
            s.born = {k: frozenset(s.idx) for k in loc}
            if isinstance(node_f, ast.Lambda):
                outs = []
                for v, s2 in self.ev(node_f.body, s):
                    outs.append((v, self.ret_state(s2, st)))
                return outs
            self.funcs.add(q)
            res = self.exec_block(node_f.body, s)
            outs = []
            for sig, v, s2 in res:
                if sig == "raise":
                    continue
                if sig is None:
                    v = NONE
                outs.append((v, self.ret_state(s2, st)))
            if not outs:
                raise Prune()
            # merge equal
            uniq = []
            for v, s2 in outs:
                if not any(veq(v, v3) and s2.same(s3) and s2.facts == s3.facts for v3, s3 in uniq):
                    uniq.append((v, s2))
            uniq = self.join_outs(uniq, st)
            return uniq
        finally:
            self.stack.pop()

    def join_outs(self, outs, st):
        if len(outs) <= 1:
            return outs
        # drop the facts local to the callee when results agree
        res = []
        for v, s in outs:
            for i, (v3, s3) in enumerate(res):
                if self.sameval(v, s, v3, s3) and self.sameheap(s, s3):
                    s3.facts = {k: x for k, x in s3.facts.items() if s.facts.get(k) == x}
                    s3.assume = tuple(a for a in s3.assume if a in s.assume)
                    break
            else:
                res.append((v, s))
        return res[:MAXSTATES]

    def sameval(self, a, s, b, s2):
        if isinstance(a, Ref) and isinstance(b, Ref):
            return veq(s.cells.get(a.id), s2.cells.get(b.id))
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return all(self.sameval(x, s, y, s2) for x, y in zip(a.items, b.items))
        return veq(a, b)

    def sameheap(self, s, s2):
        ks = set(s.cells) & set(s2.cells)
        for k in ks:
            if not veq(s.cells[k], s2.cells[k]):
                return False
        ka = set(s.attrs) | set(s2.attrs)
        for k in ka:
            if k in s.attrs and k in s2.attrs:
                if not self.sameval(s.attrs[k], s, s2.attrs[k], s2):
                    return False
        return True

    def ret_state(self, s, caller):
        r = s.clone()
        r.loc, r.born, r.idx, r.loops = dict(caller.loc), dict(caller.born), caller.idx, caller.loops
        r.assume = caller.assume
        return r

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        live, done = [st], []
        for stt in stmts:
            new = []
            for s in live:
                try:
                    rs = self.ex(stt, s)
                except Prune:
                    continue
                for sig, v, s2 in rs:
                    if sig is None:
                        new.append(s2)
                    else:
                        done.append((sig, v, s2))
            live = self.limit(new)
            if not live:
                break
        return done + [(None, None, s) for s in live]

    def limit(self, states):
        res = []
        for s in states:
            for t in res:
                if s.same(t):
                    t.facts = {k: x for k, x in t.facts.items() if s.facts.get(k) == x}
                    if t.assume != s.assume:
                        t.assume = tuple(a for a in t.assume if a in s.assume)
                    break
                m = self.zero_join(s, t)
                if m is not None:
                    res[res.index(t)] = m
                    break
            else:
                res.append(s)
        if len(res) > MAXSTATES:
            self.truncated = True
            res = res[:MAXSTATES]
        return res

    def zero_join(self, s, t):
        """states that differ only in a zero-initialised array having been filled or not"""
        if s.loc.keys() != t.loc.keys() or s.attrs.keys() != t.attrs.keys():
            return None
        for d1, d2 in ((s.loc, t.loc), (s.attrs, t.attrs)):
            for k in d1:
                if not veq(d1[k], d2[k]):
                    return None
        out = dict(t.cells)
        for k in s.cells:
            if k in t.cells and not veq(s.cells[k], t.cells[k]):
                a, b = s.cells[k], t.cells[k]
                za = isinstance(a, Ten) and a.zero
                zb = isinstance(b, Ten) and b.zero
                if za and isinstance(b, (Ten, Alt)):
                    out[k] = b
                elif zb and isinstance(a, (Ten, Alt)):
                    out[k] = a
                else:
                    return None
            elif k not in t.cells:
                out[k] = s.cells[k]
        r = t.clone()
        r.cells = out
        r.facts = {k: x for k, x in t.facts.items() if s.facts.get(k) == x}
        r.assume = tuple(a for a in t.assume if a in s.assume)
        return r

    def ex(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(None, None, st)]
        return m(n, st)

    def s_Expr(self, n, st):
        return [(None, None, s) for v, s in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [("return", NONE, st)]
        return [("return", v, s) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        return [("raise", None, st)]

    def s_Break(self, n, st):
        return [("break", None, st)]

    def s_Continue(self, n, st):
        return [("continue", None, st)]

    def s_Assert(self, n, st):
        out = []
        for b, s in self.branch(n.test, st):
            if b:
                out.append((None, None, s))
        return out

    def s_FunctionDef(self, n, st):
        s = st.clone()
        n._mod = self.stack[-1]._mod
        f = Fn(n, n._mod, None, None)
        s.loc[n.name] = f
        clo = dict(s.loc)
        f.closure = clo
        return [(None, None, s)]

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s = s.clone()
            try:
                for t in n.targets:
                    self.assign(t, v, s, n)
            except TypeErr as e:
                self.report(n, e.rule, e.msg)
            out.append((None, None, s))
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(None, None, st)]
        out = []
        for v, s in self.ev(n.value, st):
            s = s.clone()
            self.assign(n.target, v, s, n)
            out.append((None, None, s))
        return out

    def setloc(self, name, v, st):
        st.loc[name] = v
        st.born[name] = frozenset(st.idx)
        st.born[("ver", name)] = st.born.get(("ver", name), 0) + 1

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setloc(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            d = self.de(v, st)
            if isinstance(d, Const) and d.v is None:
                raise Prune()
            if isinstance(d, TupV):
                if len(d.items) != len(t.elts):
                    self.report(node, "unpack", "unpacks %d values into %d targets" % (len(d.items), len(t.elts)))
                    items = [TOP] * len(t.elts)
                else:
                    items = d.items
            elif isinstance(d, (Ten, Alt)) and isinstance(alts(d)[0], Ten):
                items = [TOP] * len(t.elts)
            else:
                items = [TOP] * len(t.elts)
            for x, y in zip(t.elts, items):
                self.assign(x, y, st, node)
        elif isinstance(t, ast.Attribute):
            for o, s in self.ev(t.value, st)[:1]:
                o = self.de(o, st)
                if isinstance(o, Obj):
                    self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, TOP, st, node)

    def setattr(self, o, attr, v, st, node):
        if o.schema is not None:
            o.schema.check_attr(self, o, attr, v, st, node)
        st.attrs[(o.name, attr)] = v

    def store(self, t, v, st, node, add=None):
        """t = v where t is a subscript.  Resolves the chain base[i][j]..."""
        chain = []
        b = t
        while isinstance(b, ast.Subscript):
            ixs, _ = self.evidx(b.slice, st)[0]
            chain.insert(0, (ixs, b))
            b = b.value
        try:
            base = self.ev(b, st)[0][0]
        except Prune:
            raise
        self.store_into(base, b, chain, v, st, node)

    def store_into(self, base, bnode, chain, v, st, node):
        bv = self.de(base, st)
        ixs = chain[0][0]
        if isinstance(bv, Arr1) and isinstance(base, Ref):
            if len(ixs) == 1 and isinstance(ixs[0], Poly):
                if len(chain) == 1:
                    self.arr_set(base, ixs[0], v, st, node)
                else:
                    cur = self.arr_get(bv, ixs[0], st)
                    if isinstance(cur, Ref) or not isinstance(cur, (Ten, Alt)):
                        if isinstance(cur, Ref):
                            self.store_into(cur, None, chain[1:], v, st, node)
                        return
                    new = self.tstore(cur, chain[1:], v, st, node)
                    if new is not None:
                        self.arr_set(base, ixs[0], new, st, node)
            elif len(ixs) == 1 and ixs[0] == "full" and len(chain) == 1:
                # B[:] = other
                d = self.de(v, st)
                if isinstance(d, Arr1):
                    st.cells[base.id] = d
            return
        if isinstance(bv, TupV) and isinstance(base, Ref) and len(ixs) == 1 and isinstance(ixs[0], Poly):
            c = ixs[0].cval()
            if c is not None and -len(bv.items) <= c < len(bv.items) and len(chain) == 1:
                items = list(bv.items)
                items[int(c)] = v
                st.cells[base.id] = TupV(items, bv.lst)
            else:
                st.cells[base.id] = TOP
            return
        if isinstance(bv, (Ten, Alt)):
            new = self.tstore(bv, chain, v, st, node)
            if new is None:
                return
            if isinstance(base, Ref):
                st.cells[base.id] = new
                if len(chain) == 1 and all(isinstance(i, str) and i in ("full", "...") for i in ixs) and not isinstance(node, ast.AugAssign):
                    st.cborn[base.id] = frozenset(st.idx)
            elif isinstance(bnode, ast.Name):
                st.loc[bnode.id] = new
            elif isinstance(bnode, ast.Attribute):
                self.assign(bnode, new, st, node)
            return

    def arr_set(self, ref, i, v, st, node):
        arr = st.cells[ref.id]
        d = self.de(v, st)
        val = d if isinstance(d, (Ten, Alt, Const, TupV, Arr1, Poly)) or d is TOP else v
        if isinstance(val, (Ten, Alt)) and getattr(arr.default, "schema", None) is not None:
            sch = arr.default.schema
            self.check_schema(sch, i, val, st, node)
        c = i.cval()
        if c is not None and c < 0 and arr.length is not None:
            i = arr.length + i
        st.cells[ref.id] = Arr1(arr.default, arr.writes + ((i, val, None, None, None, None),), arr.length, arr.tag)

    def check_schema(self, sch, i, val, st, node):
        r = sch(self, i, val, st)
        if r is None:
            return
        ok, msg = r
        if ok:
            self.oblig(node)
        else:
            self.report(node, "schema", msg)

    def tstore(self, cur, chain, v, st, node):
        """new type of tensor 'cur' after cur[ixs]... = v (whole-slice stores by loop index)"""
        v = self.tonum(self.de(v, st))
        ixs = []
        for c, _ in chain:
            ixs.extend(c)
        if not isinstance(v, (Ten, Alt)):
            if v is TOP or isinstance(v, (Meth, Fn)):
                return TOP
            return None
        def f(c, x):
            if not isinstance(c, Ten) or not isinstance(x, Ten):
                return TOP
            free = dict(self.openfree(x))
            axes, k, xk = [], 0, 0
            rest = list(x.axes)
            nfull = 0
            full_needed = len(c.axes)
            for ix in ixs:
                if k >= len(c.axes):
                    return TOP
                a = c.axes[k]
                if isinstance(ix, Idx):
                    nm = (ix.name, ix.id)
                    if self.dims_clash(self.geo.axdim(a), ix.dim):
                        raise TypeErr("index '%s' runs over a range of length %r but is applied to axis %r" % (ix.name, ix.dim, a), "range")
                    leg = free.pop(nm, None)
                    if leg is None:
                        leg = Unk(self.geo.axdim(a)) if not any(i == nm for i, _ in x.free) else Unk(self.geo.axdim(a))
                        if c.zero is False and not isinstance(a, Unk):
                            leg = a
                    elif isinstance(a, Unk) or c.zero:
                        if self.dims_clash(self.geo.axdim(a), self.geo.axdim(leg)):
                            raise TypeErr("stores along an axis of length %r a quantity indexed by %r" % (self.geo.axdim(a), leg), "shape")
                    axes.append(leg)
                    k += 1
                elif isinstance(ix, IdxC) and ix.stride is None:
                    legs = []
                    for y in ix.items:
                        leg = free.pop((y.name, y.id), None)
                        if leg is None or isinstance(leg, Unk):
                            return TOP
                        legs.extend(leg.legs if isinstance(leg, Comp) else [leg])
                    axes.append(Comp(legs))
                    if self.dims_clash(self.geo.axdim(a), self.geo.axdim(axes[-1])):
                        raise TypeErr("stores a joint index of %r values along an axis of length %r" % (self.geo.axdim(axes[-1]), self.geo.axdim(a)), "shape")
                    k += 1
                elif ix == "full" or (isinstance(ix, tuple) and ix and ix[0] == "slice" and False):
                    if not x.axes:
                        axes.append(a)
                    elif rest:
                        y = rest.pop(0)
                        if self.dims_clash(self.geo.axdim(a), self.geo.axdim(y)):
                            raise TypeErr("stores %r into an axis %r of another length" % (y, a), "shape")
                        axes.append(y if not isinstance(y, Unk) else a)
                    else:
                        return TOP
                    k += 1
                else:
                    # partial or constant index: only part of the array is written
                    return c.with_(zero=False, terms=None) if not c.zero else Ten([Unk(self.geo.axdim(z)) for z in c.axes], None)
            tail = c.axes[k:]
            if x.axes or rest:
                if len(rest) != len(tail):
                    if not rest and not x.axes:
                        axes.extend(tail)
                    elif len(rest) < len(tail):
                        return TOP
                    else:
                        return TOP
                else:
                    for a, y in zip(tail, rest):
                        if self.dims_clash(self.geo.axdim(a), self.geo.axdim(y)):
                            raise TypeErr("stores axis %r into an axis %r of another length" % (y, a), "shape")
                        axes.append(y if not isinstance(y, Unk) else a)
            else:
                axes.extend(tail)
            for i in list(free):
                if i in st.idx and not (c.free and i in dict(c.free)):
                    # index neither summed nor stored: last value wins
                    pass
            fr = list(free.items())
            used = set((y.name, y.id) for ix in ixs if isinstance(ix, (Idx, IdxC)) for y in (ix.items if isinstance(ix, IdxC) else (ix,)))
            fr = [(i, l) for i, l in fr if i not in used]
            return Ten(axes, x.terms, fr, x.zero and c.zero)
        try:
            return self.lift(f, cur, v)
        except TypeErr as e:
            self.report(node, e.rule, e.msg)
            return TOP

    def s_AugAssign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s = s.clone()
            tgt = n.target
            try:
                cur = self.ev(tgt, s)[0][0]
            except Prune:
                continue
            curd, vd = self.de(cur, s), self.tonum(self.de(v, s))
            if isinstance(curd, Poly) and isinstance(self.de(v, s), Poly):
                self.assign(tgt, self.binop(n.op, curd, self.de(v, s), s, n), s, n)
                out.append((None, None, s))
                continue
            curd = self.tonum(curd)
            if isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(curd, (Ten, Alt)) and isinstance(vd, (Ten, Alt)):
                born = self.bornof(tgt, cur, s)
                keep = self.targetidx(tgt, s)
                vd2 = self.guard(lambda: self.sumover(vd, born, keep, s, n), n)
                if vd2 is TOP:
                    new = TOP
                else:
                    cur2 = curd
                    new = self.guard(lambda: self.add(cur2, vd2, n, 1 if isinstance(n.op, ast.Add) else -1), n)
            else:
                new = self.binop(n.op, cur, v, s, n)
            if isinstance(cur, Ref) and isinstance(tgt, ast.Name) and not isinstance(s.cells.get(cur.id), (Arr1, TupV)):
                s.cells[cur.id] = new
            elif isinstance(cur, Ref) and isinstance(tgt, ast.Name) and isinstance(curd, TupV):
                s.loc[tgt.id] = TOP
            elif isinstance(tgt, ast.Name):
                b = s.born.get(tgt.id)
                self.setloc(tgt.id, new, s)
                s.born[tgt.id] = b if b is not None else frozenset()
            elif isinstance(tgt, ast.Subscript):
                self.store(tgt, new, s, n)
            elif isinstance(tgt, ast.Attribute):
                if isinstance(cur, Ref) and isinstance(new, (Ten, Alt)):
                    s.cells[cur.id] = new
                else:
                    self.assign(tgt, new, s, n)
            out.append((None, None, s))
        return out

    def targetidx(self, tgt, st):
        k = set()
        b = tgt
        while isinstance(b, ast.Subscript):
            for ix in self.evidx(b.slice, st)[0][0]:
                if isinstance(ix, Idx):
                    k.add((ix.name, ix.id))
                elif isinstance(ix, IdxC):
                    k.update((y.name, y.id) for y in ix.items)
            b = b.value
        return k

    def bornof(self, tgt, cur, st):
        if isinstance(cur, Ref):
            return st.cborn.get(cur.id, frozenset())
        b = tgt
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            v = st.loc.get(b.id)
            if isinstance(v, Ref):
                return st.cborn.get(v.id, frozenset())
            return st.born.get(b.id, frozenset())
        return frozenset()

    def sumover(self, v, born, keep, st, node):
        """the accumulator was created outside the axis loops 'active - born': those
        indices are summed here and must be paired, unless kept by the target"""
        active = [i for i in st.idx if i not in born and i not in keep]
        if not active:
            return v
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            o = self.openfree(t)
            for i in active:
                if i in o and not isinstance(o[i], Unk) and not t.zero:
                    raise TypeErr("index '%s' (%r) is summed without a partner in the other layer" % (i[0], o[i]), "unpaired")
            return Ten(t.axes, t.terms, [(i, l) for i, l in t.free if i not in active], t.zero, t.kind)
        return self.lift(f, v)

    def s_If(self, n, st):
        out = []
        for b, s in self.branch(n.test, st):
            out.extend(self.exec_block(n.body if b else n.orelse, s))
        # merge
        live = self.limit([s for sig, v, s in out if sig is None])
        return [o for o in out if o[0] is not None] + [(None, None, s) for s in live]

    def s_Try(self, n, st):
        out = []
        res = self.exec_block(n.body, st)
        for sig, v, s in res:
            if sig == "raise":
                continue
            if sig is None:
                out.extend(self.exec_block(n.orelse, s))
            else:
                out.append((sig, v, s))
        for h in n.handlers:
            s = st.clone()
            if h.name:
                s.loc[h.name] = TOP
            out.extend(self.exec_block(h.body, s))
        raised = [o for o in res if o[0] == "raise"]
        if not n.handlers:
            out.extend(raised)
        if n.finalbody:
            out2 = []
            for sig, v, s in out:
                for sig2, v2, s2 in self.exec_block(n.finalbody, s):
                    out2.append((sig2, v2, s2) if sig2 else (sig, v, s2))
            out = out2
        live = self.limit([s for sig, v, s in out if sig is None])
        return [o for o in out if o[0] is not None] + [(None, None, s) for s in live]

    s_TryStar = s_Try

    def s_With(self, n, st):
        s = st
        for it in n.items:
            r = self.ev(it.context_expr, s)
            s = r[0][1].clone()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r[0][0], s, n)
        return self.exec_block(n.body, s)

    def s_Delete(self, n, st):
        return [(None, None, st)]

    def s_While(self, n, st):
        out = []
        b = self.branch(n.test, st)
        for t, s in b:
            if not t:
                out.append((None, None, s))
                continue
            res = self.exec_block(n.body, s)
            for sig, v, s2 in res:
                if sig in ("return", "raise"):
                    out.append((sig, v, s2))
                    continue
                if sig == "break":
                    out.append((None, None, s2))
                    continue
                # widen what changed and run once more
                w = self.widen(s, s2)
                for sig3, v3, s3 in self.exec_block(n.body, w):
                    if sig3 in ("return", "raise"):
                        out.append((sig3, v3, s3))
                    else:
                        out.append((None, None, self.widen(w, s3)))
        live = self.limit([s for sig, v, s in out if sig is None])
        return [o for o in out if o[0] is not None] + [(None, None, s) for s in live]

    def widen(self, a, b):
        r = b.clone()
        for k in b.loc:
            if k in a.loc and not veq(a.loc[k], b.loc[k]):
                r.loc[k] = self.wval(self.de(a.loc[k], a), self.de(b.loc[k], b))
        for k in b.cells:
            if k in a.cells and not veq(a.cells[k], b.cells[k]):
                r.cells[k] = self.wval(a.cells[k], b.cells[k])
        for k in b.attrs:
            if k in a.attrs and not veq(a.attrs[k], b.attrs[k]):
                if not isinstance(b.attrs[k], Ref):
                    r.attrs[k] = self.wval(self.de(a.attrs[k], a), self.de(b.attrs[k], b))
        r.facts = {k: v for k, v in b.facts.items() if a.facts.get(k) == v}
        return r

    def wval(self, x, y):
        if isinstance(x, Ten) and isinstance(y, Ten):
            if x.zero:
                return y.with_(terms=None)
            if y.zero:
                return x.with_(terms=None)
            if x.axes == y.axes:
                return Ten(x.axes, None, y.free, False, None)
        if isinstance(x, Alt) and isinstance(y, Alt) and len(x.alts) == len(y.alts):
            r = [self.wval(p, q) for p, q in zip(x.alts, y.alts)]
            if not any(z is TOP for z in r):
                return mkalt(r)
        if isinstance(x, Arr1) and isinstance(y, Arr1):
            return y
        return TOP

    # ------------------------------------------------------------ loops
    def s_For(self, n, st):
        out = []
        for it, s in self.ev(n.iter, st):
            s = s.clone()
            rev = False
            spec = self.iterspec(it, s, n.target, n.iter)
            out.extend(self.loop(n, spec, s))
        live = self.limit([s for sig, v, s in out if sig is None])
        return [o for o in out if o[0] is not None] + [(None, None, s) for s in live]

    def loop(self, n, spec, st):
        if spec is None:
            s = st.clone()
            self.assign(n.target, TOP, s, n)
            res = self.exec_block(n.body, s)
            out = []
            for sig, v, s2 in res:
                if sig in ("return", "raise"):
                    out.append((sig, v, s2))
                else:
                    out.append((None, None, self.widen(st, s2)))
            out.append((None, None, st))
            return out
        kind = spec[0]
        if kind == "items":
            live, out = [st], []
            for item in spec[1]:
                nxt = []
                for s in live:
                    s = s.clone()
                    self.assign(n.target, item, s, n)
                    for sig, v, s2 in self.exec_block(n.body, s):
                        if sig in ("return", "raise"):
                            out.append((sig, v, s2))
                        elif sig == "break":
                            out.append((None, None, s2))
                        else:
                            nxt.append(s2)
                live = self.limit(nxt)
            for s in live:
                out.extend(self.exec_block(n.orelse, s) if n.orelse else [(None, None, s)])
            return out
        if kind == "idx":
            ix, elem = spec[1], spec[2]
            s = st.clone()
            nm = (ix.name, ix.id)
            s.idx = s.idx + (nm,)
            self.assign(n.target, elem, s, n)
            out = []
            before = dict(st.loc)
            inplace = isinstance(elem, (Ten, Alt)) and isinstance(n.target, ast.Name)
            if inplace:
                # 'for X in T: X[:] = f(X)' updates T slice by slice
                r = self.cell(s, elem)
                s.loc[n.target.id] = r
            for sig, v, s2 in self.exec_block(n.body, s):
                s2 = s2.clone()
                s2.idx = st.idx
                if sig in ("return", "raise"):
                    out.append((sig, v, s2))
                    continue
                if inplace:
                    newel = s2.cells.get(r.id)
                    if newel is not None and not veq(newel, elem):
                        self.write_back(n, newel, nm, s2)
                self.check_leak(n, nm, st, s2)
                out.append((None, None, s2))
            return out
        # site loop
        _, q, lo, hi, step, elem = spec
        return self.site_loop(n, q, lo, hi, step, elem, st)

    def write_back(self, n, newel, nm, s2):
        base = n.iter
        if not isinstance(base, ast.Name):
            return
        def f(t):
            if not isinstance(t, Ten):
                return TOP
            o = self.openfree(t)
            leg = o.pop(nm, None)
            if leg is None:
                return TOP
            return Ten((leg,) + t.axes, t.terms, list(o.items()), t.zero)
        new = self.guard(lambda: self.lift(f, newel), n) if isinstance(newel, (Ten, Alt)) else TOP
        cur = s2.loc.get(base.id)
        if isinstance(cur, Ref):
            s2.cells[cur.id] = new
        else:
            s2.loc[base.id] = new

    def check_leak(self, n, nm, st0, s2):
        """after an axis loop nothing declared outside may still carry the index"""
        for k, v in list(s2.cells.items()):
            if isinstance(v, Ten) and any(i == nm for i, _ in v.free):
                s2.cells[k] = v.with_(free=[(i, l) for i, l in v.free if i != nm])
        for k, v in list(s2.loc.items()):
            if isinstance(v, Ten) and any(i == nm for i, _ in v.free):
                s2.loc[k] = v.with_(free=[(i, l) for i, l in v.free if i != nm], terms=None)

    def gen(self, v0, v1, a, step, k):
        """generalise: value at iteration a (v0) and a+step (v1) -> value at iteration k"""
        if veq(v0, v1):
            return v0
        if isinstance(v0, Poly) and isinstance(v1, Poly):
            return self.genpoly(v0, v1, a, step, k)
        ad = self.geo.site(a)
        if isinstance(v0, Ten) and isinstance(v1, Ten):
            if v0.zero and not v1.zero and len(v0.axes) in (0, len(v1.axes)):
                return v1.with_(terms=None)
            if len(v0.axes) != len(v1.axes) or v0.zero != v1.zero or v0.kind != v1.kind:
                return None
            ax = []
            for x, y in zip(v0.axes, v1.axes):
                g = self.genax(x, y, ad, step, k)
                if g is None:
                    return None
                ax.append(g)
            if v0.free != v1.free:
                return None
            return Ten(ax, self.genterms(v0.terms, v1.terms, ad, step, k), v0.free, v0.zero, v0.kind)
        if isinstance(v0, Alt) and isinstance(v1, Alt) and len(v0.alts) == len(v1.alts):
            r = [self.gen(x, y, a, step, k) for x, y in zip(v0.alts, v1.alts)]
            if any(x is None for x in r):
                return None
            return mkalt(r)
        if isinstance(v0, TupV) and isinstance(v1, TupV) and len(v0.items) == len(v1.items):
            r = [self.gen(x, y, a, step, k) for x, y in zip(v0.items, v1.items)]
            if any(x is None for x in r):
                return None
            return TupV(r, v0.lst)
        return None

    def genpoly(self, p0, p1, a, step, k):
        d = (p1 - p0)
        if d == Poly({}):
            return p0
        c = d.cval()
        if c is not None and c in (step, -step):
            s = 1 if c == step else -1
            return p0 + (Poly.sym(k) - a) * s
        return None

    def genax(self, x, y, a, step, k):
        if x == y:
            return x
        if isinstance(x, Unk) and isinstance(y, Unk):
            if x.dim is None or y.dim is None:
                return Unk(None)
            return Unk(self.gendim(x.dim, y.dim, a, step, k))
        if isinstance(x, Comp) and isinstance(y, Comp) and len(x.legs) == len(y.legs):
            r = [self.genax(p, q, a, step, k) for p, q in zip(x.legs, y.legs)]
            return None if any(z is None for z in r) else Comp(r)
        if isinstance(x, Leg) and isinstance(y, Leg) and x.conj == y.conj and x.up == y.up:
            sp = self.gensym(x.space, y.space, a, step, k)
            return None if sp is None else Leg(sp, x.conj, x.up)
        return None

    def gendim(self, x, y, a, step, k):
        sx, sy = sorted(x.syms(), key=repr), sorted(y.syms(), key=repr)
        if len(sx) != len(sy):
            return None
        m = {}
        for p, q in zip(sx, sy):
            g = self.gensym(p, q, a, step, k)
            if g is None:
                return None
            m[p] = Poly.sym(g)
        return x.subst(m)

    def gensym(self, s0, s1, a, step, k):
        if s0 == s1:
            return s0
        if isinstance(s0, tuple) and isinstance(s1, tuple) and len(s0) == len(s1):
            r = []
            for x, y in zip(s0, s1):
                if isinstance(x, Poly) and isinstance(y, Poly):
                    if x.syms() and any(isinstance(z, tuple) for z in x.syms()):
                        g = self.gendim(x, y, a, step, k) if x != y else x
                    else:
                        g = self.genpoly(x, y, a, step, k)
                elif isinstance(x, tuple):
                    g = self.gensym(x, y, a, step, k)
                else:
                    g = x if x == y else None
                if g is None:
                    return None
                r.append(g)
            return tuple(r)
        return None

    def genterms(self, t0, t1, a, step, k):
        if t0 is None or t1 is None or len(t0) != 1 or len(t1) != 1:
            return None
        (m0, c0), = t0.items()
        (m1, c1), = t1.items()
        if c0 != c1 or len(m0) != len(m1):
            return None
        out = []
        for x, y in zip(m0, m1):
            if x[0] != y[0] or x[2:] != y[2:] or len(x[1]) != len(y[1]):
                return None
            args = []
            for p, q in zip(x[1], y[1]):
                if isinstance(p, Poly) and isinstance(q, Poly):
                    g = self.genpoly(p, q, a, step, k)
                else:
                    g = p if p == q else None
                if g is None:
                    return None
                args.append(g)
            out.append((x[0], tuple(args), x[2], x[3]))
        return {norm_mono(out): c0}

    def run_iter(self, n, kval, elem, q, s, extra=()):
        s = s.clone()
        e = sub(elem, {q: kval}) if not isinstance(elem, Poly) else elem.subst({q: kval})
        s.assume = s.assume + tuple(extra)
        self.assign(n.target, e, s, n)
        s0 = s.clone()
        res = self.exec_block(n.body, s)
        return [(sig, v, self.absorb(s0, s2, n) if sig != "raise" else s2) for sig, v, s2 in res]

    def absorb(self, s0, s2, node):
        """arrays with a defining recursion ('inductive' attributes): every entry assigned in
        this iteration must equal its definition; the array then again holds its definition"""
        out = None
        for c, v in s2.cells.items():
            ind = getattr(v.default, "ind", None) if isinstance(v, Arr1) else None
            if ind is None:
                continue
            old = s0.cells.get(c)
            k = len(old.writes) if isinstance(old, Arr1) else 0
            if len(v.writes) == k:
                continue
            self.check_ind(v, v.writes[k:], s2, node)
            if out is None:
                out = s2.clone()
            out.cells[c] = Arr1(v.default, v.writes[:k], v.length, v.tag)
        return out or s2

    def check_ind(self, v, writes, st, node):
        done = set()
        for w in reversed(writes):
            if w[2] is not None or w[5] is not None:
                continue
            key = self.geo.site(w[0])
            if key in done:
                continue
            done.add(key)
            r = v.default.ind(self, key, self.de(w[1], st), st)
            if r is None:
                continue
            fn = self.stack[-1] if self.stack else None
            kk = (fn._mod.rel if fn is not None else "?", qualname(fn) if fn is not None else "?", str(v.tag))
            d = self.indlog.setdefault(kk, {})
            d[repr(key)] = (r, getattr(node, "lineno", 0)) if d.get(repr(key), ("ok",))[0] in ("ok", "unknown") else d[repr(key)]
            self.indsites.setdefault((kk, repr(key)), set()).add(r if r in ("ok", "unknown") else "bad")

    def site_loop(self, n, q, lo, hi, step, elem, st):
        k = Poly.sym(q)
        if step not in (1, -1):
            return self.loop(n, None, st)
        out = []
        ra = self.range_assume(q, lo, hi, step)
        # ---- iteration 1 (k = lo); entered only when the range is not empty
        ent = self.ge0((hi - lo) * step - 1, st)
        if ent is False:
            return [(None, None, st)]
        nonempty = tuple(x.subst({q: lo}) for x in ra)
        states0 = [(st, lo)]
        peel = 0
        final = []
        first = self.run_iter(n, lo, elem, q, st, nonempty)
        nxt = []
        for sig, v, s2 in first:
            s2 = s2.clone()
            s2.assume = st.assume
            if sig in ("return", "raise"):
                out.append((sig, v, s2))
            elif sig == "break":
                final.append(s2)
            else:
                nxt.append(s2)
        nxt = self.limit(nxt)
        for s1 in nxt[:6]:
            g, fails = self.generalise(n, st, s1, q, lo, step)
            a0, sA, sB = lo, st, s1
            if fails:
                # peel one more iteration
                second = self.run_iter(n, lo + step, elem, q, s1, tuple(x.subst({q: lo + step}) for x in ra))
                ok = []
                for sig, v, s2 in second:
                    s2 = s2.clone()
                    s2.assume = st.assume
                    if sig in ("return", "raise"):
                        out.append((sig, v, s2))
                    elif sig == "break":
                        final.append(s2)
                    else:
                        ok.append(s2)
                if ok:
                    s2 = self.limit(ok)[0]
                    g2, fails2 = self.generalise(n, s1, s2, q, lo + step, step)
                    if len(fails2) <= len(fails):
                        g, fails, a0, sA, sB = g2, fails2, lo + step, s1, s2
            for kind, key in fails:
                (g.loc if kind == "loc" else g.cells if kind == "cell" else g.attrs)[key] = TOP
            # ---- generic iteration
            g.assume = st.assume + ra
            gen_in = g.clone()
            g3 = g.clone()
            res = self.run_iter(n, k, elem, q, g3)
            nextstates = []
            for sig, v, s2 in res:
                s2 = s2.clone()
                s2.assume = st.assume
                if sig in ("return", "raise"):
                    out.append((sig, v, s2))
                elif sig == "break":
                    final.append(s2)
                else:
                    nextstates.append(s2)
            for s2 in self.limit(nextstates):
                end = self.endstate(n, gen_in, s2, q, lo, hi, step)
                end.assume = st.assume
                final.append(end)
            if not nextstates:
                final.append(s1)
        if ent is not True and not nxt:
            final.append(st)
        elif ent is not True:
            # zero-trip case: keep only if nothing was carried (else treat as covered by end state)
            pass
        if not final:
            return out
        res = out
        for s in self.limit(final):
            s = s.clone()
            s.loops = st.loops
            if isinstance(n.target, ast.Name):
                s.loc[n.target.id] = hi - step if isinstance(elem, Poly) else TOP
            if n.orelse:
                res.extend(self.exec_block(n.orelse, s))
            else:
                res.append((None, None, s))
        return res

    def generalise(self, n, s0, s1, q, a, step):
        """state at a generic iteration q, from the states before iterations a and a+step"""
        g = s1.clone()
        fails = []
        tgt = set(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
        for nm, v1 in s1.loc.items():
            if nm in tgt or nm == "__closure__":
                continue
            if nm not in s0.loc:
                continue        # assigned before use inside the body
            v0 = s0.loc[nm]
            d0, d1 = self.de(v0, s0), self.de(v1, s1)
            if veq(d0, d1) and veq(v0, v1):
                continue
            if isinstance(d1, Arr1) and isinstance(d0, Arr1):
                if isinstance(v1, Ref) and v0 == v1:
                    continue
            if isinstance(v0, Ref) and v0 == v1:
                continue
            r = self.gen(d0, d1, a, step, q)
            if r is None:
                fails.append(("loc", nm))
            else:
                g.loc[nm] = r
        for c, v1 in s1.cells.items():
            if c not in s0.cells:
                continue
            v0 = s0.cells[c]
            if veq(v0, v1):
                continue
            if isinstance(v1, Arr1) and isinstance(v0, Arr1):
                g.cells[c] = self.gen_arr(v0, v1, q, a, step)
                continue
            r = self.gen(v0, v1, a, step, q)
            if r is None:
                fails.append(("cell", c))
            else:
                g.cells[c] = r
        for at, v1 in s1.attrs.items():
            if at not in s0.attrs:
                continue
            v0 = s0.attrs[at]
            if veq(v0, v1):
                continue
            r = self.gen(self.de(v0, s0), self.de(v1, s1), a, step, q)
            if r is None:
                fails.append(("attr", at))
            else:
                g.attrs[at] = r
        return g, fails

    def gen_arr(self, v0, v1, q, a, step):
        """writes made in iteration a become writes of all previous iterations p"""
        nw = v1.writes[len(v0.writes):]
        p = q + "p"
        ws = list(v0.writes)
        ad = self.geo.site(a)
        for (idx, val, wq, lo, hi, prev) in nw:
            if wq is not None:
                ws.append((idx, val, wq, lo, hi, prev))
                continue
            gi = self.lift_start(idx, a, p)
            gv = self.lift_start_val(val, ad, p)
            if gi is None or gi == idx and gi.linear_in(p) in (0, None):
                ws.append((idx, TOP, None, None, None, None))
            else:
                ws.append((gi, gv, p, None, None, (q, step)))
        ln = v1.length
        if v0.length != v1.length:
            ln = None
            if v0.length is not None and v1.length is not None and (v1.length - v0.length).cval() == 1:
                ln = v0.length + (Poly.sym(q) - a) * step
        return Arr1(v1.default, ws, ln, v1.tag)

    def lift_start(self, p, a, k):
        """express p (which mentions the start value a) in terms of loop symbol k: exact only
        when p - a is constant (or p independent)"""
        d = (p - a).cval()
        if d is not None:
            return Poly.sym(k) + d
        d = (p + a).cval()
        if d is not None:
            return Poly.const(d) - Poly.sym(k)
        c = (p).cval()
        if c is not None and a.cval() is not None:
            return Poly.sym(k) + (c - a.cval())
        return p

    def lift_start_val(self, v, a, k):
        if isinstance(v, (Ten, Alt)):
            def sp(space):
                return tuple(self.lift_dimsym(x, a, k) if isinstance(x, Poly) else (sp(x) if isinstance(x, tuple) else x) for x in space)
            def ax(x):
                if isinstance(x, Leg):
                    return Leg(sp(x.space), x.conj, x.up)
                if isinstance(x, Comp):
                    return Comp([ax(y) for y in x.legs])
                return Unk(None) if x.dim is None or x.dim.cval() is None else x
            def f(t):
                if not isinstance(t, Ten):
                    return TOP
                return Ten([ax(x) for x in t.axes], None, t.free, t.zero, t.kind)
            return mkalt([f(t) for t in alts(v)]) if all(isinstance(t, Ten) for t in alts(v)) else TOP
        if isinstance(v, (Const,)):
            return v
        if isinstance(v, Poly):
            return self.lift_start(v, a, k)
        if isinstance(v, TupV):
            return TupV([self.lift_start_val(x, a, k) for x in v.items], v.lst)
        return TOP

    def lift_dimsym(self, p, a, k):
        if any(isinstance(z, tuple) for z in p.syms()):
            return p
        return self.lift_start(p, a, k)

    def endstate(self, n, gin, s2, q, lo, hi, step):
        """state after the loop.  gin: generic state before iteration q, s2: after it"""
        k = Poly.sym(q)
        m_next = {q: k + step}
        raw_end = hi if step == 1 else hi
        e = s2.clone()
        def end(v):
            if isinstance(v, Poly):
                return v.subst({q: raw_end})
            return sub(v, {q: self.geo.site(raw_end)})
        def last(v):
            if isinstance(v, Poly):
                return v.subst({q: raw_end - step})
            return sub(v, {q: self.geo.site(raw_end - step)})
        for nm, v in s2.loc.items():
            if nm == "__closure__":
                continue
            if nm in gin.loc and not isinstance(v, Ref):
                want = self.de(gin.loc[nm], gin)
                d = self.de(v, s2)
                if want is TOP or d is TOP:
                    e.loc[nm] = TOP
                    continue
                try:
                    w = sub(want, m_next)
                except Exception:
                    continue
                if self.compat(w, d):
                    e.loc[nm] = end(want) if self.has(want, q) else (d.with_(terms=None) if isinstance(d, Ten) and not veq(w, d) else d)
                    if isinstance(e.loc[nm], (Ten, Alt)) and self.has(e.loc[nm], q):
                        e.loc[nm] = TOP
                else:
                    e.loc[nm] = TOP
                    self.oblig(n, False)
            elif not isinstance(v, Ref):
                try:
                    e.loc[nm] = last(v)
                except Exception:
                    e.loc[nm] = v
        for c, v in s2.cells.items():
            if c in gin.cells:
                want = gin.cells[c]
                if isinstance(v, Arr1) and isinstance(want, Arr1):
                    e.cells[c] = self.end_arr(want, v, q, lo, hi, step)
                    continue
                if veq(v, want):
                    if self.has(v, q):
                        e.cells[c] = end(v)
                    continue
                if want is TOP or v is TOP:
                    e.cells[c] = TOP
                    continue
                w = sub(want, m_next)
                if self.compat(w, v):
                    e.cells[c] = end(want) if self.has(want, q) else (v.with_(terms=None) if isinstance(v, Ten) else v)
                    if self.has(e.cells[c], q):
                        e.cells[c] = TOP
                else:
                    e.cells[c] = TOP
                    self.oblig(n, False)
            elif not isinstance(v, Arr1):
                try:
                    e.cells[c] = last(v)
                except Exception:
                    pass
        for at, v in s2.attrs.items():
            if isinstance(v, Ref):
                continue
            if at in gin.attrs and not veq(v, gin.attrs[at]):
                want = gin.attrs[at]
                if want is not TOP and v is not TOP and self.compat(sub(want, m_next), v):
                    e.attrs[at] = end(want) if self.has(want, q) else (v.with_(terms=None) if isinstance(v, Ten) else v)
                else:
                    e.attrs[at] = TOP
        e.facts = {kk: x for kk, x in s2.facts.items() if gin.facts.get(kk) == x}
        return e

    def has(self, v, q):
        return q in repr_syms(v)

    def compat(self, w, d):
        if veq(w, d):
            return True
        if isinstance(w, Ten) and isinstance(d, Ten):
            return w.axes == d.axes and w.zero == d.zero and w.kind == d.kind or (w.zero and w.axes == ()) or \
                (len(w.axes) == len(d.axes) and all(x == y or isinstance(x, Unk) and isinstance(y, Unk) for x, y in zip(w.axes, d.axes)) and w.kind == d.kind)
        if isinstance(w, Alt) and isinstance(d, Alt):
            return set(x.axes for x in w.alts) == set(x.axes for x in d.alts)
        return False

    def end_arr(self, gin, v, q, lo, hi, step):
        """quantify the writes of the generic iteration over the whole range"""
        ws = []
        for w in v.writes[:len(gin.writes)]:
            if w[5] is not None and w[5][0] == q:
                continue        # 'previous iterations' records are superseded
            ws.append(w)
        a, b = (lo, hi - 1) if step == 1 else (hi + 1, lo)
        for (idx, val, wq, l, h, prev) in v.writes[len(gin.writes):]:
            if wq is None:
                if idx.linear_in(q) in (1, -1):
                    ws.append((idx, val, q, a, b, None))
                else:
                    ws.append((idx, val if not self.has(val, q) else TOP, None, None, None, None))
            else:
                ws.append((idx, val if not self.has(val, q) else TOP, wq, l, h, prev if prev and prev[0] != q else None))
        ln = v.length
        if ln is not None and q in ln.syms():
            ln = ln.subst({q: hi})
        if gin.length is not None and v.length is not None and q in gin.length.syms():
            ln = gin.length.subst({q: hi if step == 1 else hi})
        return Arr1(v.default, ws, ln, v.tag)


def repr_syms(v):
    out = set()

    def walk(x):
        if isinstance(x, Poly):
            for s in x.syms():
                walk(s)
        elif isinstance(x, str):
            out.add(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, Leg):
            walk(x.space)
        elif isinstance(x, Comp):
            for y in x.legs:
                walk(y)
        elif isinstance(x, Unk):
            if x.dim is not None:
                walk(x.dim)
        elif isinstance(x, Ten):
            for a in x.axes:
                walk(a)
            for i, l in x.free:
                walk(l)
            for mono in (x.terms or {}):
                for at in mono:
                    walk(at[0])
                    walk(at[1])
        elif isinstance(x, Alt):
            for y in x.alts:
                walk(y)
        elif isinstance(x, TupV):
            for y in x.items:
                walk(y)
        elif isinstance(x, Arr1):
            for w in x.writes:
                walk(w[0])
                walk(w[1])
    walk(v)
    return out
