"""Interpretation of whole-state operations over the gauge algebra (sa/gauge.py).

Methods are interpreted on their syntax trees for small chains and blocks: loops over
sites are unrolled, arrays are cells holding exact matrix words (or, where a kernel is
not an environment map, the kernel's name applied to the current values of its
arguments).  Nothing is executed and no numbers are involved; the final contents of the
fields say what was computed from what."""
import ast
from .repo import qualname
from .gauge import Algebra
from .rules11 import (Interp, At, Lst, Obj, ClsV, Bound, Sup, Lib, BM, Clo, Undecided, Raised, Ret, Brk, Cont, dcopy)


class Ar(At):
    """array cell: 'lc' matrix/scalar, 'items' stack over a leading index, 'kind' in mat, ten, stack, vec, scal"""
    def __init__(self, kind, lc=None, items=None, shape=None, struct="dense", extra=None):
        self.kind, self.lc, self.items, self.shape, self.struct, self.extra = kind, lc, items, shape, struct, extra

    @property
    def tag(self):
        return ("array", id(self))

    @tag.setter
    def tag(self, v):
        raise Undecided("opaque change of an array")

    def copy(self):
        return Ar(self.kind, self.lc, None if self.items is None else [x.copy() for x in self.items], self.shape, self.struct, self.extra)

    def become(self, o):
        """content of o, same cell"""
        if self.items is not None and o.items is not None and len(self.items) == len(o.items):
            for a, b in zip(self.items, [x.copy() for x in o.items]):
                a.become(b)
        else:
            self.items = None if o.items is None else [x.copy() for x in o.items]
        self.kind, self.lc, self.extra = o.kind, o.lc, o.extra
        if o.shape is not None:
            self.shape = o.shape

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.shape)


# package functions that are interpreted; all other module functions are opaque kernels
OPEN = {"restore_RCF_r_seq", "restore_RCF_l_seq", "restore_LCF_l_seq", "restore_LCF_r_seq", "restore_RCF_r", "restore_RCF_l", "restore_LCF_l",
        "restore_LCF_r", "correct_bond_dim_open_chain", "mps_from_tensors_gen", "sandwich_from_mpss"}
# same meaning, different implementation
ALIAS = {"calc_C_mat_op_AA_tensordot": "calc_C_mat_op_AA", "calc_C_3s_mat_op_AAA_tensordot": "calc_C_3s_mat_op_AAA",
         "calc_C_conj_mat_op_AA_tensordot": "calc_C_conj_mat_op_AA"}
DIAGNOSTIC = {"sanity_checks", "sc_data", "zero_tol", "tol", "sv_tol"}
REALS = {"norm", "trace_real"}


class GI(Interp):
    def __init__(self, prog, decisions=()):
        Interp.__init__(self, prog, {}, decisions)
        self.G = Algebra()
        self.G.refresh = self.refresh
        self.fresh = 0
        self.trace = []
        self.calls = []
        self.intercept = {}
        self.nest = False
        self.limit = 60000

    # ---------------------------------------------------------------- values
    def mat(self, name, shape=None, **kw):
        s = self.G.sym(name, shape, **kw)
        return Ar("mat", self.G.lc([(s, 0, 0, 1)]), shape=shape)

    def scal(self, lc):
        return Ar("scal", lc, shape=())

    def eye(self, d):
        return Ar("mat", self.G.one(), shape=(d, d), struct="eye")

    def zeros(self, shape):
        shape = tuple(shape)
        if len(shape) == 2:
            return Ar("mat", {}, shape=shape)
        if len(shape) == 3 and isinstance(shape[0], int):
            return Ar("ten", items=[Ar("mat", {}, shape=shape[1:]) for _ in range(shape[0])], shape=shape)
        if len(shape) == 1 and isinstance(shape[0], int) and shape[0] <= 40:
            return Lst([Ar("scal", {}, shape=()) for _ in range(shape[0])], "arr")
        return self.F("zeros", [tuple(shape)], shape=shape)

    def site(self, name, shape):
        """an independent site tensor"""
        b = self.base(("site",) + name, shape)
        return self.from_base(b, shape)

    def base(self, name, shape):
        return self.G.sym(("site",) + name if name[0] != "site" else name, tuple(shape[1:]))

    def from_base(self, b, shape):
        its = []
        for s in range(shape[0]):
            x = self.G.sym(("slice", b.id, s), tuple(shape[1:]), data=(b, s))
            its.append(Ar("mat", self.slice_lc(b, s, shape), shape=tuple(shape[1:])))
        return Ar("ten", items=its, shape=tuple(shape))

    def slice_lc(self, b, s, shape):
        # slices are never reduced to commuting scalars
        x = self.G.sym(("slice", b.id, s), ("slice",) + tuple(shape[1:]), data=(b, s))
        return {((), ((x, 0, 0, 1),)): 1.0 + 0j}

    def lit(self, v):
        if isinstance(v, bool):
            v = int(v)
        return self.G.one(v) if v else {}

    def asar(self, v):
        if isinstance(v, Ar):
            return v
        if isinstance(v, (int, float, complex)):
            return self.scal(self.lit(v))
        if isinstance(v, At):
            return self.F("value", [repr(v.tag)], shape=v.shape)
        if isinstance(v, Lst) and all(isinstance(x, Ar) and x.kind == "mat" for x in v.items) and v.items:
            return Ar("ten", items=v.items, shape=None if v.items[0].shape is None else (len(v.items),) + tuple(v.items[0].shape))
        return None

    # ---------------------------------------------------------------- keys
    def snap(self, v):
        """immutable description of a value"""
        if isinstance(v, Ar):
            if v.items is not None:
                return ("t", v.kind, tuple(self.snap(x) for x in v.items))
            return ("m", self.freeze(v.lc))
        if isinstance(v, Lst):
            return ("l", tuple(self.snap(x) for x in v.items))
        if isinstance(v, (tuple, list)):
            return ("l", tuple(self.snap(x) for x in v))
        if isinstance(v, At):
            return ("at", repr(v.tag))
        if isinstance(v, Lib):
            return ("lib", v.l)
        if isinstance(v, Obj):
            return ("obj", v.role)
        if isinstance(v, dict):
            return ("d", tuple(sorted((k, self.snap(x)) for k, x in v.items())))
        if isinstance(v, (bool, int, float, complex, str)) or v is None:
            return ("c", v)
        return ("x", type(v).__name__, getattr(v, "name", getattr(getattr(v, "fn", None), "name", "")))

    def freeze(self, lc):
        return tuple(sorted(lc.items(), key=lambda kv: self.G.key({kv[0]: kv[1]})))

    def nsnap(self, s):
        if s[0] == "m":
            lc = dict(s[1])
            n = self.G.norm(lc)
            return ("m", self.freeze(n))
        if s[0] == "t":
            return ("t", s[1], tuple(self.nsnap(x) for x in s[2]))
        if s[0] == "l":
            return ("l", tuple(self.nsnap(x) for x in s[1]))
        if s[0] == "d":
            return ("d", tuple((k, self.nsnap(x)) for k, x in s[1]))
        return s

    def skey(self, s):
        if s[0] == "m":
            return ("m", self.G.key(dict(s[1])))
        if s[0] == "t":
            return ("t", s[1], tuple(self.skey(x) for x in s[2]))
        if s[0] == "l":
            return ("l", tuple(self.skey(x) for x in s[1]))
        if s[0] == "d":
            return ("d", tuple((k, self.skey(x)) for k, x in s[1]))
        return s

    def refresh(self, s):
        name, args, extra = s.data
        n = tuple(self.nsnap(a) for a in args)
        k = (("F", name) + tuple(self.skey(a) for a in n)) + extra
        if k == s.name:
            return None
        t = self.G.sym(k, s.shape, herm=s.herm, data=(name, n, extra))
        return self.G.lc([(t, 0, 0, 1)])

    def key(self, v):
        return self.skey(self.nsnap(self.snap(v)))

    def F(self, name, args, shape=None, herm=False, extra=(), kind=None):
        sn = tuple(self.snap(a) for a in args)
        k = (("F", name) + tuple(self.skey(a) for a in sn)) + tuple(extra)
        s = self.G.sym(k, shape if shape is None or len(shape) == 2 and all(isinstance(x, int) for x in shape) else ("arr",) + tuple(shape), herm=herm, data=(name, sn, tuple(extra)))
        if shape == ():
            s.shape = (1, 1)
        return Ar(kind or ("scal" if shape == () else "mat"), self.G.lc([(s, 0, 0, 1)]), shape=shape, extra=s)

    def opaque_of(self, v):
        """(name, args snapshot) when the value is exactly one kernel result"""
        if isinstance(v, Ar) and v.items is None and len(v.lc) == 1:
            (m, w), c = next(iter(v.lc.items()))
            fs = [x[3] for x in m] + [f[0] for f in w]
            if len(fs) == 1 and fs[0].name[0] == "F" and abs(c - 1) < 1e-12:
                return fs[0]
        return None

    # ---------------------------------------------------------------- site tensors
    def decomp(self, t):
        """(factor, P, base, Q) of a site tensor"""
        t = self.asar(t)
        if t is None:
            raise Undecided("tensor")
        if t.items is None:
            f, (x,) = self.common([self.G.norm(t.lc)]) if t.lc is not None else (None, (None,))
            if f:
                t = Ar(t.kind, x, shape=t.shape, struct=t.struct)
            b = self.G.sym(("site", "val", self.skey(self.snap(t))), tuple(t.shape[1:]) if t.shape else None, data=self.snap(t))
            return f or self.G.one(), self.G.one(), b, self.G.one()
        pats = []
        for s, x in enumerate(t.items):
            one = self.G.single(self.G.norm(x.lc))
            if one is None:
                pats = None
                break
            c, m, w = one
            hits = [i for i, f in enumerate(w) if f[0].name[0] == "slice"]
            if len(hits) != 1:
                pats = None
                break
            i = hits[0]
            f = w[i]
            if f[3] != 1 or (f[1], f[2]) != (0, 0) or f[0].data[1] != s:
                pats = None
                break
            pats.append((c, self.G.mkey(m), f[0].data[0], w[:i], w[i + 1:]))
        if pats and all(self.peq(p, pats[0]) for p in pats):
            c, m, b, P, Q = pats[0]
            return {(m, ()): c}, self.G.lc(P), b, self.G.lc(Q)
        f = None
        if all(x.lc is not None for x in t.items):
            f, xs = self.common([self.G.norm(x.lc) for x in t.items])
            if f:
                t = Ar("ten", items=[Ar("mat", x, shape=y.shape) for x, y in zip(xs, t.items)], shape=t.shape)
            P, Q, xs = self.ends([self.G.norm(x.lc) for x in t.items])
            if P or Q:
                t = Ar("ten", items=[Ar("mat", x, shape=y.shape) for x, y in zip(xs, t.items)], shape=t.shape)
                b = self.G.sym(("site", "val", self.skey(self.nsnap(self.snap(t)))), tuple(t.shape[1:]) if t.shape else None, data=self.snap(t))
                return f or self.G.one(), self.G.lc(P), b, self.G.lc(Q)
        b = self.G.sym(("site", "val", self.skey(self.nsnap(self.snap(t)))), tuple(t.shape[1:]) if t.shape else None, data=self.snap(t))
        return f or self.G.one(), self.G.one(), b, self.G.one()

    def common(self, lcs):
        """(common scalar factor or None, the rest) of linear combinations"""
        fs = None
        for x in lcs:
            for m, w in x:
                d = {(s.id, c): (e, s) for i, c, e, s in m}
                fs = d if fs is None else {k: v for k, v in fs.items() if k in d and abs(d[k][0] - v[0]) < 1e-12}
        if not fs:
            return None, lcs
        f = self.G.lc((), 1.0, {(s, k[1]): e for k, (e, s) in fs.items()})
        inv = self.G.power(f, -1)
        return f, [self.G.mul(inv, x) for x in lcs]

    def ends(self, lcs):
        """(common left word, common right word, the rest) of linear combinations of words around site matrices"""
        words = [w for x in lcs for m, w in x]
        pre = suf = None
        fk = lambda f: (f[0].id,) + tuple(f[1:])
        for w in words:
            hits = [i for i, f in enumerate(w) if f[0].name[0] == "slice"]
            if not hits:
                return (), (), lcs
            a, z = list(w[:hits[0]]), list(w[hits[-1] + 1:])
            if pre is None:
                pre, suf = a, z
                continue
            i = 0
            while i < len(pre) and i < len(a) and fk(pre[i]) == fk(a[i]):
                i += 1
            j = 0
            while j < len(suf) and j < len(z) and fk(suf[-1 - j]) == fk(z[-1 - j]):
                j += 1
            pre, suf = pre[:i], suf[len(suf) - j:]
        if not pre and not suf:
            return (), (), lcs
        return tuple(pre), tuple(suf), [{(m, w[len(pre):len(w) - len(suf)]): c for (m, w), c in x.items()} for x in lcs]

    def peq(self, p, q):
        return abs(p[0] - q[0]) < 1e-9 and [x[:3] for x in p[1]] == [x[:3] for x in q[1]] and p[2] is q[2] and \
            [(f[0].id,) + f[1:] for f in p[3]] == [(f[0].id,) + f[1:] for f in q[3]] and [(f[0].id,) + f[1:] for f in p[4]] == [(f[0].id,) + f[1:] for f in q[4]]

    def env(self, d, x, A1, A2):
        a1, a2 = self.asar(A1), self.asar(A2)
        t1 = self.decomp(a1)
        t2 = t1 if A1 is A2 else self.decomp(a2)
        xv = self.asar(x)
        if xv is None or xv.lc is None:
            raise Undecided("environment argument")
        lc = self.G.env_factored(d, xv.lc, t1, t2)
        sh = None
        if a1.shape and a2.shape and len(a1.shape) == 3 and len(a2.shape) == 3:
            sh = (a1.shape[2], a2.shape[2]) if d == "El" else (a1.shape[1], a2.shape[1])
            if xv.shape is not None and len(xv.shape) == 2:
                want = (a1.shape[1], a2.shape[1]) if d == "El" else (a1.shape[2], a2.shape[2])
                if tuple(xv.shape) != want and all(isinstance(y, int) for y in tuple(xv.shape) + want):
                    raise Raised("ValueError: shapes %s and %s do not fit in %s" % (xv.shape, want, d), None)
            if a1.shape[0] != a2.shape[0]:
                raise Raised("ValueError: physical dimensions differ", None)
        return Ar("mat", lc, shape=sh)

    # ---------------------------------------------------------------- truth and control
    def truth(self, v, node):
        if isinstance(v, Ar):
            if v.kind == "scal" and not v.lc:
                return False
            if v.shape is not None and len(v.shape) > 0 and not all(x == 1 for x in v.shape):
                raise Raised("ValueError: truth value of an array", node)
            return self.fork(ast.unparse(node))
        if isinstance(v, (float, complex)):
            return bool(v)
        if isinstance(v, (Bound, Clo, Lib, ast.AST)):
            return True
        return Interp.truth(self, v, node)

    def stmt(self, s, env, m):
        if self.steps > self.limit:
            raise Undecided("budget")
        if self.steps > 19000:
            self.steps_hi = getattr(self, "steps_hi", 0) + self.steps
            self.steps = 0
            if self.steps_hi > 400000:
                raise Undecided("budget")
        if isinstance(s, ast.AugAssign):
            import copy
            t = copy.copy(s.target)
            t.ctx = ast.Load()
            cur = self.ev(t, env, m)
            v = self.ev(s.value, env, m)
            if isinstance(t, ast.Attribute) and t.attr in ("real", "imag"):
                o = self.ev(t.value, env, m)
                if isinstance(o, Ar):
                    # a view of the array: the array itself changes
                    self.clobber(o, ("set_" + t.attr, self.bin(s.op, cur, v)))
                    return
            if isinstance(t, ast.Subscript) and isinstance(cur, Ar) and cur.kind != "scal":
                o = self.ev(t.value, env, m)
                if isinstance(o, Ar) and not self.inside(cur, o):
                    # part of an array: written back
                    self.assign(s.target, self.bin(s.op, cur, v), env, m)
                    return
            if isinstance(cur, Ar) and cur.kind != "scal":
                r = self.bin(s.op, cur, v)
                sh = cur.shape
                cur.become(r)
                if sh is not None:
                    cur.shape = sh
                return
            if isinstance(cur, Lst) and cur.kind == "list" and isinstance(s.op, ast.Add) and isinstance(v, (Lst, list, tuple)):
                cur.items.extend(self.iter(v))
                return
            if isinstance(cur, Lst) and cur.kind != "list":
                r = self.bin(s.op, cur, v)
                if isinstance(r, Lst):
                    cur.items[:] = r.items
                    return
            self.assign(s.target, self.bin(s.op, cur, v), env, m)
            return
        return Interp.stmt(self, s, env, m)

    def inside(self, x, o):
        return x is o or any(self.inside(x, y) for y in o.items or () if isinstance(y, Ar))

    def iter(self, it):
        if isinstance(it, Ar) and it.items is not None:
            return list(it.items)
        if isinstance(it, Ar) and it.shape and isinstance(it.shape[0], int) and it.shape[0] <= 64:
            return [self.item(it, k, None) for k in range(it.shape[0])]
        if isinstance(it, (map, zip, enumerate, set, frozenset)):
            return list(it)
        return Interp.iter(self, it)

    def assign(self, t, v, env, m):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Ar):
            if v.items is not None:
                vs = v.items
                if len(vs) != len(t.elts):
                    raise Raised("ValueError", t)
            elif v.extra is not None and v.extra.name[0] == "F":
                vs = [self.part(v, k, len(t.elts)) for k in range(len(t.elts))]
            else:
                raise Undecided("unpacking")
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env, m)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            if isinstance(o, Ar):
                if t.attr == "shape":
                    o.shape = v if isinstance(v, tuple) else None
                    return
                if t.attr in ("real", "imag"):
                    self.clobber(o, ("set_" + t.attr, v))
                    return
                raise Undecided("attribute of an array")
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            if isinstance(o, Ar):
                self.store(o, t, v, env, m)
                return
            if isinstance(o, Lst) and not isinstance(t.slice, ast.Slice) and o.kind == "arr":
                k = self.ev(t.slice, env, m)
                if isinstance(k, int):
                    if not -len(o.items) <= k < len(o.items):
                        raise Raised("IndexError", t)
                    self.note_store(o, k, v)
                    o.items[k] = v
                    return
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.AST):
            o = self.ev(t.value, env, m)
            if isinstance(o, Lst) and not isinstance(t.slice, ast.Slice):
                k = self.ev(t.slice, env, m)
                self.note_store(o, k, v)
        return Interp.assign(self, t, v, env, m)

    def note_store(self, o, k, v):
        pass

    def clobber(self, o, why):
        r = self.F("changed", [o.copy(), repr(why[0])] + [self.val(x) for x in why[1:]], shape=o.shape)
        if o.items is not None:
            for s, x in enumerate(o.items):
                x.become(self.part(r, s, len(o.items), shape=x.shape))
            return
        o.become(r)

    def val(self, v):
        return v

    def store(self, o, t, v, env, m):
        sl = t.slice
        ix = self.index(sl, env, m)
        full = self.is_full(o, ix)
        if full:
            v2 = self.asar(v)
            if v2 is None and isinstance(v, Lst):
                v2 = self.F("array", [v], shape=o.shape)
            if v2 is None:
                raise Undecided("store")
            if v2.kind == "scal" and o.kind != "scal":
                x = self.F("filled", [v2], shape=o.shape) if v2.lc else None
                if x is None:
                    for y in (o.items or [o]):
                        y.lc = {}
                    return
                o.become(x)
                return
            if o.shape and v2.shape and len(o.shape) == len(v2.shape) and o.shape != v2.shape and all(isinstance(x, int) for x in o.shape + tuple(v2.shape)):
                if not all(a == b or b == 1 for a, b in zip(o.shape, v2.shape)):
                    raise Raised("ValueError: could not broadcast %s into %s" % (v2.shape, o.shape), t)
            sh = o.shape
            o.become(v2)
            if sh is not None:
                o.shape = sh
            return
        if o.items is not None and isinstance(ix, tuple) and isinstance(ix[0], int):
            k = ix[0]
            if not -len(o.items) <= k < len(o.items):
                raise Raised("IndexError", t)
            if len(ix) == 1:
                v2 = self.asar(v)
                if v2 is None:
                    raise Undecided("store")
                if v2.kind == "scal" and o.items[k].kind == "mat" and v2.lc:
                    v2 = self.F("filled", [v2], shape=o.items[k].shape)
                x = o.items[k]
                if x.shape and v2.shape and len(v2.shape) == 2 and tuple(x.shape) != tuple(v2.shape) and all(isinstance(y, int) for y in tuple(x.shape) + tuple(v2.shape)):
                    raise Raised("ValueError: could not broadcast %s into %s" % (v2.shape, x.shape), t)
                sh = x.shape
                x.become(v2)
                x.shape = sh or v2.shape
                return
            self.store_part(o.items[k], ix[1:], v)
            return
        if isinstance(ix, tuple) and o.shape and len(ix) == len(o.shape) and all(x == 1 for x in o.shape) and all(i in (0, -1) for i in ix if isinstance(i, int)) and all(isinstance(i, int) for i in ix):
            v2 = self.asar(v)
            o.lc = v2.lc
            return
        self.store_part(o, ix, v)

    def store_part(self, o, ix, v):
        sh = o.shape
        if self.nest and o.items is not None and ix and all(isinstance(i, int) for i in ix):
            if not -len(o.items) <= ix[0] < len(o.items):
                raise Raised("IndexError", None)
            x = o.items[ix[0]]
            if len(ix) > 1:
                return self.store_part(x, tuple(ix[1:]), v)
            v2 = self.asar(v)
            if v2 is None or x.items is not None:
                raise Undecided("store")
            if v2.shape and x.shape and len(v2.shape) == 2 and tuple(v2.shape) != tuple(x.shape):
                raise Raised("ValueError: could not broadcast %s into %s" % (v2.shape, x.shape), None)
            sh = x.shape
            x.become(v2)
            x.shape = sh
            return
        if o.items is not None and ix and isinstance(ix[0], tuple) and ix[0] == ("slice", None, None, None) and len(ix) > 1:
            vv = self.asar(v)
            for k, x in enumerate(o.items):
                w = vv.items[k] if vv is not None and vv.items is not None and len(vv.items) == len(o.items) else (vv if vv is not None and vv.kind == "scal" else self.item(vv, k, None) if vv is not None else v)
                if self.is_full(x, tuple(ix[1:])):
                    x.become(w.copy() if isinstance(w, Ar) else self.asar(w))
                else:
                    self.store_part(x, tuple(ix[1:]), w)
            return
        if o.shape == (1, 1) and all(i == 0 for i in ix):
            o.lc = self.asar(v).lc
            return
        self.bounds(o, ix)
        if self.nest and o.items is None and o.shape and len(o.shape) > 2 and len(ix) == len(o.shape) - 2 and all(isinstance(i, int) for i in tuple(ix) + tuple(o.shape)):
            o.items = self.entries_of(o.copy(), (), o.shape)
            o.lc, o.kind = None, "ten"
            x = o
            for i in ix[:-1]:
                x = x.items[i]
            y, v2 = x.items[ix[-1]], self.asar(v)
            if v2 is None or v2.lc is None:
                raise Undecided("store")
            sh2 = y.shape
            if v2.shape and len(v2.shape) == 2 and tuple(v2.shape) != tuple(sh2):
                raise Raised("ValueError: could not broadcast %s into %s" % (v2.shape, sh2), None)
            y.become(v2)
            y.shape = sh2
            return
        want, have = self.part_shape(o.shape, ix), v.shape if isinstance(v, Ar) else None
        if want and have and all(isinstance(x, int) for x in tuple(want) + tuple(have)):
            a, b = tuple(have)[::-1], tuple(want)[::-1]
            if not all(x in (1, y) for x, y in zip(a, b)) or len(a) > len(b) and any(x != 1 for x in a[len(b):]):
                raise Raised("ValueError: could not broadcast %s into %s" % (tuple(have), tuple(want)), None)
        r = self.F("stored", [o.copy(), ix, v], shape=o.shape)
        o.become(r)
        o.shape = sh

    def entries_of(self, o, pre, sh):
        """the matrices a higher-dimensional array consists of"""
        out = []
        for i in range(sh[0]):
            if len(sh) == 3:
                out.append(self.pick(o, pre + (i,), None).copy())
            else:
                out.append(Ar("ten", items=self.entries_of(o, pre + (i,), sh[1:]), shape=tuple(sh[1:])))
        return out

    def bounds(self, o, ix):
        if o.shape and all(isinstance(x, int) for x in o.shape):
            for i, d in zip(ix if isinstance(ix, tuple) else (ix,), o.shape):
                if isinstance(i, int) and not -d <= i < d:
                    raise Raised("IndexError", None)

    def index(self, sl, env, m):
        def one(x):
            if isinstance(x, ast.Slice):
                return ("slice",) + tuple(None if y is None else self.ev(y, env, m) for y in (x.lower, x.upper, x.step))
            return self.ev(x, env, m)
        if isinstance(sl, ast.Tuple):
            return tuple(one(x) for x in sl.elts)
        v = one(sl)
        if isinstance(v, tuple) and not (v and v[0] == "slice"):
            return v
        return (v,)

    def is_full(self, o, ix):
        ix = [i for i in ix if i is not Ellipsis]
        for k, i in enumerate(ix):
            if not (isinstance(i, tuple) and i and i[0] == "slice"):
                return False
            lo, hi, st = i[1:]
            if lo is hi is st is None:
                continue
            d = o.shape[k] if o.shape and k < len(o.shape) else None
            if not isinstance(d, int) or not all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return False
            if slice(lo, hi, st).indices(d) != (0, d, 1):
                return False
        return True

    # ---------------------------------------------------------------- expressions
    def ev(self, n, env, m):
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value, env, m)
            if isinstance(o, Ar):
                return self.pick(o, self.index(n.slice, env, m), n)
            if isinstance(o, Lst) and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
                k = self.ev(n.slice, env, m)
                if isinstance(k, Ar) and k.kind == "scal":
                    raise Undecided("index by an opaque value")
                return self.item(o, k, n)
            if isinstance(o, (dict, tuple, str)) and not isinstance(n.slice, ast.Slice):
                return self.item(o, self.ev(n.slice, env, m), n)
            if isinstance(o, Lst) and isinstance(n.slice, ast.Slice):
                lo, hi, st = [None if x is None else self.ev(x, env, m) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    if o.kind != "list" and st in (None, 1):
                        return Win(o, *slice(lo, hi).indices(len(o.items))[:2])
                    return Lst(o.items[lo:hi:st], o.kind)
                raise Undecided("slice")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            v = self.ev(n.operand, env, m)
            if isinstance(v, Ar):
                return self.scale(v, self.G.one(-1 if isinstance(n.op, ast.USub) else 1))
            if isinstance(v, complex):
                return -v if isinstance(n.op, ast.USub) else v
        if isinstance(n, (ast.SetComp, ast.DictComp)):
            raise Undecided("comprehension")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            return self.cmp(n.ops[0], self.ev(n.left, env, m), self.ev(n.comparators[0], env, m), n)
        return Interp.ev(self, n, env, m)

    def item(self, o, k, n):
        if isinstance(o, Ar):
            return self.pick(o, k if isinstance(k, tuple) else (k,), n)
        if isinstance(o, Lst) and isinstance(k, Lst):
            raise Undecided("mask")
        if isinstance(o, Lst) and isinstance(k, tuple) and k and isinstance(k[0], int):
            x = self.item(o, k[0], n)
            return self.item(x, k[1:] if len(k) > 2 else k[1], n) if len(k) > 1 else x
        return Interp.item(self, o, k, n)

    def pick(self, o, ix, n):
        if self.is_full(o, ix):
            return o
        if getattr(o, "column", None) is not None and len(ix) == 2 and ix[0] == ("slice", None, None, None) and ix[1] in (0, -1):
            return o.column
        if o.items is not None and isinstance(ix[0], int):
            k = ix[0]
            if not -len(o.items) <= k < len(o.items):
                raise Raised("IndexError", n)
            return o.items[k] if len(ix) == 1 else self.pick(o.items[k], ix[1:], n)
        self.bounds(o, ix)
        if all(isinstance(i, int) for i in ix) and o.shape is not None and len(o.shape) == len(ix) and all(x == 1 for x in o.shape) and o.items is None:
            return self.scal(o.lc)
        if o.items is not None and isinstance(ix[0], tuple) and ix[0] == ("slice", None, None, None) and len(ix) > 1:
            its = [self.pick(x, ix[1:], n) for x in o.items]
            sh = None
            if its and isinstance(its[0], Ar) and its[0].shape is not None:
                sh = (len(its),) + tuple(its[0].shape)
            return Ar("ten", items=its, shape=sh)
        if o.kind == "mat" and not o.lc:
            sh0 = self.part_shape(o.shape, ix)
            return self.zeros(sh0) if sh0 else self.scal({})
        sh = self.part_shape(o.shape, ix)
        r = self.F("part", [o, ix], shape=sh)
        return r

    def part_shape(self, sh, ix):
        if sh is None or not all(isinstance(x, int) for x in sh):
            return None
        out = []
        sh = list(sh)
        ix = list(ix)
        if Ellipsis in ix:
            return None
        for i in ix:
            if i is None:
                out.append(1)
                continue
            if not sh:
                return None
            d = sh.pop(0)
            if isinstance(i, int):
                continue
            if isinstance(i, tuple) and i and i[0] == "slice":
                if not all(x is None or isinstance(x, int) for x in i[1:]):
                    return None
                out.append(len(range(*slice(*i[1:]).indices(d))))
                continue
            return None
        return tuple(out + sh)

    def part(self, v, k, n, shape=None):
        s = v.extra
        r = self.F(s.name[1], [], shape=shape)
        # a component of a kernel result
        name, args, extra = s.data
        ex = tuple(extra) + (("part", k),)
        key = (("F", name) + tuple(self.skey(a) for a in args)) + ex
        sh = shape
        t = self.G.sym(key, sh if sh is None or len(sh) == 2 else ("arr",) + tuple(sh), data=(name, args, ex))
        return Ar("mat", self.G.lc([(t, 0, 0, 1)]), shape=sh, extra=t)

    def scale(self, v, lc):
        if v.items is not None:
            return Ar(v.kind, items=[self.scale(x, lc) for x in v.items], shape=v.shape, extra=v.extra)
        return Ar(v.kind, self.G.mul(v.lc, lc), shape=v.shape, struct="diag" if v.struct in ("eye", "diag") else "dense")

    def bin(self, op, l, r):
        if isinstance(l, (int, float, complex)) and isinstance(r, (int, float, complex)):
            try:
                return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.FloorDiv: lambda: l // r,
                        ast.Mod: lambda: l % r, ast.Pow: lambda: l ** r, ast.Div: lambda: l / r}[type(op)]()
            except (KeyError, ZeroDivisionError, TypeError):
                raise Undecided("arithmetic")
        if isinstance(l, Lst) and l.kind == "arr" or isinstance(r, Lst) and r.kind == "arr":
            if isinstance(l, Lst) and isinstance(r, Lst):
                if len(l.items) != len(r.items):
                    raise Raised("ValueError", None)
                return Lst([self.bin(op, a, b) for a, b in zip(l.items, r.items)], "arr")
            if isinstance(l, Lst):
                return Lst([self.bin(op, a, r) for a in l.items], "arr")
            return Lst([self.bin(op, l, b) for b in r.items], "arr")
        if isinstance(l, Ar) or isinstance(r, Ar):
            if l is None or r is None:
                raise Raised("TypeError: arithmetic with None", None)
            a, b = self.asar(l), self.asar(r)
            if a is None or b is None:
                return self.F("op " + type(op).__name__, [l, r])
            if isinstance(op, (ast.Add, ast.Sub)):
                f = 1 if isinstance(op, ast.Add) else -1
                if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                    return Ar(a.kind, items=[self.bin(op, x, y) for x, y in zip(a.items, b.items)], shape=a.shape)
                if a.items is None and b.items is None:
                    if (a.kind == "scal") == (b.kind == "scal"):
                        if a.kind == "mat" and a.shape and b.shape and len(a.shape) == len(b.shape) == 2 and tuple(a.shape) != tuple(b.shape):
                            raise Raised("ValueError: shapes %s and %s are added" % (a.shape, b.shape), None)
                        return Ar(a.kind, self.G.add(a.lc, b.lc, f), shape=a.shape or b.shape)
                    if b.kind == "scal" and not b.lc:
                        return a.copy()
                    if a.kind == "scal" and not a.lc:
                        return self.scale(b, self.G.one(f))
                if a.items is not None and b.items is None and b.extra is not None and b.extra.name[0] == "F" and b.kind != "scal":
                    return Ar(a.kind, items=[self.bin(op, x, self.item(b, k, None)) for k, x in enumerate(a.items)], shape=a.shape)
                if b.items is not None and a.items is None and a.extra is not None and a.extra.name[0] == "F" and a.kind != "scal":
                    return Ar(b.kind, items=[self.bin(op, self.item(a, k, None), x) for k, x in enumerate(b.items)], shape=b.shape)
                return self.F("op " + type(op).__name__, [a, b], shape=a.shape or b.shape)
            if isinstance(op, ast.Mult):
                if a.kind == "scal":
                    return self.scale(b, a.lc) if b.kind != "scal" else self.scal(self.G.mul(a.lc, b.lc))
                if b.kind == "scal":
                    return self.scale(a, b.lc)
            if isinstance(op, ast.Div):
                if b.kind == "scal":
                    p = self.G.power(self.G.norm(b.lc), -1) if b.lc else None
                    if p is None:
                        p = self.F("inverse", [b], shape=()).lc
                    return self.scale(a, p) if a.kind != "scal" else self.scal(self.G.mul(a.lc, p))
                if a.kind == "scal" and b.kind == "diag":
                    p = self.G.power(b.lc, -1)
                    if p is not None:
                        return Ar("diag", self.G.mul(a.lc, p), shape=b.shape, struct="diag")
            if isinstance(op, ast.Pow) and a.kind == "scal" and isinstance(r, (int, float)):
                if r == 2 or r == 3:
                    x = a.lc
                    for _ in range(int(r) - 1):
                        x = self.G.mul(x, a.lc)
                    return self.scal(x)
                p = self.G.power(a.lc, r)
                if p is not None:
                    return self.scal(p)
            if isinstance(op, ast.MatMult):
                return self.dot(a, b)
            sh = a.shape if b.kind == "scal" else b.shape if a.kind == "scal" else (a.shape if a.shape == b.shape else None)
            return self.F("op " + type(op).__name__, [a, b], shape=sh)
        return Interp.bin(self, op, l, r)

    def cmp(self, op, l, r, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            v = l is r or isinstance(l, (bool, str)) and l == r
            return v if isinstance(op, ast.Is) else not v
        if isinstance(l, Lst) and l.kind == "arr" or isinstance(r, Lst) and r.kind == "arr":
            ls = l.items if isinstance(l, Lst) else None
            rs = r.items if isinstance(r, Lst) else None
            k = len(ls if ls is not None else rs)
            out = []
            for i in range(k):
                out.append(self.cmp(op, ls[i] if ls is not None else l, rs[i] if rs is not None else r, n))
            return Bools(out)
        if isinstance(l, (int, float)) and isinstance(r, (int, float)) and not (isinstance(l, complex) or isinstance(r, complex)) and \
                isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r, ast.Eq: l == r, ast.NotEq: l != r}[type(op)]
        if isinstance(l, Ar) or isinstance(r, Ar):
            if l is None or r is None:
                return isinstance(op, ast.NotEq)
            if isinstance(op, (ast.Eq, ast.NotEq)) and (isinstance(l, str) or isinstance(r, str)):
                return isinstance(op, ast.NotEq)
            a = l if isinstance(l, Ar) else r
            if a.kind == "diag" or a.shape is not None and len(a.shape) > 0:
                nm = type(op).__name__
                if a is not l:
                    nm = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(nm, nm)
                return Mask(a, nm, r if a is l else l)
            return self.fork(ast.unparse(n) if n is not None else "comparison")
        return Interp.cmp(self, op, l, r, n)

    def fork(self, why):
        self.trace.append(why)
        return Interp.fork(self, why)

    # ---------------------------------------------------------------- linear algebra
    def dot(self, a, b):
        a0, b0 = a, b
        a, b = self.asar(a), self.asar(b)
        if a is None or b is None:
            if a0 is None or b0 is None:
                raise Raised("AttributeError: product with None", None)
            return self.F("dot", [a0, b0])
        if a.kind == "scal" or b.kind == "scal":
            return self.bin(ast.Mult(), a, b)
        if a.items is None and b.items is None and a.kind in ("mat", "diag") and b.kind in ("mat", "diag"):
            if a.shape and b.shape and len(a.shape) == 2 and len(b.shape) == 2:
                if isinstance(a.shape[1], int) and isinstance(b.shape[0], int) and a.shape[1] != b.shape[0]:
                    raise Raised("ValueError: shapes %s and %s not aligned" % (a.shape, b.shape), None)
            if (a.shape is None or len(a.shape) == 2) and (b.shape is None or len(b.shape) == 2):
                sh = (a.shape[0], b.shape[1]) if a.shape and b.shape else None
                st = "diag" if a.struct in ("eye", "diag") and b.struct in ("eye", "diag") else "dense"
                if a.struct == b.struct == "eye":
                    st = "eye"
                return Ar("mat", self.G.mul(a.lc, b.lc), shape=sh, struct=st)
        return self.F("dot", [a, b])

    def mapped(self, v, conj, trans):
        if v.items is not None:
            if trans:
                return self.F("transpose", [v])
            return Ar(v.kind, items=[self.mapped(x, conj, 0) for x in v.items], shape=v.shape, extra=v.extra)
        if v.kind == "scal":
            return self.scal(self.G.mapped(v.lc, conj, 0))
        if v.shape is not None and len(v.shape) != 2 and trans:
            return self.F("transpose", [v], shape=v.shape[::-1])
        sh = v.shape[::-1] if v.shape is not None and trans else v.shape
        return Ar(v.kind, self.G.mapped(v.lc, conj, trans), shape=sh, struct=v.struct)

    def newsym(self, name, args, k, shape, **kw):
        key = ("fac", name, k) + tuple(self.skey(self.nsnap(self.snap(a))) for a in args)
        return self.G.sym(key, shape, **kw)

    def m(self, s, e=1):
        return Ar("mat", self.G.lc([(s, 0, 0, e)]), shape=s.shape, struct="diag" if s.diag else "dense")

    def herm_fac(self, A, lower, calc_inv, return_rank):
        A = self.asar(A)
        if A is None or A.items is not None:
            raise Undecided("factorisation")
        d = A.shape[0] if A.shape else None
        X = self.newsym("herm_fac", [A, bool(lower)], 0, A.shape)
        x = self.m(X)
        x.shape = A.shape
        v = self.G.mul(x.lc, self.G.dag(x.lc)) if lower else self.G.mul(self.G.dag(x.lc), x.lc)
        n = self.G.norm(A.lc)
        t = self.G.single(n)
        if t is not None and not t[2] and not (A.shape == (1, 1)):
            # multiple of the identity
            x = Ar("mat", self.G.power(n, 0.5), shape=A.shape)
        else:
            self.G.solve_rule(A.lc, v)
        xi = Ar("mat", self.G.power(x.lc, -1), shape=A.shape)
        out = [x]
        if calc_inv:
            out.append(xi)
        if return_rank:
            out.append(d)
        return tuple(out) if len(out) > 1 else out[0]

    def eigh(self, M):
        M = self.asar(M)
        if M is None or M.items is not None:
            raise Undecided("eigendecomposition")
        n = self.G.norm(M.lc)
        t = self.G.single(n)
        d = M.shape
        E = self.newsym("eigh", [M], 0, d, unit=True)
        ev = self.newsym("eigh", [M], 1, d, diag=True)
        EV = self.m(E)
        EV.shape = d
        if t is not None and not t[2]:
            evl = n
        else:
            evl = self.G.lc([(ev, 0, 0, 1)])
            self.G.solve_rule(M.lc, self.G.mul(self.G.mul(EV.lc, evl), self.G.dag(EV.lc)))
        return (Ar("diag", evl, shape=(d[0],) if d else None, struct="diag"), EV)

    def svd(self, M):
        M = self.asar(M)
        if M is None or M.items is not None:
            raise Undecided("svd")
        n = self.G.norm(M.lc)
        d = M.shape
        U = self.newsym("svd", [M], 0, d, unit=True)
        S = self.newsym("svd", [M], 1, d, diag=True)
        V = self.newsym("svd", [M], 2, d, unit=True)
        u, s, v = self.m(U), self.G.lc([(S, 0, 0, 1)]), self.m(V)
        t = self.G.single(n)
        if t is not None and t[2]:
            c, mo, w = t
            for i in range(len(w) - 1, -1, -1):
                f = w[i]
                if f[3] == 1 and not f[0].unit and not f[0].diag and f[0].id not in self.G.rules and f[0].name[0] in ("fac", "env"):
                    P, Q = self.G.lc(w[:i]), self.G.lc(w[i + 1:])
                    x = self.G.mul(self.G.mul(self.G.power(P, -1), self.G.mul(self.G.mul(u.lc, s), v.lc)), self.G.power(Q, -1))
                    x = self.G.mul(self.G.power(self.G.lc((), c, mo), -1), x)
                    self.G.rule(f[0], self.G.norm(self.G.mapped(x, f[1], f[2])))
                    break
        return (u, Ar("diag", s, shape=(d[0],) if d else None, struct="diag"), v)

    def qr(self, M):
        if not (isinstance(M, Ar) and M.kind == "stack"):
            raise Undecided("qr")
        q = len(M.items)
        d1, d2 = M.items[0].shape
        k = min(q * d1, d2)
        R = self.newsym("qr", [M], 0, (k, d2))
        r = self.m(R)
        # M^+ M = R^+ R
        acc = None
        pats = []
        for s, x in enumerate(M.items):
            one = self.G.single(self.G.norm(x.lc))
            if one is None:
                pats = None
                break
            c, mo, w = one
            hits = [i for i, f in enumerate(w) if f[0].name[0] == "slice"]
            if len(hits) != 1 or w[hits[0]][3] != 1 or w[hits[0]][1:3] not in ((0, 0), (1, 1)) or w[hits[0]][0].data[1] != s:
                pats = None
                break
            i = hits[0]
            pats.append((c, self.G.mkey(mo), w[i][0].data[0], w[:i], w[i + 1:], w[i][1]))
        if pats and all(self.peq(p, pats[0]) and p[5] == pats[0][5] for p in pats):
            c, mo, b, P, Q, dg = pats[0]
            f = {(mo, ()): c}
            P, Q = self.G.lc(P), self.G.lc(Q)
            if dg:
                acc = self.G.env("Er", self.G.mul(self.G.dag(P), P), b, b)
            else:
                acc = self.G.env("El", self.G.mul(self.G.dag(P), P), b, b)
            acc = self.G.mul(self.G.mul(self.G.dag(Q), acc), Q)
            acc = self.G.mul(self.G.mul(self.G.mapped(f, 1, 0), f), acc)
        else:
            # an unstructured tensor: its own base
            un = [self.G.norm(x.lc) for x in M.items]
            fs = [f for x in un for (mm, w) in x for f in w if f[0].name[0] in ("slice", "F")]
            dg = sum(1 for f in fs if f[1] and f[2]) * 2 > len(fs)
            if dg:
                un = [self.G.dag(x) for x in un]
                d1, d2 = d2, d1
            ten = Ar("ten", items=[Ar("mat", x, shape=(d1, d2)) for x in un], shape=(q, d1, d2))
            b = self.G.sym(("site", "val", self.skey(self.nsnap(self.snap(ten)))), (d1, d2), data=self.snap(ten))
            acc = self.G.env("Er" if dg else "El", self.G.one(), b, b)
            for s, x in enumerate(M.items):
                x.lc = self.slice_lc(b, s, (q, d1, d2))
                if dg:
                    x.lc = self.G.dag(x.lc)
            if dg:
                d1, d2 = d2, d1
        acc = self.G.norm(acc)
        root = self.G.power(acc, 0.5) if self.G.is_scalar(acc) and len(acc) == 1 else None
        if root is not None and k == d2:
            # already an isometry up to a factor: r is unitary up to that factor
            U = self.G.sym(("fac", "qrU", 0, R.name), (k, d2), unit=True, data=R.data)
            r.lc = self.G.mul(root, self.G.lc([(U, 0, 0, 1)]))
        else:
            self.G.solve_rule(acc, self.G.mul(self.G.dag(r.lc), r.lc))
        ri = self.G.power(r.lc, -1)
        its = [Ar("mat", self.G.mul(x.lc, ri), shape=(d1, k)) for x in M.items]
        Q = Ar("stack", items=its, shape=(q * d1, k))
        return (Q, r)

    # ---------------------------------------------------------------- library and attributes
    def attr(self, o, a, n):
        if isinstance(o, Ar):
            if a == "shape":
                if o.shape is None:
                    return self.F("shape", [o])
                return tuple(self.dim(x) for x in o.shape)
            if a in ("T",):
                return self.mapped(o, 0, 1)
            if a == "A" and o.struct in ("eye", "diag"):
                return Ar("mat", o.lc, shape=o.shape)
            if a == "A" and o.struct == "dense" and o.kind == "mat" and o.lc:
                raise Raised("AttributeError", n)
            if a == "diag":
                if o.struct in ("eye", "diag"):
                    return Ar("diag", o.lc, shape=o.shape[:1] if o.shape else None, struct="diag")
                raise Raised("AttributeError", n)
            if a == "size" and o.shape is not None and all(isinstance(x, int) for x in o.shape):
                r = 1
                for x in o.shape:
                    r *= x
                return r
            if a == "ndim" and o.shape is not None:
                return len(o.shape)
            if a == "dtype":
                return At("dtype")
            if a == "real":
                if o.items is None and self.G.is_scalar(o.lc) and self.G.is_real(self.G.norm(o.lc)):
                    return o
                return self.F("real", [o], shape=o.shape, herm=o.shape == () or o.shape == (1, 1))
            if a == "imag":
                return self.F("imag", [o], shape=o.shape)
            if a == "flat":
                return BM(o, a)
            return BM(o, a)
        if isinstance(o, (float, complex, int)) and not isinstance(o, bool) and a in ("real", "imag", "conj"):
            if a == "conj":
                return BM(self.scal(self.lit(o)), "conj")
            return getattr(o, a)
        if isinstance(o, Lst) and o.kind != "list" and a in ("max", "min", "sum", "copy", "any", "all", "argmax", "argmin", "mean", "real", "dot", "squeeze", "conj", "sort"):
            if a == "real":
                return Lst([self.attr(x, "real", n) if isinstance(x, Ar) else x for x in o.items], o.kind)
            return BM(o, a)
        if isinstance(o, Win):
            if a in ("shape",):
                return (o.hi - o.lo,)
        if isinstance(o, (Mask, Bools)):
            return BM(o, a)
        if isinstance(o, Lib) and o.d.endswith(".NaN"):
            pass
        if isinstance(o, Obj) and a not in o.f and self.method(o.cls, a) is None and a in o.f.get("__unset__", ()):
            raise Raised("AttributeError", n)
        return Interp.attr(self, o, a, n)

    def bm(self, o, a, args, kw, n):
        if isinstance(o, Ar):
            if a in ("copy", "astype", "toarray", "__copy__"):
                return o.copy()
            if a in ("conj", "conjugate"):
                return self.mapped(o, 1, 0)
            if a == "transpose" and not args and not kw:
                return self.mapped(o, 0, 1)
            if a == "dot":
                return self.dot(o, args[0])
            if a in ("dot_left", "dotleft"):
                if o.struct not in ("eye", "diag"):
                    raise Raised("AttributeError", n)
                return self.dot(args[0], o)
            if a == "sqrt" and o.struct in ("eye", "diag"):
                p = self.G.power(o.lc, 0.5)
                if p is None:
                    raise Undecided("root")
                return Ar("mat", p, shape=o.shape, struct=o.struct)
            if a == "inv" and o.struct in ("eye", "diag"):
                p = self.G.power(o.lc, -1)
                if p is None:
                    raise Undecided("inverse")
                return Ar("mat", p, shape=o.shape, struct=o.struct)
            if a in ("sqrt", "inv", "dot_left"):
                raise Raised("AttributeError", n)
            if a == "reshape":
                sh = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
                if isinstance(sh, Ar):
                    return self.F("reshape", [o, sh])
                return self.reshape(o, sh)
            if a in ("ravel", "flatten") and getattr(o, "rav", None) is not None:
                return o
            if a == "ravel" or a == "flatten":
                if o.kind == "mat" and o.shape == (1, 1):
                    return Lst([self.scal(o.lc)], "arr")
                sz = None
                if o.shape is not None and all(isinstance(x, int) for x in o.shape):
                    sz = 1
                    for x in o.shape:
                        sz *= x
                r = self.F("ravel", [o], shape=None if sz is None else (sz,))
                r.extra = r.extra
                r.rav = o
                return r
            if a == "fill":
                v = self.asar(args[0])
                if v is not None and not v.lc:
                    for x in (o.items or [o]):
                        x.lc = {}
                    return None
                if isinstance(args[0], Lib) or isinstance(args[0], At) and not isinstance(args[0], Ar):
                    v = args[0]
                sh = o.shape
                o.become(self.F("filled", [v], shape=o.shape))
                o.shape = sh
                return None
            if a == "item":
                return self.scal(o.lc) if o.shape in ((1, 1), (1,), ()) else self._u("item")
            if a in ("sort", "resize", "put"):
                self.clobber(o, (a,) + tuple(args))
                return None
            if a == "diagonal" and o.struct in ("eye", "diag"):
                return Ar("diag", o.lc, shape=o.shape[:1] if o.shape else None, struct="diag")
            sh = None
            if a in ("sum", "mean", "max", "min", "trace", "prod", "std", "argmax", "argmin") and not args and not kw:
                sh = ()
            return self.F("." + a, [o] + list(args), shape=sh)
        if isinstance(o, Lst) and o.kind != "list":
            if a in ("max", "min") and all(isinstance(x, (int, float)) for x in o.items):
                return max(o.items) if a == "max" else min(o.items)
            if a == "sum":
                acc = 0
                for x in o.items:
                    acc = self.bin(ast.Add(), acc, x)
                return acc
            if a == "copy":
                return Lst([x.copy() if isinstance(x, Ar) else x for x in o.items] if o.kind == "arr" else list(o.items), o.kind)
            if a == "fill":
                v = args[0]
                for k in range(len(o.items)):
                    self.note_store(o, k, v)
                o.items[:] = [self.asar(v).copy() if isinstance(v, (int, float, complex, Ar)) else v for _ in o.items]
                return None
            if a in ("mean", "any", "all", "argmax", "argmin", "squeeze", "conj", "sort", "dot"):
                return self.F("." + a, [o] + list(args), shape=() if a not in ("squeeze", "conj") else None)
        if isinstance(o, Mask):
            if a in ("sum",):
                return o.count()
            if a in ("all", "any"):
                return self.fork(a)
        if isinstance(o, Bools):
            if a in ("all", "any"):
                return {"all": all, "any": any}[a](o.v)
            if a == "sum":
                return sum(bool(x) for x in o.v)
        return Interp.bm(self, o, a, args, kw, n)

    def reshape(self, o, sh):
        sh = tuple(sh)
        if len(sh) == 1 and isinstance(sh[0], Lst):
            sh = tuple(sh[0].items)
        if o.shape == sh:
            return o
        src = getattr(o, "rav", None)
        if src is not None and src.shape == sh:
            return src
        if len(sh) == 1 and sh[0] == -1 and o.shape:
            return self.bm(o, "ravel", [], {}, None)
        if o.kind == "ten" and o.shape and len(sh) == 2 and all(isinstance(x, int) for x in sh) and len(o.shape) == 3:
            q, a, b = len(o.items), o.shape[1], o.shape[2]
            if sh[0] in (q * a, -1) and sh[1] in (b, -1):
                return Ar("stack", items=[x.copy() for x in o.items], shape=(q * a, b))
            if sh[1] != -1 and sh[0] != -1 and sh[0] * sh[1] != q * a * b:
                raise Raised("ValueError: cannot reshape %s into %s" % (o.shape, sh), None)
        if o.kind == "stack" and len(sh) == 3 and sh[0] == len(o.items):
            a, b = o.shape[0] // len(o.items), o.shape[1]
            if sh[1:] == (a, b):
                return Ar("ten", items=[x.copy() for x in o.items], shape=(sh[0], a, b))
        if o.shape and all(isinstance(x, int) for x in o.shape) and all(isinstance(x, int) for x in sh) and -1 not in sh:
            p = r = 1
            for x in o.shape:
                p *= x
            for x in sh:
                r *= x
            if p != r:
                raise Raised("ValueError: cannot reshape %s into %s" % (o.shape, sh), None)
        if o.shape == (1, 1) and o.kind == "mat" and all(x == 1 for x in sh):
            return Ar("mat", o.lc, shape=sh) if len(sh) == 2 else self.F("reshape", [o, sh], shape=sh)
        return self.F("reshape", [o, sh], shape=sh if all(isinstance(x, int) for x in sh) else None)

    def call(self, f, args, kw, n, env, m):
        if isinstance(f, ast.FunctionDef) and getattr(f, "_cls", None) is not None and args and isinstance(args[0], Obj):
            # unbound method of a class called with an explicit object
            return self.call(Bound(f, args[0]), args[1:], kw, n, env, m)
        if isinstance(f, ast.FunctionDef):
            nm = f.name
            if nm in self.intercept:
                r = self.intercept[nm](self, f, args, kw)
                if r is not Undecided:
                    return r
            if nm in OPEN:
                return self.callfn(f, args, kw)
            return self.kernel(f, args, kw)
        if isinstance(f, Bound):
            nm = f.fn.name
            if nm in self.intercept:
                r = self.intercept[nm](self, f, args, kw)
                if r is not Undecided:
                    self.calls.append((nm, f.self_))
                    return r
            self.calls.append((nm, f.self_))
            return self.callfn(f.fn, args, kw, f.self_)
        if isinstance(f, Clo):
            nm = getattr(f.node, "name", None)
            if nm in self.intercept:
                r = self.intercept[nm](self, f, args, kw)
                if r is not Undecided:
                    return r
            return self.closure(f, args, kw)
        if isinstance(f, Ar):
            return self.F("call", [f] + list(args))
        return Interp.call(self, f, args, kw, n, env, m)

    def closure(self, f, args, kw):
        self.depth += 1
        if self.depth > 25:
            raise Undecided("recursion")
        try:
            a = f.node.args
            e2 = Scope(f.env)
            names = [x.arg for x in a.args]
            for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                dict.__setitem__(e2, x, self.ev(d, f.env, f.mod))
            for x, v in zip(names, args):
                dict.__setitem__(e2, x, v)
            if len(args) > len(names):
                if a.vararg is None:
                    raise Raised("TypeError", f.node)
            if a.vararg is not None:
                dict.__setitem__(e2, a.vararg.arg, tuple(args[len(names):]))
            for k, v in kw.items():
                dict.__setitem__(e2, k, v)
            for x in names:
                if not dict.__contains__(e2, x):
                    raise Raised("TypeError", f.node)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, e2, f.mod)
            try:
                self.block(f.node.body, e2, f.mod)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def construct(self, cls, args, kw, n):
        if cls.name in ("simple_diag_matrix", "eyemat"):
            return self.structured(cls.name, args, kw)
        if cls.name in self.intercept:
            return self.intercept[cls.name](self, cls, args, kw)
        o = Obj(cls, "new%d" % len(self.news), {})
        self.news.append(o)
        init = self.method(cls, "__init__")
        if init is not None:
            self.callfn(init, args, kw, o)
        return o

    def structured(self, name, args, kw):
        if name == "eyemat":
            d = args[0]
            return self.eye(d)
        v = args[0]
        if isinstance(v, Ar) and v.kind == "diag":
            d = v.shape[0] if v.shape else None
            return Ar("mat", v.lc, shape=(d, d), struct="diag")
        r = self.F("diagonal", [v])
        d = v.shape[0] if isinstance(v, Ar) and v.shape else len(v.items) if isinstance(v, Lst) else None
        if d is not None:
            r.shape = (d, d)
            if d > 1:
                s = self.G.sym(r.extra.name + ("diag",), (d, d), diag=True, data=None)
                r = Ar("mat", self.G.lc([(s, 0, 0, 1)]), shape=(d, d))
        r.struct = "diag"
        return r

    def norm_args(self, fn, args, kw):
        names = [x.arg for x in fn.args.args]
        b = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names and fn.args.kwarg is None:
                raise Raised("TypeError: %s() has no argument %s" % (fn.name, k), fn)
            b[k] = v
        if len(args) > len(names):
            raise Raised("TypeError: too many arguments for %s()" % fn.name, fn)
        for x, d in zip(names[len(names) - len(fn.args.defaults):], fn.args.defaults):
            if x not in b:
                b[x] = self.ev(d, {}, fn._mod)
        for x in names:
            if x not in b:
                raise Raised("TypeError: %s() misses %s" % (fn.name, x), fn)
        return names, b

    def kernel(self, fn, args, kw):
        nm = fn.name
        if nm == "mmul" and args and not kw:
            r = self.asar(args[0])
            for x in args[1:]:
                r = self.dot(r, x)
            return r
        names, b = self.norm_args(fn, args, kw)
        a = [b[x] for x in names]
        if nm in ("eps_l_noop", "eps_r_noop"):
            return self.env("El" if nm == "eps_l_noop" else "Er", a[0], a[1], a[2])
        if nm in ("eps_l_noop_inplace", "eps_r_noop_inplace"):
            r = self.env("El" if nm[4] == "l" else "Er", a[0], a[1], a[2])
            if a[3] is a[0]:
                r = self.F("clobbered", [r], shape=r.shape)
            if isinstance(a[3], Ar):
                a[3].become(r)
                return a[3]
            return r
        if nm == "H":
            return self.mapped(self.asar(a[0]), 1, 1)
        if nm in ("adot", "adot_noconj"):
            x, y = self.asar(a[0]), self.asar(a[1])
            if x is not None and y is not None and x.lc is not None and y.lc is not None and x.kind == "mat" and y.kind == "mat" and x.shape == y.shape == (1, 1):
                xl = self.G.mapped(x.lc, 1, 0) if nm == "adot" else x.lc
                return self.scal(self.G.mul(xl, y.lc))
            herm = False
            if x is not None and y is not None and x.lc is not None and y.lc is not None:
                n1, n2 = self.G.norm(x.lc), self.G.norm(y.lc)
                herm = self.G.key(n1) == self.G.key(self.G.dag(n1)) and self.G.key(n2) == self.G.key(self.G.dag(n2))
            if self.skey(self.snap(a[0])) == self.skey(self.snap(a[1])):
                herm = True
            return self.F(nm, a[:2], shape=(), herm=herm)
        if nm == "herm_fac_with_inv":
            return self.herm_fac(b["A"], b["lower"], b["calc_inv"], b["return_rank"])
        if nm == "calc_l_r_roots":
            l, r = self.asar(a[0]), self.asar(a[1])
            out = []
            for k, x in enumerate((l, l, r, r)):
                out.append(self.F("root" if k % 2 == 0 else "rootinv", [x], shape=x.shape, herm=True))
            return tuple(out)
        if nm in ("invmh", "invpo", "inv") and len(a) >= 1:
            x = self.asar(a[0])
            if x is not None and x.lc is not None:
                p = self.G.power(self.G.norm(x.lc), -1)
                if p is not None:
                    return Ar("mat", p, shape=x.shape)
        if nm == "randomize_cmplx":
            self.fresh += 1
            if isinstance(a[0], Ar):
                sh = a[0].shape
                r = self.site(("random", self.fresh), sh) if sh and len(sh) == 3 else self.F("random", [self.fresh], shape=sh)
                a[0].become(r)
                return a[0]
        nm2 = ALIAS.get(nm, nm)
        a = [b[x] for x in names if x not in DIAGNOSTIC]
        if fn.args.vararg is not None:
            a += list(args[len(names):])
        outs = [x for x in names if x in ("out",)]
        sh = self.kshape(nm2, b)
        return self.F(nm2, a, shape=sh)

    def kshape(self, nm, b):
        g = lambda x: b[x].shape if isinstance(b.get(x), Ar) else None
        if nm == "calc_AA" and g("A") and g("Ap1"):
            if g("A")[2] != g("Ap1")[1]:
                raise Raised("ValueError: merged tensors do not fit", None)
            return (g("A")[0], g("Ap1")[0], g("A")[1], g("Ap1")[2])
        if nm == "calc_AAA_AA" and all(isinstance(b[x], Ar) and b[x].shape for x in ("AAp1", "Ap2") if x in b) and "AAp1" in b:
            s, t = g("AAp1"), g("Ap2")
            return (s[0], s[1], t[0], s[2], t[2])
        if nm in ("calc_C_mat_op_AA", "calc_C_3s_mat_op_AAA"):
            return g("AA") or g("AAA")
        if nm == "calc_Vsh" and g("A"):
            q, d1, d2 = g("A")
            return (q, d2, q * d2 - d1) if q * d2 - d1 > 0 else None
        if nm == "calc_Vsh_l" and g("A"):
            q, d1, d2 = g("A")
            return (q, q * d1 - d2, d1) if q * d1 - d2 > 0 else None
        if nm == "apply_MPO_local" and g("Mn") and g("An"):
            return (g("An")[0], g("Mn")[0] * g("An")[1], g("Mn")[1] * g("An")[2])
        return None

    def builtin(self, f, args, kw, n):
        if f == "len" and isinstance(args[0], Win):
            return args[0].hi - args[0].lo
        if f == "len" and isinstance(args[0], Ar) and args[0].shape:
            return args[0].shape[0]
        if f == "abs" and isinstance(args[0], Ar):
            a = args[0]
            if a.items is None and self.G.is_scalar(a.lc):
                p = self.G.absval(self.G.norm(a.lc))
                if p is not None:
                    return Ar(a.kind, p, shape=a.shape)
            if a.kind == "diag":
                return a
            return self.F("abs", [a], shape=a.shape, herm=a.shape == ())
        if f == "abs" and isinstance(args[0], (int, float, complex)):
            return abs(args[0])
        if f in ("min", "max"):
            vs = args if len(args) > 1 else self.iter(args[0])
            if all(isinstance(x, (int, float)) for x in vs):
                return min(vs) if f == "min" else max(vs)
            return self.F(f, list(vs), shape=())
        if f in ("all", "any"):
            vs = args[0]
            if isinstance(vs, Bools):
                return {"all": all, "any": any}[f](vs.v)
            vs = self.iter(vs)
            t = [self.truth(x, n) for x in vs]
            return all(t) if f == "all" else any(t)
        if f == "sum":
            acc = args[1] if len(args) > 1 else 0
            for x in self.iter(args[0]):
                acc = self.bin(ast.Add(), acc, x)
            return acc
        if f == "slice":
            return ("slice",) + (tuple(args) + (None, None, None))[:3] if len(args) > 1 else ("slice", None, args[0], None)
        if f in ("int", "float", "complex", "bool"):
            return args[0] if args else 0
        if f == "sorted":
            return Lst(sorted(self.iter(args[0])))
        if f == "map":
            return Lst([self.builtin(args[0][8:], [x], {}, n) if isinstance(args[0], str) else self.call(args[0], [x], {}, n, {}, None) for x in self.iter(args[1])])
        if f == "isinstance" and isinstance(args[0], Ar):
            c = args[1]
            cs = c if isinstance(c, tuple) else (c,)
            for k in cs:
                nm = k.l if isinstance(k, Lib) else k.name if isinstance(k, ast.ClassDef) else k
                if nm == "ndarray":
                    return args[0].struct == "dense"
                if nm == "eyemat" and args[0].struct == "eye" or nm == "simple_diag_matrix" and args[0].struct == "diag":
                    return True
            return False
        if f == "type":
            return Lib("type")
        if f == "callable":
            return isinstance(args[0], (Clo, ast.FunctionDef, Bound, Lib))
        if f == "str":
            return "text"
        if f == "print":
            return None
        return Interp.builtin(self, f, args, kw, n)

    def lib(self, f, args, kw, n):
        l, root = f.l, f.d.split(".")[0]
        if root in ("log", "logging", "warnings", "logger"):
            self.reports += 1
            return None
        if l in self.intercept:
            return self.intercept[l](self, f, args, kw)
        a0 = args[0] if args else None
        if l in ("eye", "identity") and isinstance(a0, int):
            r = self.eye(a0)
            r.struct = "dense"
            return r
        if l in ("zeros", "empty", "ones", "full"):
            dt = kw.get("dtype", args[1] if len(args) > 1 else None)
            obj = isinstance(dt, Lib) and dt.l in ("object", "object_", "ndarray") or dt in ("builtin:object", "O")
            sh = a0
            if isinstance(sh, Lst):
                sh = tuple(sh.items)
            if isinstance(sh, int):
                sh = (sh,)
            if obj:
                if len(sh) == 1 and isinstance(sh[0], int):
                    return Lst([None] * sh[0], "obj")
                raise Undecided("object array")
            if isinstance(sh, Ar):
                return self.F(l, [sh])
            isint = dt == "builtin:int" or isinstance(dt, Lib) and dt.l.startswith("int")
            if len(sh) == 1 and isinstance(sh[0], int) and isint:
                return Lst([0 if l == "zeros" else 1] * sh[0], "arr")
            if l == "zeros" or l == "empty":
                r = self.zeros(sh)
                if l == "empty" and isinstance(r, Ar):
                    self.fresh += 1
                    u = self.F("uninitialised", [self.fresh], shape=tuple(sh))
                    if r.items is not None:
                        for k, x in enumerate(r.items):
                            x.become(self.F("uninitialised", [self.fresh, k], shape=x.shape))
                        return r
                    return u
                return r
            return self.F(l, [sh], shape=tuple(sh))
        if l in ("zeros_like", "empty_like", "ones_like"):
            v = self.asar(a0)
            if v is None and isinstance(a0, Lst):
                if any(x is None or isinstance(x, Ar) and x.kind != "scal" for x in a0.items):
                    return Lst([None for _ in a0.items], a0.kind) if l == "empty_like" else self._u(l)
                return Lst([self.scal({}) for _ in a0.items], "arr") if a0.kind == "arr" else self._u(l)
            if v.kind == "diag" and l != "ones_like":
                return Ar("diag", {}, shape=v.shape, struct="diag")
            if v.shape is not None and l != "ones_like":
                return self.lib(Lib("numpy." + l[:-5]), [v.shape], {}, n)
            return self.F(l, [a0], shape=v.shape)
        if l == "fill_diagonal" and isinstance(a0, Ar):
            if a0.kind == "mat" and not a0.lc and isinstance(args[1], (int, float, complex)):
                a0.lc = self.lit(args[1])
                return None
            self.clobber(a0, ("fill_diagonal", args[1]))
            return None
        if l in ("array", "asarray", "ascontiguousarray", "asanyarray", "atleast_1d", "atleast_2d", "squeeze"):
            if isinstance(a0, Ar):
                if l == "squeeze":
                    return self.F("squeeze", [a0])
                if a0.struct in ("eye", "diag"):
                    r = a0.copy()
                    r.struct = "dense"
                    return r
                return a0.copy() if l == "array" else a0
            if isinstance(a0, Lst) and a0.kind in ("list",) and a0.items and all(isinstance(x, Ar) and x.kind == "mat" for x in a0.items):
                sh = a0.items[0].shape
                return Ar("ten", items=[x.copy() for x in a0.items], shape=(len(a0.items),) + tuple(sh) if sh else None)
            if isinstance(a0, Lst) and a0.kind == "arr":
                return Lst(a0.items, "arr") if l == "array" else a0
            if isinstance(a0, Lst) and len(a0.items) == 1 and isinstance(a0.items[0], Lst) and len(a0.items[0].items) == 1:
                return Ar("mat", self.asar(a0.items[0].items[0]).lc, shape=(1, 1))
            if isinstance(a0, (Lst, tuple)) and all(isinstance(x, (int, float, complex)) or isinstance(x, Ar) and x.kind == "scal" for x in self.iter(a0)):
                return Lst(self.iter(a0), "arr")
            return Interp.lib(self, f, args, kw, n)
        if l in ("transpose", "swapaxes", "rollaxis", "moveaxis") and isinstance(a0, Ar):
            ax = kw.get("axes", args[1] if len(args) > 1 else None)
            ax = tuple(ax.items) if isinstance(ax, Lst) else ax
            if l == "transpose" and ax is None:
                return self.mapped(a0, 0, 1)
            if l == "transpose" and a0.items is not None and ax == (0, 2, 1):
                its = [self.mapped(x, 0, 1) for x in a0.items]
                return Ar("ten", items=its, shape=(a0.shape[0], a0.shape[2], a0.shape[1]) if a0.shape else None)
            sh = None
            if a0.shape is not None and l == "transpose" and ax is not None and len(ax) == len(a0.shape):
                sh = tuple(a0.shape[i] for i in ax)
            return self.F(l, [a0, ax] + list(args[2:]), shape=sh)
        if l in ("conj", "conjugate") and isinstance(a0, (Ar, int, float, complex)):
            return self.mapped(self.asar(a0), 1, 0)
        if l in ("dot", "matmul") and len(args) == 2:
            return self.dot(args[0], args[1])
        if l == "real" and isinstance(a0, (Ar,)):
            return self.attr(a0, "real", n)
        if l in ("real", "imag") and isinstance(a0, (int, float, complex)):
            return getattr(complex(a0), l)
        if l in ("iscomplex", "iscomplexobj") and isinstance(a0, (int, float, complex)):
            return isinstance(a0, complex) and a0.imag != 0
        if l in ("abs", "absolute") and args:
            return self.builtin("abs", args, kw, n)
        if l == "sqrt":
            if isinstance(a0, (int, float)) and a0 >= 0:
                return a0 ** 0.5
            v = self.asar(a0)
            if v is not None and v.lc is not None and (v.kind in ("scal", "diag") or v.shape == (1, 1)):
                p = self.G.power(self.G.norm(v.lc), 0.5)
                if p is not None:
                    return Ar(v.kind, p, shape=v.shape, struct=v.struct)
            if isinstance(a0, Lst):
                return Lst([self.lib(f, [x], {}, n) for x in a0.items], a0.kind)
            return self.F("sqrt", [a0], shape=v.shape if v is not None else ())
        if l in ("count_nonzero",):
            if isinstance(a0, Mask):
                return a0.count()
            if isinstance(a0, Bools):
                return sum(bool(x) for x in a0.v)
            if isinstance(a0, bool):
                return 1
            return self.fork_int(l)
        if l in ("all", "any", "alltrue", "sometrue") and args:
            if isinstance(a0, Bools):
                return {"al": all, "an": any, "so": any}[l[:2]](a0.v)
            if isinstance(a0, bool):
                return a0
            if isinstance(a0, Lst):
                return {"al": all, "an": any, "so": any}[l[:2]]([self.truth(x, n) for x in a0.items])
            return self.fork(ast.unparse(n))
        if l in ("argwhere", "flatnonzero") or l == "nonzero" and len(args) == 1:
            v = a0.v if isinstance(a0, Bools) else a0.items if isinstance(a0, Lst) else None
            if v is None or not all(isinstance(x, (bool, int, float)) for x in v):
                return Where(a0)
            r = Lst([i for i, x in enumerate(v) if x], "arr")
            return (r,) if l == "nonzero" else r
        if l == "asscalar":
            v = self.asar(a0)
            if v is not None and v.items is None:
                if v.shape not in ((1, 1), (1,), ()) and v.shape is not None:
                    raise Raised("ValueError: can only convert an array of size 1", n)
                return self.scal(v.lc) if v.shape is not None else self.F("asscalar", [v], shape=())
        if l in ("repeat",) and isinstance(args[1], int):
            v = a0.items[0] if isinstance(a0, Lst) and len(a0.items) == 1 else a0
            return Lst([v] * args[1], "arr")
        if l in ("minimum", "maximum") and len(args) > 1 and isinstance(a0, int) and isinstance(args[1], int):
            return (min if l == "minimum" else max)(a0, args[1])
        if l in ("minimum", "maximum") and (isinstance(a0, Lst) or isinstance(args[1], Lst)):
            k = len(a0.items) if isinstance(a0, Lst) else len(args[1].items)
            g = lambda v, i: v.items[i] if isinstance(v, Lst) else v
            return Lst([self.builtin(l[:3], [g(a0, i), g(args[1], i)], {}, n) for i in range(k)], "arr")
        if l in ("arange",):
            if all(isinstance(x, int) for x in args):
                return Lst(list(range(*args)), "arr")
        if l == "qr":
            return self.qr(a0)
        if l in ("eigh",) and root == "scipy":
            return self.eigh(a0)
        if l == "svd" and root == "scipy":
            return self.svd(a0)
        if l == "inv" and root in ("scipy", "numpy"):
            v = self.asar(a0)
            p = self.G.power(self.G.norm(v.lc), -1) if v is not None and v.lc is not None else None
            if p is None:
                return self.F("inv", [a0], shape=v.shape if v is not None else None)
            return Ar("mat", p, shape=v.shape)
        if l in ("rand", "randn", "random", "normal", "uniform", "random_sample"):
            self.fresh += 1
            if args and all(isinstance(x, int) for x in args) and len(args) == 3:
                return self.site(("random", self.fresh), tuple(args))
            return self.F("random", [self.fresh], shape=tuple(args) if all(isinstance(x, int) for x in args) else None)
        if l in ("copy", "deepcopy"):
            return self.deep(a0) if l == "deepcopy" else self.shallow(a0)
        if l == "norm":
            return self.F("norm", [a0], shape=(), herm=True)
        if l in ("trace",) and isinstance(a0, Ar):
            if a0.shape == (1, 1):
                return self.scal(a0.lc)
            nn = self.G.norm(a0.lc) if a0.lc is not None else None
            return self.F("trace", [a0], shape=(), herm=nn is not None and self.G.key(nn) == self.G.key(self.G.dag(nn)))
        if l == "inner" or l == "vdot":
            return self.F(l, list(args), shape=())
        if l == "reshape" and isinstance(a0, Ar):
            return self.bm(a0, "reshape", list(args[1:]), kw, n)
        if l in ("ravel",) and isinstance(a0, Ar):
            return self.bm(a0, "ravel", [], {}, n)
        if l == "kron":
            x, y = self.asar(a0), self.asar(args[1])
            sh = None
            if x is not None and y is not None and x.shape and y.shape and len(x.shape) == len(y.shape) == 2:
                sh = (x.shape[0] * y.shape[0], x.shape[1] * y.shape[1])
            return self.F("kron", list(args), shape=sh)
        if l == "tensordot":
            return self.F("tensordot", list(args) + [kw.get("axes")])
        if l == "vectorize":
            return ("vec", a0)
        if l == "fromfunction":
            return self.F("fromfunction", [self.snapfn(a0), args[1]], shape=args[1] if isinstance(args[1], tuple) and all(isinstance(x, int) for x in args[1]) else None)
        if l == "multiply" and len(args) == 2:
            return self.bin(ast.Mult(), a0, args[1])
        if l in ("iscomplexobj", "isnan", "isfinite", "allclose", "isclose", "array_equal"):
            return self.fork(ast.unparse(n))
        if l in ("finfo", "dtype", "result_type"):
            return At(f.d)
        if l in ("flush", "write", "close", "seterr", "collect"):
            return None
        if l == "prod" and isinstance(a0, (Lst, tuple)) and all(isinstance(x, int) for x in self.iter(a0)):
            r = 1
            for x in self.iter(a0):
                r *= x
            return r
        if l in ("gcd",):
            import math
            return math.gcd(*args)
        if root == "exc":
            return At(f.d)
        if l in ("max", "amax", "min", "amin", "sum") and len(args) == 1:
            if l[-3:] in ("max", "min") and all(isinstance(x, (int, float)) for x in (self.iter(a0) if isinstance(a0, (Lst, tuple, list)) else [None])):
                return self.builtin(l[-3:], args, {}, n)
            if l == "sum" and isinstance(a0, Lst):
                return self.builtin("sum", args, {}, n)
            return self.F(l, [a0], shape=())
        if l in ("load", "save", "savez", "dump"):
            raise Undecided("file")
        vs = list(args) + [x for k, x in sorted(kw.items()) if k not in ("dtype", "order", "tol", "out", "turbo", "overwrite_a")]
        return self.F("%s" % l, [v if not isinstance(v, (Clo, Bound)) else "function" for v in vs])

    def snapfn(self, v):
        """a sampled function: the values its free variables have now"""
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "vec":
            v = v[1]
        if isinstance(v, Clo):
            out = [ast.dump(v.node.body) if isinstance(v.node, ast.Lambda) else v.node.name]
            bound = {a.arg for a in v.node.args.args}
            for x in sorted({y.id for y in ast.walk(v.node) if isinstance(y, ast.Name)} - bound):
                if x in v.env:
                    z = v.env[x]
                    out.append((x, z if isinstance(z, (int, float, str)) else "object"))
            return tuple(out)
        return "function"

    def fork_int(self, why):
        raise Undecided(why)

    def deep(self, v):
        if isinstance(v, Ar):
            return v.copy()
        if isinstance(v, Lst):
            return Lst([self.deep(x) for x in v.items], v.kind)
        if isinstance(v, Obj):
            return Obj(v.cls, v.role + "'", {k: self.deep(x) for k, x in v.f.items()})
        if isinstance(v, tuple):
            return tuple(self.deep(x) for x in v)
        if isinstance(v, dict):
            return {k: self.deep(x) for k, x in v.items()}
        return v

    def shallow(self, v):
        if isinstance(v, Ar):
            return v.copy()
        if isinstance(v, Lst):
            return Lst(v.items, v.kind)
        if isinstance(v, Obj):
            return Obj(v.cls, v.role + "'", dict(v.f))
        return v

    def name(self, s, env, m):
        if s == "NotImplementedError":
            return Lib("exc." + s)
        v = Interp.name(self, s, env, m)
        if isinstance(v, str) and v == "builtin:" + s and s == "print":
            return v
        return v


class Scope(dict):
    """closure environment: reads fall through to the defining scope"""
    def __init__(self, parent):
        dict.__init__(self)
        self.parent = parent

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.parent

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.parent[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def child(self):
        return Scope(self)


class Win(Lst):
    """a view of part of an object array"""
    def __init__(self, o, lo, hi):
        while isinstance(o, Win):
            lo, hi, o = lo + o.lo, hi + o.lo, o.o
        self.o, self.lo, self.hi, self.kind = o, lo, max(lo, hi), o.kind

    @property
    def items(self):
        return _WinItems(self)

    @items.setter
    def items(self, v):
        for k, x in enumerate(v):
            self.o.items[self.lo + k] = x


class _WinItems(object):
    def __init__(self, w):
        self.w = w

    def __len__(self):
        return self.w.hi - self.w.lo

    def __getitem__(self, k):
        if isinstance(k, slice):
            return [self[i] for i in range(*k.indices(len(self)))]
        if k < 0:
            k += len(self)
        return self.w.o.items[self.w.lo + k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            for i, x in zip(range(*k.indices(len(self))), v):
                self[i] = x
            return
        if k < 0:
            k += len(self)
        self.w.o.items[self.w.lo + k] = v

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])


class Mask(object):
    """elementwise comparison of an array"""
    kept = {}
    def __init__(self, a, op, t=None):
        self.a, self.op, self.t = a, op, t

    def count(self):
        # full rank
        if self.a.shape and isinstance(self.a.shape[0], int):
            d = self.a.shape[0]
            k = Mask.kept
            n = k(self) if callable(k) else k.get(d, d)
            return n if self.op in ("Gt", "GtE") else d - n
        raise Undecided("rank")


class Bools(object):
    def __init__(self, v):
        self.v = v


class Where(object):
    def __init__(self, v):
        self.v = v
