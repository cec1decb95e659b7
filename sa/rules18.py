"""C18: the structured matrices and matrix helpers compute what the dense matrices would.

Abstract interpretation of the syntax trees of matmul.py (and the Hermitian root /
factor / nullspace helpers) in a domain of exact index expressions: an array is its
symbolic shape plus its generic entry, a polynomial in named entries, Kronecker
deltas and index-set indicators with sums over bound indices.  Sizes, entries and
types stay symbols; a scenario only fixes the *kinds* of the operands (scalar,
dense, identity, diagonal) and the option flags."""
import ast, itertools
from fractions import Fraction
from .alg import Poly, aspoly
from .repo import qualname


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, node=None):
        Exception.__init__(self, name)
        self.name = name
        self.node = node


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------------ index expressions
_n = [0]


def fresh():
    _n[0] += 1
    return "i%d" % _n[0]


REAL = set()
UNITARY = set()          # square unitary matrices
EIG = {}                 # EV -> (ev, A): sum_k EV[i,k] ev[k] EV*[j,k] = A[i,j]
CHOL = {}                # X -> (A, lower)
INV = {}                 # Xi -> X
ASC = {}                 # name -> True: entries ascend


class Ex(object):
    """sum of terms; term = frozenset of (atom, power), bound index set, coefficient"""
    __slots__ = ("t",)

    def __init__(self, t=()):
        self.t = [x for x in t if x[2]]

    @staticmethod
    def c(v):
        return Ex([((), frozenset(), Fraction(v))])

    @staticmethod
    def atom(a, p=1):
        return Ex([(((a, Fraction(p)),), frozenset(), Fraction(1))])

    def __add__(self, o):
        return Ex(self.t + o.t)

    def neg(self):
        return Ex([(f, b, -c) for f, b, c in self.t])

    def __sub__(self, o):
        return self + o.neg()

    def mul(self, o):
        out = []
        for f, b, c in self.t:
            for f2, b2, c2 in o.t:
                m = {}
                for x in b2:
                    m[x] = fresh()
                f2r = tuple((_sub(a, m), p) for a, p in f2)
                out.append((f + f2r, b | frozenset(m.values()), c * c2))
        return Ex(out)

    def sub(self, m):
        out = []
        for f, b, c in self.t:
            mm = {k: v for k, v in m.items() if k not in b}
            ren = {x: fresh() for x in b if x in mm.values()}
            if ren:
                f = tuple((_sub(a, ren), p) for a, p in f)
                b = frozenset(ren.get(x, x) for x in b)
            out.append((tuple((_sub(a, mm), p) for a, p in f), b, c))
        return Ex(out)

    def bind(self, vs, dims):
        out = []
        for f, b, c in self.t:
            ren = {v: fresh() for v in vs}
            f2 = tuple((_sub(a, ren), p) for a, p in f)
            for v in vs:
                BD[ren[v]] = dims[v]
            out.append((f2, b | frozenset(ren.values()), c))
        return Ex(out)

    def conj(self):
        return Ex([(tuple((_conj(a), p) for a, p in f), b, c) for f, b, c in self.t])

    def key(self):
        d = {}
        for f, b, c in norm(self).t:
            k = _canon(f, b)
            d[k] = d.get(k, 0) + c
        return frozenset((k, v) for k, v in d.items() if v)


BD = {}


def _sub(a, m):
    if a[0] == "el":
        return ("el", a[1], a[2], tuple(m.get(i, i) for i in a[3]))
    if a[0] == "d":
        i, j = m.get(a[1], a[1]), m.get(a[2], a[2])
        return ("d",) + tuple(sorted((i, j)))
    if a[0] == "in":
        return ("in", a[1], m.get(a[2], a[2]))
    if a[0] == "f":
        return ("f", a[1], _sub(a[2], m))
    return a


def _vars(a):
    if a[0] == "el":
        return set(a[3])
    if a[0] == "d":
        return {a[1], a[2]}
    if a[0] == "in":
        return {a[2]}
    if a[0] == "f":
        return _vars(a[2])
    return set()


def _conj(a):
    if a[0] == "el":
        return a if a[1] in REAL else ("el", a[1], not a[2], a[3])
    if a[0] == "I":
        return ("mI",)
    if a[0] == "f":
        return a if a[1] == "abs" else ("f", a[1], _conj(a[2]))
    return a


def norm(e):
    out = []
    todo = list(e.t)
    while todo:
        f, b, c = todo.pop()
        d = {}
        for a, p in f:
            if a[0] == "mI":
                a, c = ("I",), (-c if int(p) % 2 else c)
            if a[0] in ("d", "in"):
                p = Fraction(1)
                if a[0] == "d" and a[1] == a[2]:
                    continue
                d[a] = p
                continue
            d[a] = d.get(a, 0) + p
        d = {a: p for a, p in d.items() if p}
        if ("I",) in d:
            k = int(d.pop(("I",))) % 4
            if k >= 2:
                c = -c
            if k % 2:
                d[("I",)] = Fraction(1)
        # complement of sets
        nots = [a for a in d if a[0] == "in" and a[1][0] == "not"]
        if nots:
            a = nots[0]
            d.pop(a)
            fl = tuple(d.items())
            todo.append((fl, b, c))
            todo.append((fl + ((("in", a[1][1], a[2]), Fraction(1)),), b, -c))
            continue
        # deltas with a bound index
        done = False
        for a in list(d):
            if a[0] == "d":
                x = a[1] if a[1] in b else a[2] if a[2] in b else None
                if x is not None:
                    y = a[2] if x == a[1] else a[1]
                    d.pop(a)
                    todo.append((tuple((_sub(q, {x: y}), p) for q, p in d.items()), b - {x}, c))
                    done = True
                    break
        if done:
            continue
        # free deltas: use the smaller index everywhere else
        for a in list(d):
            if a[0] == "d":
                m = {a[2]: a[1]}
                o = {}
                for q, p in d.items():
                    if q == a:
                        o[q] = p
                    else:
                        q2 = _sub(q, m)
                        o[q2] = Fraction(1) if q2[0] in ("d", "in") else o.get(q2, 0) + p
                if o != d:
                    todo.append((tuple(o.items()), b, c))
                    done = True
                    break
        if done:
            continue
        # unused bound index: its range
        used = set()
        for a in d:
            used |= _vars(a)
        free = [x for x in b if x not in used]
        if free:
            x = free[0]
            todo.append((tuple(d.items()) + ((("dim", BD.get(x)), Fraction(1)),), b - {x}, c))
            continue
        r = _rewrite(d, b)
        if r is not None:
            todo.append((tuple(r[0].items()), r[1], c))
            continue
        out.append((tuple(sorted(d.items(), key=repr)), b, c))
    if len(out) > 1:
        g = {}
        for f, b, c in out:
            k = _canon(f, b)
            if k in g:
                g[k] = (g[k][0], g[k][1], g[k][2] + c)
            else:
                g[k] = (f, b, c)
        out = list(g.values())
    return Ex(out)


def _rewrite(d, b):
    """orthonormality, Cholesky and inverse identities on summed indices"""
    for x in b:
        fs = [a for a in d if x in _vars(a)]
        if len(fs) == 2 and all(a[0] == "el" and d[a] == 1 and len(a[3]) == 2 for a in fs):
            for a, q in (fs, fs[::-1]):
                if a[1] == q[1] and a[2] != q[2] and a[3].index(x) == q[3].index(x) and a[3].count(x) == 1 and q[3].count(x) == 1:
                    pos = a[3].index(x)
                    i, j = a[3][1 - pos], q[3][1 - pos]
                    if a[1] in UNITARY:
                        o = {k: p for k, p in d.items() if k not in (a, q)}
                        o[("d",) + tuple(sorted((i, j)))] = Fraction(1)
                        return o, b - {x}
                    if a[1] in CHOL and not a[2]:
                        A, low = CHOL[a[1]]
                        if (low and pos == 1) or (not low and pos == 0):
                            # lower: X X^H = A ; upper: X^H X = A
                            o = {k: p for k, p in d.items() if k not in (a, q)}
                            at = ("el", A, False, (i, j) if low else (j, i))
                            o[at] = o.get(at, 0) + 1
                            return o, b - {x}
                if INV.get(a[1]) == q[1] and a[2] == q[2]:
                    if a[3].index(x) != q[3].index(x):
                        i, j = a[3][1 - a[3].index(x)], q[3][1 - q[3].index(x)]
                        o = {k: p for k, p in d.items() if k not in (a, q)}
                        o[("d",) + tuple(sorted((i, j)))] = Fraction(1)
                        return o, b - {x}
    return None


def _canon(f, b):
    bs = sorted(b)
    if len(bs) > 6:
        raise Undecided("too many sums")
    best = None
    for perm in itertools.permutations(range(len(bs))):
        m = {x: "~%d" % k for x, k in zip(bs, perm)}
        k = tuple(sorted(((_sub(a, m), p) for a, p in f), key=repr))
        rk = repr(k)
        if best is None or rk < best[0]:
            best = (rk, k)
    return (len(bs),) + best[1]


def same(a, b):
    return (a - b).key() == frozenset() or a.key() == b.key()


# ------------------------------------------------------------------ values
class DT(object):
    def __init__(self, names):
        self.n = frozenset(names)

    def __eq__(self, o):
        return isinstance(o, DT) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def covers(self, o):
        for x in o.n:
            if x in self.n or x in ("f8", "int", "bool") or "c16" in self.n:
                continue
            if isinstance(x, tuple) and x[0] == "re" and x[1] in self.n:
                continue
            return False
        return True

    def __or__(self, o):
        n = set(self.n | o.n)
        for x in list(n):
            if isinstance(x, tuple) and x[1] in n:
                n.discard(x)
        if n - {"int", "bool"}:
            n -= {"int", "bool"}
        return DT(n)

    def __repr__(self):
        return "+".join(sorted(map(str, self.n)))


F8, INT = DT(["f8"]), DT(["int"])


class Buf(object):
    def __init__(self, axes, vs, ex, dt, owner=None):
        self.axes, self.vs, self.ex, self.dt, self.owner = axes, vs, ex, dt, owner


class Arr(object):
    """axes: list of axis; axis = tuple of primitive dimensions; view of a buffer"""
    def __init__(self, buf, perm=None, subset=None, py=False, ro=False):
        self.buf = buf
        self.perm = tuple(range(len(buf.axes))) if perm is None else tuple(perm)
        self.subset = dict(subset or {})
        self.py = py
        self.ro = ro            # a derived copy that may alias: writing is not modelled

    @property
    def axes(self):
        return [tuple(_subdim(d, self.subset.get((p, k))) for k, d in enumerate(self.buf.axes[p])) for p in self.perm]

    @property
    def ndim(self):
        return len(self.perm)

    @property
    def dt(self):
        return self.buf.dt

    def val(self, idx):
        m = {}
        e = self.buf.ex
        for pos, p in enumerate(self.perm):
            for k, v in enumerate(self.buf.vs[p]):
                m[v] = idx[pos][k]
        e = e.sub(m)
        for (p, k), S in self.subset.items():
            if p in self.perm:
                e = _restrict(norm(e), S, idx[self.perm.index(p)][k])
        return e

    def shape(self):
        out = []
        for ax in self.axes:
            if len(ax) != 1:
                r = aspoly(1)
                for d in ax:
                    r = r * _dimval(d)
            else:
                r = _dimval(ax[0])
            out.append(_simp(r))
        return tuple(out)


def _dimval(d):
    if isinstance(d, int):
        return aspoly(d)
    if isinstance(d, tuple) and d[0] == "sub":
        S = d[2]
        if S[0] == "not":
            return _dimval(d[1]) - Poly.sym(("card", S[1]))
        if S[0] == "rng":
            lo, hi = S[1], S[2]
            return (hi if hi is not None else _dimval(d[1])) - lo
        return Poly.sym(("card", S))
    return Poly.sym(d)


def _simp(p):
    c = p.cval()
    return p if c is None else int(c)


def _subdim(d, S):
    return d if S is None else ("sub", d, S)


def _restrict(e, S, v):
    """entries with index v known to lie in S"""
    pos, base = (False, S[1]) if S[0] == "not" else (True, S)
    out = []
    for f, b, c in e.t:
        keep, dead = [], False
        for a, p in f:
            if a == ("in", base, v):
                if not pos:
                    dead = True
                continue
            keep.append((a, p))
        if not dead:
            out.append((tuple(keep), b, c))
    return Ex(out)


def mk(axes, fn, dt, owner=None, py=False):
    vs = [tuple(fresh() for _ in ax) for ax in axes]
    return Arr(Buf([tuple(a) for a in axes], vs, norm(fn(vs)), dt, owner), py=py)


def named(name, dims, dt, owner=None, py=False):
    return mk([(d,) for d in dims], lambda vs: Ex.atom(("el", name, False, tuple(v[0] for v in vs))), dt, owner or name, py)


def scal(ex, dt, py=False):
    return Arr(Buf([], [], norm(ex), dt), py=py)


class Obj(object):
    def __init__(self, cls):
        self.cls = cls
        self.at = {}


class Fn(object):
    def __init__(self, node, self_=None):
        self.node, self.self_ = node, self_


class Lib(object):
    def __init__(self, dotted):
        self.d = dotted
        self.l = dotted.split(".")[-1]


class Meth(object):
    def __init__(self, arr, name):
        self.arr, self.name = arr, name


class LapackFn(object):
    def __init__(self, name):
        self.name = name


NOTIMPL = object()
_ELL = object()
_NEWAX = None


def idxs(n):
    return [fresh() for _ in range(n)]


class Interp(object):
    def __init__(self, prog, fails=(), budget=4000):
        self.prog = prog
        self.fails = set(fails)      # library calls that fail in this scenario
        self.writes = []             # (owner, node)
        self.depth = 0
        self.steps = 0
        self.funcs = set()

    # ---------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, Fn):
            a = list(args)
            if f.self_ is not None:
                a = [f.self_] + a
            return self.run(f.node, a, kw)
        if isinstance(f, ast.ClassDef):
            o = Obj(f)
            init = self.prog.method(f, "__init__") if hasattr(self.prog, "method") else None
            init = f._methods.get("__init__")
            if init is not None:
                self.run(init, [o] + list(args), kw)
            return o
        if isinstance(f, ast.FunctionDef):
            return self.run(f, list(args), kw)
        if isinstance(f, Meth):
            return self.meth(f.arr, f.name, args, kw, node)
        if isinstance(f, Lib):
            return self.lib(f, args, kw, node)
        if isinstance(f, LapackFn):
            return self.lapack(f, args, kw)
        if f is NOTIMPL or f is None:
            raise Raised("TypeError", node)
        raise Undecided("call of %r" % (f,))

    def run(self, fn, args, kw):
        self.depth += 1
        if self.depth > 25:
            raise Undecided("recursion")
        self.funcs.add(qualname(fn))
        env = {}
        a = fn.args
        if getattr(a, "posonlyargs", None):
            raise Undecided("positional-only")
        names = [x.arg for x in a.args]
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            elif a.vararg is None:
                raise Raised("TypeError", fn)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise Raised("TypeError", fn)
                env[k] = v
            elif a.kwarg is None:
                raise Raised("TypeError", fn)
        for x, dflt in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in env:
                env[x] = self.ev(dflt, {}, fn._mod)
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dflt is not None:
                env[x.arg] = self.ev(dflt, {}, fn._mod)
        for x in names:
            if x not in env:
                raise Raised("TypeError", fn)
        try:
            self.block(fn.body, env, fn._mod)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ---------------------------------------------------------- statements
    def block(self, body, env, m):
        for s in body:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("budget")
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env, m)
        elif isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, env, m))
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, m)
            for t in s.targets:
                self.assign(t, v, env, m)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, m), env, m)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(_load(s.target), env, m)
            v = self.ev(s.value, env, m)
            if isinstance(cur, Arr) and not cur.py and cur.ndim:
                r = self.binop(s.op, cur, v, s)
                self.store(cur, r, s)
                if not isinstance(s.target, (ast.Name, ast.Attribute)):
                    self.assign(s.target, cur, env, m)
            else:
                self.assign(s.target, self.binop(s.op, cur, v, s), env, m)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, m), s.test) else s.orelse, env, m)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env, m)
            if not isinstance(it, (list, tuple, range)):
                raise Undecided("loop over %s" % ast.unparse(s.iter))
            for x in it:
                self.assign(s.target, x, env, m)
                try:
                    self.block(s.body, env, m)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env, m)
        elif isinstance(s, ast.While):
            k = 0
            while self.truth(self.ev(s.test, env, m), s.test):
                k += 1
                if k > 50:
                    raise Undecided("while")
                try:
                    self.block(s.body, env, m)
                except Brk:
                    break
                except Cont:
                    continue
        elif isinstance(s, ast.Try):
            try:
                try:
                    d = self.depth
                    self.block(s.body, env, m)
                except Raised as e:
                    self.depth = d
                    for h in s.handlers:
                        if self.catches(h, e):
                            if h.name:
                                env[h.name] = e
                            self.block(h.body, env, m)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, m)
            finally:
                self.block(s.finalbody, env, m)
        elif isinstance(s, ast.Raise):
            nm = "Exception"
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "Exception")
            raise Raised(nm, s)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env, m), s.test):
                raise Raised("AssertionError", s)
        elif isinstance(s, ast.With):
            for it in s.items:
                self.ev(it.context_expr, env, m)
            self.block(s.body, env, m)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            pass
        elif isinstance(s, ast.FunctionDef):
            s._mod = m
            env[s.name] = _Closure(s, env)
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
        else:
            raise Undecided(type(s).__name__)

    def catches(self, h, e):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", None)
            if nm == e.name or nm in ("Exception", "BaseException"):
                if nm == "Exception" and e.name == "BaseException":
                    continue
                return True
        return False

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (tuple, list)):
                raise Undecided("unpack")
            if len(v) != len(t.elts):
                raise Raised("ValueError", t)
            for a, b in zip(t.elts, v):
                self.assign(a, b, env, m)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            if isinstance(o, Obj):
                o.at[t.attr] = v
            else:
                raise Undecided("attribute store")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            if isinstance(o, list):
                o[self.conc(self.ev(t.slice, env, m))] = v
                return
            if not isinstance(o, Arr):
                raise Undecided("item store")
            ix = self.index(t.slice, env, m)
            view = self.getitem(o, ix, t, forstore=True)
            self.store(view, v, t)
        else:
            raise Undecided("target")

    def store(self, view, v, node):
        """view[...] = v"""
        if view.ro:
            raise Undecided("write through a derived view")
        v = self.dense(v) if isinstance(v, Obj) else v
        if not isinstance(v, Arr):
            v = self.toarr(v)
        b = view.buf
        if b.owner:
            self.writes.append((b.owner, node))
        idx = [tuple(b.vs[p]) for p in view.perm]
        ax = view.axes
        new = self.broadcast(v, ax, idx)
        if not b.dt.covers(v.dt):
            raise Raised("type: %r stored into an array of type %r" % (v.dt, b.dt), node)
        msk = None
        for (p, k), S in view.subset.items():
            f = Ex.atom(("in", S, b.vs[p][k]))
            msk = f if msk is None else msk.mul(f)
        if getattr(view, "mask", None) is not None:
            f = view.mask
            msk = f if msk is None else msk.mul(f)
        if msk is None:
            b.ex = norm(new)
        else:
            b.ex = norm(b.ex.mul(Ex.c(1) - msk) + new.mul(msk))

    def broadcast(self, v, axes, idx):
        if v.ndim > len(axes):
            if all(a == (1,) for a in v.axes[:v.ndim - len(axes)]):
                pass
            raise Raised("ValueError")
        off = len(axes) - v.ndim
        ii = []
        for k in range(v.ndim):
            a, b = v.axes[k], axes[off + k]
            if a == b:
                ii.append(idx[off + k])
            elif a == (1,):
                ii.append(("zero",))
            elif len(a) == len(b) == 1 and _simp(_dimval(a[0])) == _simp(_dimval(b[0])):
                raise Undecided("two index sets of the same size")
            else:
                raise mismatch(a, b)
        return v.val(ii)

    # ---------------------------------------------------------- expressions
    def truth(self, v, node=None):
        if isinstance(v, bool) or v is None or isinstance(v, (int, Fraction, str, tuple, list, dict)):
            return bool(v)
        if isinstance(v, Obj):
            return True
        if isinstance(v, Poly):
            c = v.cval()
            if c is not None:
                return bool(c)
        raise Undecided("condition %s" % (ast.unparse(node) if node is not None else v))

    def conc(self, v):
        if isinstance(v, Poly):
            c = v.cval()
            if c is None:
                raise Undecided("symbolic index")
            return int(c)
        if isinstance(v, (int, str)):
            return v
        raise Undecided("index")

    def ev(self, n, env, m):
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
                return v
            if isinstance(v, float):
                return Fraction(v) if v == v and abs(v) < 1e300 else v
            if isinstance(v, complex):
                return scal(Ex.c(Fraction(v.real)) + Ex.atom(("I",)).mul(Ex.c(Fraction(v.imag))), DT(["c16"]), py=True)
            if v is Ellipsis:
                return _ELL
            raise Undecided("constant")
        if isinstance(n, ast.Name):
            return self.name(n.id, env, m, n)
        if isinstance(n, ast.Attribute):
            return self.attr(self.ev(n.value, env, m), n.attr, n)
        if isinstance(n, ast.Tuple):
            return tuple(self.seq(n.elts, env, m))
        if isinstance(n, ast.List):
            return list(self.seq(n.elts, env, m))
        if isinstance(n, ast.Call):
            f = self.ev(n.func, env, m)
            args = self.seq(n.args, env, m)
            kw = {}
            for k in n.keywords:
                v = self.ev(k.value, env, m)
                if k.arg is None:
                    if not isinstance(v, dict):
                        raise Undecided("**")
                    kw.update(v)
                else:
                    kw[k.arg] = v
            if isinstance(f, str) and f.startswith("builtin:"):
                return self.builtin(f[8:], args, kw, n)
            if isinstance(f, _Closure):
                f.node._mod = m
                e2 = dict(f.env)
                for a, v in zip(f.node.args.args, args):
                    e2[a.arg] = v
                e2.update(kw)
                try:
                    if isinstance(f.node, ast.Lambda):
                        return self.ev(f.node.body, e2, m)
                    self.block(f.node.body, e2, m)
                except Ret as r:
                    return r.v
                return None
            return self.call(f, args, kw, n)
        if isinstance(n, ast.Lambda):
            return _Closure(n, env)
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left, env, m), self.ev(n.right, env, m), n)
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env, m)
            if isinstance(n.op, ast.Not):
                return not self.truth(v, n.operand)
            if isinstance(n.op, ast.USub):
                if isinstance(v, (int, Fraction, Poly)):
                    return -v
                return self.binop(ast.Mult(), v, -1, n)
            if isinstance(n.op, ast.Invert):
                return self.invert(v)
            return v
        if isinstance(n, ast.BoolOp):
            r = None
            for x in n.values:
                r = self.ev(x, env, m)
                t = self.truth(r, x)
                if isinstance(n.op, ast.And) and not t:
                    return r
                if isinstance(n.op, ast.Or) and t:
                    return r
            return r
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env, m), n.test) else n.orelse, env, m)
        if isinstance(n, ast.Compare):
            l = self.ev(n.left, env, m)
            for op, c in zip(n.ops, n.comparators):
                r = self.ev(c, env, m)
                v = self.compare(op, l, r, n)
                if len(n.ops) == 1:
                    return v
                if not self.truth(v, n):
                    return False
                l = r
            return True
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value, env, m)
            if isinstance(o, (tuple, list, dict, str)):
                if isinstance(n.slice, ast.Slice):
                    g = [None if x is None else self.conc(self.ev(x, env, m)) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                    return o[slice(*g)]
                k = self.ev(n.slice, env, m)
                try:
                    return o[self.conc(k)]
                except (IndexError, KeyError):
                    raise Raised("IndexError", n)
            if isinstance(o, Arr):
                return self.getitem(o, self.index(n.slice, env, m), n)
            if isinstance(o, Obj) and "__getitem__" in o.cls._methods:
                return self.run(o.cls._methods["__getitem__"], [o, self.ev(n.slice, env, m)], {})
            raise Undecided("subscript")
        if isinstance(n, ast.Dict):
            return {self.ev(k, env, m): self.ev(v, env, m) for k, v in zip(n.keys, n.values) if k is not None}
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            out = []

            def rec(gs, e):
                if not gs:
                    out.append(self.ev(n.elt, e, m))
                    return
                it = self.ev(gs[0].iter, e, m)
                if not isinstance(it, (list, tuple, range)):
                    raise Undecided("comprehension")
                for x in it:
                    e2 = dict(e)
                    self.assign(gs[0].target, x, e2, m)
                    if all(self.truth(self.ev(c, e2, m), c) for c in gs[0].ifs):
                        rec(gs[1:], e2)
            rec(n.generators, env)
            return out
        if isinstance(n, ast.JoinedStr):
            return "text"
        if isinstance(n, ast.Starred):
            raise Undecided("starred")
        raise Undecided(type(n).__name__)

    def seq(self, elts, env, m):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env, m)
                if not isinstance(v, (tuple, list)):
                    raise Undecided("starred")
                out.extend(v)
            else:
                out.append(self.ev(e, env, m))
        return out

    BUILT = {"isinstance", "len", "hasattr", "getattr", "range", "max", "min", "abs", "sum", "int", "float", "complex", "print", "type",
             "tuple", "list", "zip", "reversed", "enumerate", "issubclass", "callable", "bool", "pow", "map", "slice", "str", "repr"}

    def name(self, s, env, m, n):
        if s in env:
            return env[s]
        r = self.prog.resolve_name(m, s)
        if isinstance(r, (ast.FunctionDef, ast.ClassDef)):
            return r
        if isinstance(r, tuple):
            if r[0] == "lib":
                return Lib(r[1])
            if r[0] == "pkgmod":
                return r[1]
            if r[0] == "const":
                return self.ev(r[1], {}, m)
        if s == "NotImplemented":
            return NOTIMPL
        if s in self.BUILT:
            return "builtin:" + s
        if s in ("float", "complex"):
            return Lib("numpy.float64" if s == "float" else "numpy.complex128")
        if s in ("ValueError", "TypeError", "Exception", "BaseException", "AttributeError"):
            return Lib("exc." + s)
        raise Undecided("name " + s)

    def builtin(self, f, args, kw, n):
        if f == "isinstance":
            o, c = args
            cs = c if isinstance(c, tuple) else (c,)
            for k in cs:
                if isinstance(k, ast.ClassDef):
                    if isinstance(o, Obj) and o.cls is k:
                        return True
                elif isinstance(k, Lib):
                    if k.l == "ndarray" and isinstance(o, Arr) and not o.py:
                        return True
                elif isinstance(k, str):
                    k2 = k[8:]
                    if k2 in ("int", "float", "complex") and ((isinstance(o, Arr) and o.py) or isinstance(o, (int, Fraction))):
                        return True
                    if k2 in ("tuple", "list") and isinstance(o, (tuple, list)):
                        return type(o).__name__ == k2
                else:
                    raise Undecided("isinstance")
            return False
        if f == "len":
            if isinstance(args[0], (tuple, list, dict)):
                return len(args[0])
            if isinstance(args[0], Arr):
                return args[0].shape()[0]
            raise Undecided("len")
        if f == "hasattr":
            try:
                self.attr(args[0], args[1], n)
                return True
            except Raised:
                return False
        if f == "getattr":
            try:
                return self.attr(args[0], args[1], n)
            except Raised:
                if len(args) > 2:
                    return args[2]
                raise
        if f == "range":
            return range(*[self.conc(a) for a in args])
        if f in ("tuple", "list"):
            if not args:
                return () if f == "tuple" else []
            if isinstance(args[0], (tuple, list, range)):
                return tuple(args[0]) if f == "tuple" else list(args[0])
        if f == "zip":
            return list(zip(*args))
        if f == "reversed":
            return list(reversed(args[0]))
        if f == "enumerate":
            return list(enumerate(args[0]))
        if f == "sum" and len(args) == 1 and isinstance(args[0], Arr):
            return self.meth(args[0], "sum", [], {}, n)
        if f == "abs":
            return self.fn1("abs", args[0])
        if f in ("max", "min"):
            return Opaque(f, [_k(a) for a in args])
        if f == "type":
            if isinstance(args[0], Obj):
                return args[0].cls
        if f in ("int", "float") and isinstance(args[0], (int, Poly, Fraction)):
            return args[0]
        if f == "complex":
            return args[0]
        if f == "callable":
            return isinstance(args[0], (Fn, Meth, Lib, ast.FunctionDef))
        if f in ("print",):
            return None
        if f == "map":
            return [self.call(args[0], [x], {}, n) for x in args[1]]
        raise Undecided("builtin " + f)

    def attr(self, o, a, n):
        if isinstance(o, Lib):
            if a == "newaxis":
                return None
            return Lib(o.d + "." + a)
        if hasattr(o, "tree") and hasattr(o, "funcs"):       # ModInfo
            r = self.prog.resolve_name(o, a)
            if isinstance(r, (ast.FunctionDef, ast.ClassDef)):
                return r
            if isinstance(r, tuple) and r[0] == "lib":
                return Lib(r[1])
            raise Undecided("module attribute " + a)
        if isinstance(o, Obj):
            if a in o.at:
                return o.at[a]
            if a in o.cls._methods:
                f = o.cls._methods[a]
                deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
                if "property" in deco:
                    return self.run(f, [o], {})
                return Fn(f, o)
            for s in o.cls.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in s.targets):
                    v = self.ev(s.value, {x: f for x, f in o.cls._methods.items()}, o.cls._mod)
                    return Fn(v, o) if isinstance(v, ast.FunctionDef) else v
            if a == "__class__":
                return o.cls
            g = o.cls._methods.get("__getattr__")
            if g is not None:
                return self.run(g, [o, a], {})
            raise Raised("AttributeError", n)
        if isinstance(o, Arr):
            if a == "shape":
                return o.shape()
            if a == "ndim":
                return o.ndim
            if a == "dtype":
                return o.dt
            if a == "size":
                r = aspoly(1)
                for d in o.shape():
                    r = r * aspoly(d)
                return r
            if a == "T":
                return Arr(o.buf, o.perm[::-1], o.subset, ro=o.ro)
            if a == "real":
                if all(_isre(f) for f, b, c in o.buf.ex.t):
                    return o
                return self.fn1("re", o)
            if a in ("conj", "conjugate", "transpose", "dot", "ravel", "flatten", "reshape", "diagonal", "trace", "sum", "copy",
                     "astype", "swapaxes", "fill", "min", "max", "tolist", "squeeze", "view", "__array__", "__mul__", "__rmul__",
                     "__add__", "__radd__", "__sub__", "__rsub__", "__matmul__", "all", "any"):
                return Meth(o, a)
            raise Raised("AttributeError", n)
        if isinstance(o, (int, Fraction, Poly)):
            if a in ("real",):
                return o
            raise Raised("AttributeError", n)
        if isinstance(o, DT):
            if a in ("type",):
                return o
            raise Undecided("dtype." + a)
        if isinstance(o, (str, tuple, list, dict)) or o is None:
            if isinstance(o, list) and a in ("append", "extend", "reverse", "insert"):
                return Meth(o, a)
            if isinstance(o, str):
                raise Undecided("str method")
            raise Raised("AttributeError", n)
        if isinstance(o, ast.ClassDef):
            if a in o._methods:
                return o._methods[a]
            if a in ("__name__",):
                return o.name
        raise Undecided("attribute " + a)

    # -- arrays
    def dense(self, o):
        if isinstance(o, Arr):
            return o
        if isinstance(o, Obj):
            f = o.cls._methods.get("__array__")
            if f is None:
                raise Undecided("object array")
            r = self.run(f, [o], {})
            if isinstance(r, Obj):
                raise Raised("ValueError")
            return r
        return self.toarr(o)

    def toarr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, bool):
            return scal(Ex.c(int(v)), DT(["bool"]), py=True)
        if isinstance(v, (int, Fraction)):
            return scal(Ex.c(v), INT, py=True)
        if isinstance(v, Poly):
            e = Ex()
            for mo, c in v.d.items():
                t = Ex.c(c)
                for s in mo:
                    t = t.mul(Ex.atom(("dim", s)))
                e = e + t
            return scal(e, INT, py=True)
        if isinstance(v, Opaque):
            return scal(Ex.atom(("op", v.k)), INT, py=True)
        if isinstance(v, float):
            return scal(Ex.atom(("op", repr(v))), F8, py=True)
        if v is None:
            raise Raised("TypeError")
        raise Undecided("array of %r" % (v,))

    def binop(self, op, l, r, n):
        num = (int, Fraction, Poly)
        if isinstance(l, num) and isinstance(r, num):
            if isinstance(op, ast.Add):
                return l + r
            if isinstance(op, ast.Sub):
                return l - r
            if isinstance(op, ast.Mult):
                return l * r
            if isinstance(op, ast.Div) and not isinstance(l, Poly) and not isinstance(r, Poly):
                return Fraction(l) / r
            if isinstance(op, ast.Pow) and isinstance(r, int) and not isinstance(l, Poly):
                return l ** r
            if isinstance(op, ast.Mod) and isinstance(l, int) and isinstance(r, int):
                return l % r
            if isinstance(op, ast.FloorDiv) and isinstance(l, int) and isinstance(r, int):
                return l // r
            raise Undecided("arithmetic")
        if isinstance(l, (tuple, list)) and isinstance(r, (tuple, list)) and isinstance(op, ast.Add):
            return l + r
        if isinstance(l, tuple) and isinstance(r, int):
            return l * r
        if isinstance(l, str):
            return "text"
        OPN = {ast.Mult: "mul", ast.Add: "add", ast.Sub: "sub", ast.Div: "truediv", ast.Pow: "pow", ast.MatMult: "matmul"}.get(type(op))
        if isinstance(l, Obj):
            f = l.cls._methods.get("__%s__" % OPN)
            if f is not None:
                v = self.run(f, [l, r], {})
                if v is not NOTIMPL:
                    return v
            if isinstance(r, Obj) and r.cls is not l.cls:
                f = r.cls._methods.get("__r%s__" % OPN)
                if f is not None:
                    v = self.run(f, [r, l], {})
                    if v is not NOTIMPL:
                        return v
            raise Raised("TypeError", n)
        if isinstance(r, Obj):
            f = r.cls._methods.get("__r%s__" % OPN)
            if f is not None:
                v = self.run(f, [r, l], {})
                if v is not NOTIMPL:
                    return v
            raise Raised("TypeError", n)
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            if not (isinstance(l, Arr) and l.ndim) and not (isinstance(r, Arr) and r.ndim):
                return Opaque(OPN or "op", [_k(l), _k(r)])
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            raise Undecided("bit operation")
        if OPN is None:
            raise Undecided("operator")
        a, b = self.toarr(l), self.toarr(r)
        if OPN == "matmul":
            return self.dot(a, b)
        if OPN == "pow":
            p = r if isinstance(r, (int, Fraction)) else None
            if p is None:
                raise Undecided("power")
            return self.powr(a, p)
        if OPN == "truediv":
            b = self.powr(b, -1)
            OPN = "mul"
        return self.elem(OPN, a, b)

    def elem(self, o, a, b):
        n = max(a.ndim, b.ndim)
        axes = []
        for k in range(n):
            x = a.axes[k - n + a.ndim] if k - n + a.ndim >= 0 else None
            y = b.axes[k - n + b.ndim] if k - n + b.ndim >= 0 else None
            if x is None or x == (1,):
                axes.append(y if y is not None else x)
            elif y is None or y == (1,) or x == y:
                axes.append(x)
            else:
                raise mismatch(x, y)
        dt = a.dt | b.dt
        if a.py and not b.py and a.dt in (INT, F8):
            dt = b.dt
        elif b.py and not a.py and b.dt in (INT, F8):
            dt = a.dt

        def val(vs):
            u, v = self.broadcast(a, axes, vs), self.broadcast(b, axes, vs)
            return u.mul(v) if o == "mul" else u + v if o == "add" else u - v
        r = mk(axes, val, dt)
        r.py = a.py and b.py
        return r

    def powr(self, a, p):
        p = Fraction(p)

        def one(vs):
            e = norm(a.val(vs))
            if len(e.t) != 1:
                if p.denominator == 1 and p > 0 and p <= 4:
                    r = e
                    for _ in range(int(p) - 1):
                        r = r.mul(e)
                    return r
                raise Undecided("power of a sum")
            f, b, c = e.t[0]
            if b or any(x[0] == "d" for x, _ in f) and p < 0:
                raise Undecided("power of a sum")
            if any(x[0] == "in" for x, _ in f) and p < 0:
                raise Raised("ZeroDivisionError: reciprocal of entries that were set to zero")
            if c != 1:
                if p.denominator != 1:
                    if c > 0:
                        g = [(("rt", c), p)]
                        c = Fraction(1)
                    else:
                        raise Undecided("root of a negative constant")
                else:
                    g, c = [], c ** int(p)
            else:
                g = []
            return Ex([(tuple((x, q if x[0] in ("d", "in") else q * p) for x, q in f) + tuple(g), b, c)])
        return mk(a.axes, one, a.dt)

    def fn1(self, name, v):
        if isinstance(v, (int, Fraction)) and name == "abs":
            return abs(v)
        a = self.dense(v)
        if name == "sqrt":
            return self.powr(a, Fraction(1, 2))
        if name == "npsqrt":
            # real negative entries become nan instead of imaginary
            def one(vs):
                e = norm(a.val(vs))
                if len(e.t) != 1 or e.t[0][2] != 1 or e.t[0][1]:
                    raise Undecided("root of a sum")
                return Ex([(tuple((("f", "npsqrt", x), q) if x[0] == "el" else (x, q / 2) for x, q in e.t[0][0]), frozenset(), Fraction(1))])
            return mk(a.axes, one, a.dt)

        def one(vs):
            e = norm(a.val(vs))
            if len(e.t) != 1 or e.t[0][1]:
                raise Undecided("%s of a sum" % name)
            f, b, c = e.t[0]
            return Ex([(tuple((("f", name, x), q) if x[0] == "el" else (x, q) for x, q in f), b, abs(c) if name == "abs" else c)])
        return mk(a.axes, one, DT([("re", x) for x in a.dt.n if not isinstance(x, tuple)]) if name in ("abs", "re") else a.dt)

    def invert(self, v):
        if isinstance(v, Arr):
            return mk(v.axes, lambda vs: Ex.c(1) - v.val(vs), DT(["bool"]))
        raise Undecided("~")

    def setof(self, mask):
        """boolean array -> (set, positive) when it is one indicator"""
        if mask.ndim != 1 or len(mask.axes[0]) != 1:
            return None
        v = fresh()
        e = norm(mask.val([(v,)]))
        d = {}
        for f, b, c in e.t:
            d[f] = d.get(f, 0) + c
        d = {k: c for k, c in d.items() if c}
        ins = [k for k in d if len(k) == 1 and k[0][0][0] == "in" and k[0][0][2] == v]
        if len(d) == 1 and len(ins) == 1 and d[ins[0]] == 1:
            return ins[0][0][0][1]
        if len(d) == 2 and len(ins) == 1 and d[ins[0]] == -1 and d.get(()) == 1:
            return ("not", ins[0][0][0][1])
        return None

    def index(self, s, env, m):
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for p in parts:
            if isinstance(p, ast.Slice):
                lo = None if p.lower is None else self.ev(p.lower, env, m)
                hi = None if p.upper is None else self.ev(p.upper, env, m)
                st = None if p.step is None else self.ev(p.step, env, m)
                out.append(("slice", lo, hi, st, isinstance(p.lower, ast.UnaryOp), isinstance(p.upper, ast.UnaryOp)))
            else:
                out.append(self.ev(p, env, m))
        return out

    def getitem(self, o, ix, node, forstore=False):
        if any(i is _ELL for i in ix):
            k = [i is _ELL for i in ix].index(True)
            n = o.ndim - sum(1 for i in ix if i is not None and i is not _ELL)
            ix = ix[:k] + [("slice", None, None, None, False, False)] * n + ix[k + 1:]
        perm, subset, newax, drop = [], dict(o.subset), [], {}
        pos = 0
        mask = None
        for i in ix:
            if i is None:
                newax.append(len(perm))
                perm.append(None)
                continue
            if pos >= o.ndim:
                raise Raised("IndexError", node)
            p = o.perm[pos]
            ax = o.buf.axes[p]
            if isinstance(i, tuple) and i and i[0] == "slice":
                _, lo, hi, st, nlo, nhi = i
                if st is not None and not (lo is None and hi is None and st == 1):
                    raise Undecided("strided slice")
                if lo in (None, 0) and hi is None:
                    pass
                else:
                    if len(ax) != 1:
                        raise Undecided("slice of a flattened axis")
                    S = self.rng(o, p, ax[0], lo, hi, nlo, nhi)
                    if S is not None:
                        if (p, 0) in subset:
                            raise Undecided("slice of a slice")
                        subset[(p, 0)] = S
                perm.append(p)
            elif isinstance(i, Arr) and i.dt == DT(["bool"]):
                if i.ndim == o.ndim and i.ndim > 1:
                    raise Undecided("mask of a matrix")
                S = self.setof(i)
                if S is None:
                    raise Undecided("mask")
                if i.axes[0] != o.axes[pos]:
                    raise Raised("IndexError", node)
                subset[(p, 0)] = S
                perm.append(p)
            elif isinstance(i, (int, Poly)):
                drop[p] = i
            else:
                raise Undecided("fancy index")
            pos += 1
        perm += list(o.perm[pos:])
        if not newax and not drop:
            return Arr(o.buf, perm, subset, ro=o.ro)
        if forstore:
            raise Undecided("store to a derived view")
        if drop:
            if any(len(o.buf.axes[p]) != 1 for p in drop):
                raise Undecided("index of a flattened axis")
            base = Arr(o.buf, o.perm, subset)
            keep = [p for p in perm if p is not None]
            axes = [(1,) if p is None else base.axes[o.perm.index(p)] for p in perm]

            def val(vs):
                full = []
                for p in o.perm:
                    full.append((("#%s" % (drop[p],)),) if p in drop else vs[perm.index(p)])
                return base.val(full)
            r = mk(axes, val, o.dt)
            r.ro = True
            return r
        base = Arr(o.buf, [p for p in perm if p is not None], subset)
        it = iter(base.axes)
        axes = [(1,) if p is None else next(it) for p in perm]
        r = mk(axes, lambda vs: base.val([v for v, p in zip(vs, perm) if p is not None]), o.dt)
        r.ro = True
        return r

    def rng(self, o, p, d, lo, hi, nlo, nhi):
        D = _dimval(d)

        def end(x, neg):
            if x is None:
                return None
            if not isinstance(x, (int, Poly)):
                raise Undecided("slice bound")
            q = aspoly(x)
            if q.cval() is not None:
                return q if q.cval() >= 0 else D + q
            if neg:
                if any(isinstance(s, tuple) and s[0] == "card" for s in q.syms()):
                    return Poly.sym(("neg0", repr(q)))     # -0 selects everything
                return D + q
            return q
        lo2, hi2 = end(lo, nlo), end(hi, nhi)
        if lo2 is None:
            lo2 = aspoly(0)
        if hi2 is not None and hi2 == D:
            hi2 = None
        if lo2 == aspoly(0) and hi2 is None:
            return None
        # ascending eigenvalues: the first card(ev<=tol) entries are exactly those below
        for q, full in ((lo2, hi2 is None), (hi2, lo2 == aspoly(0))):
            if q is None or not full:
                continue
            if len(q.d) == 1 and list(q.d.values()) == [1]:
                (s,), = q.d.keys() if len(list(q.d)[0]) == 1 else [((),)]
                if isinstance(s, tuple) and s and s[0] == "card" and s[1][0] == "le" and s[1][1] in ASC:
                    return ("not", s[1]) if q is lo2 else s[1]
        return ("rng", lo2, hi2)

    def compare(self, op, l, r, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            v = (l is r) or (l is None and r is None)
            if isinstance(l, Arr) and isinstance(r, Arr):
                v = l is r or (l.buf is r.buf and l.perm == r.perm and l.subset == r.subset and l.ndim == 0)
            return v if isinstance(op, ast.Is) else not v
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r, (tuple, list, dict, set)):
                v = any(x is l or (not isinstance(x, Arr) and not isinstance(l, Arr) and x == l) for x in r)
                return v if isinstance(op, ast.In) else not v
            raise Undecided("in")
        if isinstance(l, Arr) and not l.py and l.ndim or isinstance(r, Arr) and not r.py and r.ndim:
            if isinstance(op, (ast.Eq, ast.NotEq)):
                raise Undecided("array equality")
            flip = not (isinstance(l, Arr) and l.ndim)
            a, t = (r, l) if flip else (l, r)
            nm = {ast.LtE: "le", ast.Lt: "lt", ast.GtE: "ge", ast.Gt: "gt"}[type(op)]
            if flip:
                nm = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt"}[nm]
            if a.ndim != 1 or len(a.axes[0]) != 1 or isinstance(t, (Arr,)) and t.ndim:
                raise Undecided("comparison")
            v = fresh()
            e = norm(a.val([(v,)]))
            if len(e.t) != 1 or e.t[0][1] or e.t[0][2] != 1 or len(e.t[0][0]) != 1 or e.t[0][0][0][1] != 1:
                raise Undecided("comparison of an expression")
            at = e.t[0][0][0][0]
            key = at[1] if at[0] == "el" else repr(_sub(at, {v: "#"}))
            tk = _k(t)
            if nm in ("gt", "ge"):
                base = ("le" if nm == "gt" else "lt", key, tk)
                return mk(a.axes, lambda vs: Ex.c(1) - Ex.atom(("in", base, vs[0][0])), DT(["bool"]))
            return mk(a.axes, lambda vs: Ex.atom(("in", (nm, key, tk), vs[0][0])), DT(["bool"]))
        if isinstance(op, ast.Eq) or isinstance(op, ast.NotEq):
            v = _eq(l, r)
            return v if isinstance(op, ast.Eq) else not v
        if isinstance(l, (int, Fraction, Poly)) and isinstance(r, (int, Fraction, Poly)):
            d = aspoly(l) - aspoly(r) if isinstance(l, Poly) or isinstance(r, Poly) else None
            if d is None:
                c = l - r
            else:
                c = d.cval()
                if c is None:
                    raise Undecided("ordering of sizes")
            return {ast.Lt: c < 0, ast.LtE: c <= 0, ast.Gt: c > 0, ast.GtE: c >= 0}[type(op)]
        raise Undecided("comparison %s" % ast.unparse(n))

    def dot(self, a, b):
        a, b = self.dense(a), self.dense(b)
        if a.ndim == 0 or b.ndim == 0:
            return self.elem("mul", a, b)
        return self.tensordot(a, b, [a.ndim - 1], [b.ndim - 2 if b.ndim > 1 else 0])

    def tensordot(self, a, b, ia, ib):
        for x, y in zip(ia, ib):
            if a.axes[x] != b.axes[y]:
                raise mismatch(a.axes[x], b.axes[y])
        fa = [k for k in range(a.ndim) if k not in ia]
        fb = [k for k in range(b.ndim) if k not in ib]
        axes = [a.axes[k] for k in fa] + [b.axes[k] for k in fb]

        def val(vs):
            sa, sb = [None] * a.ndim, [None] * b.ndim
            for k, v in zip(fa, vs[:len(fa)]):
                sa[k] = v
            for k, v in zip(fb, vs[len(fa):]):
                sb[k] = v
            bound, dims, ins = [], {}, Ex.c(1)
            for x, y in zip(ia, ib):
                vv = tuple(fresh() for _ in a.axes[x])
                for v, d in zip(vv, a.axes[x]):
                    while isinstance(d, tuple) and d[0] == "sub":
                        ins = ins.mul(Ex.atom(("in", d[2], v)))
                        d = d[1]
                    dims[v] = d
                sa[x] = sb[y] = vv
                bound += list(vv)
            return a.val(sa).mul(b.val(sb)).mul(ins).bind(bound, dims)
        return mk(axes, val, a.dt | b.dt)

    def einsum(self, spec, ops):
        spec = spec.replace(" ", "")
        if "." in spec:
            raise Undecided("einsum ellipsis")
        ins, _, out = spec.partition("->")
        ins = ins.split(",")
        if "->" not in spec:
            s = "".join(ins)
            out = "".join(sorted(c for c in set(s) if s.count(c) == 1))
        dims = {}
        dt = ops[0].dt
        for o, s in zip(ops, ins):
            dt = dt | o.dt
            for c, ax in zip(s, o.axes):
                if dims.setdefault(c, ax) != ax:
                    raise Raised("ValueError: contraction of different ranges")

        def val(vs):
            m = {c: v for c, v in zip(out, vs)}
            bound, bd = [], {}
            for c in dims:
                if c not in m:
                    m[c] = tuple(fresh() for _ in dims[c])
                    for v, d in zip(m[c], dims[c]):
                        bd[v] = d
                    bound += list(m[c])
            e = Ex.c(1)
            for o, s in zip(ops, ins):
                e = e.mul(o.val([m[c] for c in s]))
            return e.bind(bound, bd)
        return mk([dims[c] for c in out], val, dt)

    def sumax(self, a, axis):
        axs = list(range(a.ndim)) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
        keep = [k for k in range(a.ndim) if k not in axs]

        def val(vs):
            full = [None] * a.ndim
            for k, v in zip(keep, vs):
                full[k] = v
            bound, bd, ins = [], {}, Ex.c(1)
            for k in axs:
                full[k] = tuple(fresh() for _ in a.axes[k])
                for v, d in zip(full[k], a.axes[k]):
                    while isinstance(d, tuple) and d[0] == "sub":
                        ins = ins.mul(Ex.atom(("in", d[2], v)))
                        d = d[1]
                    bd[v] = d
                bound += list(full[k])
            return a.val(full).mul(ins).bind(bound, bd)
        return mk([a.axes[k] for k in keep], val, a.dt)

    def meth(self, o, name, args, kw, n):
        if isinstance(o, list):
            getattr(o, name)(*args)
            return None
        if name in ("conj", "conjugate"):
            return mk(o.axes, lambda vs: o.val(vs).conj(), o.dt)
        if name == "transpose":
            ax = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
            if not ax or ax == (None,):
                return Arr(o.buf, o.perm[::-1], o.subset, ro=o.ro)
            return Arr(o.buf, [o.perm[self.conc(k)] for k in ax], o.subset, ro=o.ro)
        if name == "swapaxes":
            p = list(o.perm)
            p[args[0]], p[args[1]] = p[args[1]], p[args[0]]
            return Arr(o.buf, p, o.subset, ro=o.ro)
        if name == "dot":
            r = self.dot(o, args[0])
            if len(args) > 1 or "out" in kw:
                out = args[1] if len(args) > 1 else kw["out"]
                self.store(out, r, n)
                return out
            return r
        if name == "__matmul__":
            return self.dot(o, args[0])
        if name in ("__mul__", "__rmul__", "__add__", "__radd__", "__sub__"):
            return self.elem({"__mul__": "mul", "__rmul__": "mul", "__add__": "add", "__radd__": "add", "__sub__": "sub"}[name], o, self.dense(args[0]))
        if name == "__rsub__":
            return self.elem("sub", self.dense(args[0]), o)
        if name in ("ravel", "flatten") or name == "reshape" and (args in ([-1], [(-1,)])):
            order = (args[0] if args and name != "reshape" else kw.get("order", "C"))
            if order not in ("C", "F"):
                raise Undecided("order")
            ks = list(range(o.ndim))
            if order == "F":
                ks = ks[::-1]
            axes = [sum((o.axes[k] for k in ks), ())]

            def val(vs):
                full, p = [None] * o.ndim, 0
                for k in ks:
                    w = len(o.axes[k])
                    full[k] = vs[0][p:p + w]
                    p += w
                return o.val(full)
            r = mk(axes, val, o.dt, owner=None)
            if name == "ravel":
                r.ro = True
            return r
        if name == "reshape":
            raise Undecided("reshape")
        if name == "diagonal":
            off = args[0] if args else kw.get("offset", 0)
            if off != 0 or o.ndim != 2:
                raise Undecided("diagonal offset")
            if o.axes[0] != o.axes[1]:
                raise Undecided("diagonal of a rectangle")
            r = mk([o.axes[0]], lambda vs: o.val([vs[0], vs[0]]), o.dt)
            r.ro = True
            return r
        if name == "trace":
            off = args[0] if args else kw.get("offset", 0)
            if off != 0 or o.ndim != 2 or o.axes[0] != o.axes[1]:
                raise Undecided("trace")
            return self.einsum("ii->", [o])
        if name == "sum":
            r = self.sumax(o, args[0] if args else kw.get("axis"))
            if o.dt == DT(["bool"]) and r.ndim == 0:
                return self.count(o)
            return r
        if name in ("copy", "__array__"):
            return mk(o.axes, o.val, o.dt)
        if name == "astype":
            dt = self.dtv(args[0] if args else kw["dtype"])
            if not dt.covers(o.dt):
                raise Raised("type: conversion of %r to %r" % (o.dt, dt), n)
            return mk(o.axes, o.val, dt)
        if name == "fill":
            self.store(o, args[0], n)
            return None
        if name in ("min", "max"):
            return Opaque(name, ["?"])
        if name == "view":
            return o
        raise Undecided("method " + name)

    def count(self, mask):
        S = self.setof(mask)
        if S is None:
            raise Undecided("count")
        D = _dimval(mask.axes[0][0])
        if S[0] == "not":
            return D - Poly.sym(("card", S[1]))
        return Poly.sym(("card", S))

    def dtv(self, d):
        if isinstance(d, DT):
            return d
        if isinstance(d, Lib):
            if d.l in ("float64", "float_", "double", "float"):
                return F8
            if d.l in ("complex128", "complex_", "complex"):
                return DT(["c16"])
            if d.l in ("int_", "int64", "intp", "int"):
                return INT
            if d.l in ("bool_", "bool"):
                return DT(["bool"])
        if isinstance(d, str):
            d = d.replace("builtin:", "")
            if d in ("float",):
                return F8
            if d in ("complex",):
                return DT(["c16"])
            if d == "int":
                return INT
        if d is None:
            return None
        raise Undecided("dtype %r" % (d,))

    def dims(self, s):
        if isinstance(s, (tuple, list)):
            return [self.dimof(x) for x in s]
        return [self.dimof(s)]

    def dimof(self, x):
        if isinstance(x, int):
            return x
        if isinstance(x, Poly):
            if len(x.d) == 1 and list(x.d.values()) == [1] and len(list(x.d)[0]) == 1:
                s = list(x.d)[0][0]
                if isinstance(s, str):
                    return s
            return ("size", repr(x))
        raise Undecided("shape")

    def lib(self, f, args, kw, n):
        l, d = f.l, f.d
        root = d.split(".")[0]
        if root in ("warnings", "logging") or ".log" in "." + d and l in ("warning", "info", "debug", "error"):
            return None
        if root == "exc":
            return Lib(d)
        if l in ("seterr",):
            return {"divide": "warn", "invalid": "warn", "over": "warn", "under": "ignore", "all": "warn"}
        if l == "errstate":
            return None
        if l in ("isscalar",):
            v = args[0]
            return isinstance(v, (int, Fraction, Poly)) or (isinstance(v, Arr) and v.py)
        if l in ("eye", "identity"):
            D = self.dimof(args[0])
            if len(args) > 1 and l == "eye" and args[1] is not None:
                raise Undecided("rectangular eye")
            if kw.get("k", 0) != 0:
                raise Undecided("eye k")
            dt = self.dtv(kw.get("dtype")) or F8
            return mk([(D,), (D,)], lambda vs: Ex.atom(("d",) + tuple(sorted((vs[0][0], vs[1][0])))), dt)
        if l in ("ones", "zeros", "empty", "full"):
            ds = self.dims(args[0])
            k = 2 if l == "full" else 1
            dt = self.dtv(kw.get("dtype", args[k] if len(args) > k else None)) or F8
            if l == "full":
                v = self.toarr(args[1] if len(args) > 1 else kw["fill_value"])
                return mk([(x,) for x in ds], lambda vs: v.val([]), dt)
            e = Ex.c(1) if l == "ones" else Ex.c(0) if l == "zeros" else Ex.atom(("uninitialised", fresh()))
            return mk([(x,) for x in ds], lambda vs: e, dt)
        if l in ("ones_like", "zeros_like", "empty_like", "full_like"):
            o = self.dense(args[0])
            dt = self.dtv(kw.get("dtype", args[1] if len(args) > 1 and l != "full_like" else None)) or o.dt
            e = Ex.c(1) if l == "ones_like" else Ex.c(0) if l == "zeros_like" else Ex.atom(("uninitialised", fresh()))
            if l == "full_like":
                e = self.toarr(args[1]).val([])
            return mk(o.axes, lambda vs: e, dt)
        if l in ("asanyarray", "asarray", "array", "ascontiguousarray", "require", "copy", "asfortranarray"):
            v = args[0]
            if isinstance(v, (list, tuple)):
                raise Undecided("array of a list")
            o = self.dense(v)
            dt = self.dtv(kw.get("dtype", args[1] if len(args) > 1 and l != "copy" else None))
            cp = l in ("copy",) or (l == "array" and kw.get("copy", True) is not False)
            if o.py:
                return mk([], o.val, dt or o.dt)
            if dt is not None and dt != o.dt:
                if not dt.covers(o.dt):
                    raise Raised("type: conversion of %r to %r" % (o.dt, dt), n)
                return mk(o.axes, o.val, dt)
            return mk(o.axes, o.val, o.dt) if cp else o
        if l in ("dot", "matmul"):
            a, b = args[:2]
            r = self.dot(a, b)
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if out is not None:
                if not isinstance(out, Arr):
                    raise Raised("TypeError", n)
                self.store(out, r, n)
                return out
            return r
        if l in ("multiply", "add", "subtract", "true_divide", "divide"):
            a, b = self.dense(args[0]), self.dense(args[1])
            if l in ("true_divide", "divide"):
                b, l = self.powr(b, -1), "multiply"
            r = self.elem({"multiply": "mul", "add": "add", "subtract": "sub"}[l], a, b)
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if isinstance(out, tuple):
                out = out[0]
            if out is not None:
                self.store(out, r, n)
                return out
            return r
        if l in ("conj", "conjugate"):
            o = self.dense(args[0])
            r = self.meth(o, "conj", [], {}, n)
            out = kw.get("out", args[1] if len(args) > 1 else None)
            if isinstance(out, tuple):
                out = out[0]
            if out is not None:
                self.store(out, r, n)
                return out
            return r
        if l in ("inner",):
            a, b = self.dense(args[0]), self.dense(args[1])
            if not a.ndim or not b.ndim:
                return self.elem("mul", a, b)
            return self.tensordot(a, b, [a.ndim - 1], [b.ndim - 1])
        if l == "vdot":
            a, b = self.meth(self.meth(self.dense(args[0]), "ravel", [], {}, n), "conj", [], {}, n), self.meth(self.dense(args[1]), "ravel", [], {}, n)
            return self.tensordot(a, b, [0], [0])
        if l == "outer":
            a, b = self.dense(args[0]), self.dense(args[1])
            return self.tensordot(a, b, [], [])
        if l == "tensordot":
            a, b = self.dense(args[0]), self.dense(args[1])
            ax = kw.get("axes", args[2] if len(args) > 2 else 2)
            if isinstance(ax, int):
                ia, ib = list(range(a.ndim - ax, a.ndim)), list(range(ax))
            else:
                ia, ib = [list(x) if isinstance(x, (tuple, list)) else [x] for x in ax]
            return self.tensordot(a, b, [k % a.ndim for k in ia], [k % b.ndim for k in ib])
        if l == "einsum":
            if not isinstance(args[0], str):
                raise Undecided("einsum")
            return self.einsum(args[0], [self.dense(x) for x in args[1:]])
        if l == "diag":
            if len(args) > 1 or kw.get("k", 0) != 0:
                raise Undecided("diag k")
            o = self.dense(args[0])
            if o.ndim == 1:
                ax = o.axes[0]
                if len(ax) != 1:
                    raise Undecided("diag of a flattened axis")
                return mk([ax, ax], lambda vs: o.val([vs[0]]).mul(Ex.atom(("d",) + tuple(sorted((vs[0][0], vs[1][0]))))), o.dt)
            return self.meth(o, "diagonal", [], {}, n)
        if l in ("diagonal", "trace", "ravel", "transpose", "sum", "copy", "swapaxes", "reshape"):
            return self.meth(self.dense(args[0]), l, list(args[1:]), kw, n)
        if l == "sqrt":
            if len(args) > 1 or kw:
                raise Undecided("sqrt options")
            np_ = root in ("numpy", "np") and "emath" not in d and "scimath" not in d
            return self.fn1("npsqrt" if np_ else "sqrt", args[0])
        if l in ("reciprocal",):
            return self.powr(self.dense(args[0]), -1)
        if l in ("power", "float_power"):
            return self.binop(ast.Pow(), args[0], args[1], n)
        if l in ("square",):
            return self.powr(self.dense(args[0]), 2)
        if l in ("abs", "absolute"):
            return self.fn1("abs", args[0])
        if l in ("real", "imag", "exp", "sign"):
            if l == "real":
                return self.attr(self.dense(args[0]), "real", n)
            return self.fn1(l, args[0])
        if l in ("invert", "logical_not"):
            return self.invert(args[0])
        if l == "where" and len(args) == 3:
            c, a, b = args[0], self.toarr(args[1]), self.toarr(args[2])
            ax = c.axes
            return mk(ax, lambda vs: c.val(vs).mul(self.broadcast(a, ax, vs)) + (Ex.c(1) - c.val(vs)).mul(self.broadcast(b, ax, vs)), a.dt | b.dt)
        if l == "count_nonzero":
            return self.count(args[0])
        if l in ("promote_types", "result_type", "find_common_type"):
            r = None
            for x in args:
                x = self.dtv(x) if not isinstance(x, (Arr, Obj)) else (x.dt if isinstance(x, Arr) else self.attr(x, "dtype", n))
                r = x if r is None else r | x
            return r
        if l in ("ndim",):
            return self.dense(args[0]).ndim
        if l in ("shape",):
            return self.attr(args[0], "shape", n)
        if l == "atleast_2d":
            o = self.dense(args[0])
            if o.ndim == 2:
                return o
        if l in ("expand_dims",):
            o = self.dense(args[0])
            k = args[1] if len(args) > 1 else kw["axis"]
            ix = [("slice", None, None, None, False, False)] * o.ndim
            ix.insert(k % (o.ndim + 1), None)
            return self.getitem(o, ix, n)
        if l == "eigh":
            return self.eigh(self.dense(args[0]), kw, args, n)
        if l == "eigvalsh":
            return self.eigh(self.dense(args[0]), kw, args, n)[0]
        if l == "cholesky":
            if "cholesky" in self.fails:
                raise Raised("LinAlgError", n)
            A = self.dense(args[0])
            if kw.get("overwrite_a", args[2] if len(args) > 2 else False) not in (False, None) and A.buf.owner:
                self.writes.append((A.buf.owner, n))
            nm = self.basename(A)
            low = kw.get("lower", args[1] if len(args) > 1 else False)
            if d.startswith("numpy"):
                low = True
            low = self.truth(low)
            x = "chol(%s,%s)" % (nm, low)
            CHOL[x] = (nm, low)
            return named(x, [A.axes[0][0], A.axes[1][0]], A.dt)
        if l == "get_lapack_funcs":
            nm = args[0]
            return [LapackFn(x) for x in nm] if isinstance(nm, (tuple, list)) else LapackFn(nm)
        if l == "solve_triangular" or l == "inv" or l == "pinv" or l == "solve":
            if l == "inv":
                A = self.dense(args[0])
                return self.inverse(A)
            raise Undecided(l)
        if l in ("svd", "qr"):
            A = self.dense(args[0])
            if kw.get("overwrite_a", False) not in (False, None) and A.buf.owner:
                self.writes.append((A.buf.owner, n))
        if l == "svd":
            A = self.dense(args[0])
            nm = self.basename(A)
            full = kw.get("full_matrices", args[1] if len(args) > 1 else True)
            m_, k_ = A.axes[0][0], A.axes[1][0]
            REAL.add("sv(%s)" % nm)
            mn = "min(%s,%s)" % (m_, k_)
            s = named("sv(%s)" % nm, [mn], DT([("re", x) for x in A.dt.n]))
            if kw.get("compute_uv", True) is False:
                return s
            if full:
                UNITARY.update(["u(%s)" % nm, "vh(%s)" % nm])
            return (named("u(%s)" % nm, [m_, m_ if full else mn], A.dt), s, named("vh(%s)" % nm, [k_ if full else mn, k_], A.dt))
        if l == "qr":
            A = self.dense(args[0])
            nm = self.basename(A)
            mode = kw.get("mode", "complete" if d.startswith("numpy") and False else "full" if not d.startswith("numpy") else "reduced")
            m_, k_ = A.axes[0][0], A.axes[1][0]
            if mode in ("full", "complete"):
                return (named("q(%s)" % nm, [m_, m_], A.dt), named("rr(%s)" % nm, [m_, k_], A.dt))
            mn = "min(%s,%s)" % (m_, k_)
            return (named("q(%s)" % nm, [m_, mn], A.dt), named("rr(%s)" % nm, [mn, k_], A.dt))
        if l == "norm":
            return Opaque("norm", ["?"])
        if l in ("float64", "complex128", "float_", "complex_") and args:
            return args[0]
        raise Undecided("library function " + d)

    def basename(self, A):
        """name of a matrix that is a plain operand, its transpose or conjugate"""
        if A.ndim != 2 or any(len(x) != 1 for x in A.axes):
            raise Undecided("factorisation of a derived array")
        i, j = fresh(), fresh()
        e = norm(A.val([(i,), (j,)]))
        if len(e.t) == 1 and len(e.t[0][0]) == 1 and not e.t[0][1] and e.t[0][2] == 1:
            a, p = e.t[0][0][0]
            if a[0] == "el" and p == 1 and set(a[3]) == {i, j}:
                return a[1] + ("" if a[3] == (i, j) else ".T") + ("*" if a[2] else "")
        raise Undecided("factorisation of an expression")

    def inverse(self, A):
        nm = self.basename(A)
        INV["inv(%s)" % nm] = nm
        INV[nm] = "inv(%s)" % nm
        return named("inv(%s)" % nm, [A.axes[1][0], A.axes[0][0]], A.dt)

    def eigh(self, A, kw, args, n):
        nm = self.basename(A)
        if len(args) > 1 or set(kw) - {"turbo", "check_finite", "overwrite_a", "lower", "UPLO", "driver", "eigvals_only"}:
            raise Undecided("eigh options")
        if kw.get("overwrite_a") not in (None, False) and A.buf.owner:
            self.writes.append((A.buf.owner, n))
        D = A.axes[0][0]
        ev, EV = "ev(%s)" % nm, "EV(%s)" % nm
        REAL.add(ev)
        UNITARY.add(EV)
        ASC[ev] = True
        if kw.get("eigvals_only"):
            return mk([(D,)], lambda vs: Ex.atom(("el", ev, False, (vs[0][0],))), DT([("re", x) for x in A.dt.n]))
        a = mk([(D,)], lambda vs: Ex.atom(("el", ev, False, (vs[0][0],))), DT([("re", x) for x in A.dt.n]))
        b = mk([(D,), (D,)], lambda vs: Ex.atom(("el", EV, False, (vs[0][0], vs[1][0]))), A.dt)
        return (a, b)

    def lapack(self, f, args, kw):
        if f.name == "trtri":
            A = args[0]
            nm = self.basename(A)
            low = kw.get("lower", args[1] if len(args) > 1 else 0)
            if nm in CHOL:
                if bool(self.truth(low)) != CHOL[nm][1]:
                    raise Raised("triangle: the inverse of the other triangle is taken")
            elif nm in TRI and bool(self.truth(low)) != TRI[nm]:
                raise Raised("triangle: the inverse of the other triangle is taken")
            if kw.get("overwrite_c") not in (None, False, 0) and A.buf.owner and A.buf.owner != "scratch":
                self.writes.append((A.buf.owner, None))
            return (self.inverse(A), 0)
        raise Undecided("lapack " + f.name)


TRI = {}


def mismatch(x, y):
    """operands whose ranges are different symbols cannot be combined; computed sizes are left open"""
    if all(isinstance(d, str) for d in tuple(x) + tuple(y)) and len(x) == len(y):
        return Raised("ValueError: ranges %s and %s do not match" % (x, y))
    if len(x) == len(y) and len(x) > 1 and sorted(map(str, x)) == sorted(map(str, y)):
        return Raised("ValueError: flattened in different orders")
    if len(x) == len(y) and all(_root(p) == _root(q) for p, q in zip(x, y)):
        return Raised("ValueError: index ranges %s and %s do not match" % (x, y))
    return Undecided("ranges %s and %s" % (x, y))


def _root(d):
    while isinstance(d, tuple) and d[0] == "sub":
        d = d[1]
    return d


class _Closure(object):
    def __init__(self, node, env):
        self.node, self.env = node, env


class Opaque(object):
    def __init__(self, f, ks):
        self.k = "%s(%s)" % (f, ",".join(ks))


def _k(v):
    if isinstance(v, Arr):
        if v.ndim == 0:
            return repr(sorted(v.val([]).key(), key=repr))
        return "arr"
    if isinstance(v, Opaque):
        return v.k
    return repr(v)


def _eq(l, r):
    if isinstance(l, (tuple, list)) and isinstance(r, (tuple, list)):
        return len(l) == len(r) and all(_eq(a, b) for a, b in zip(l, r))
    if isinstance(l, (int, Poly, Fraction)) and isinstance(r, (int, Poly, Fraction)):
        if isinstance(l, Fraction) or isinstance(r, Fraction):
            return l == r
        return aspoly(l) == aspoly(r)
    if isinstance(l, (Arr, Obj)) or isinstance(r, (Arr, Obj)):
        raise Undecided("equality")
    return l == r


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _isre(f):
    return all(a[0] in ("d", "in", "dim") or a[0] == "el" and a[1] in REAL or a[0] == "f" and a[1] == "abs" for a, p in f)
