"""Types of library operations (numpy / scipy / builtins) and of the package's
own matrix helpers, for the leg-typing interpreter.  Each rule states how the
axes of the result follow from the axes of the arguments."""
import ast
from .alg import *
from .dom import *

IDENT = {"asarray", "array", "asanyarray", "ascontiguousarray", "asfortranarray", "require", "copy", "asarray_chkfinite", "squeeze", "atleast_1d"}
SCALARFN = {"sqrt", "exp", "log", "log2", "log10", "abs", "absolute", "real", "imag", "floor", "ceil", "sign", "angle", "sin", "cos", "float", "complex", "int", "round", "isnan"}


def short(name):
    for p in ("numpy.", "scipy.", "builtins."):
        if name.startswith(p):
            name = name[len(p):]
            break
    return name


def ten(v, I, st):
    v = I.de(v, st)
    if isinstance(v, (Poly,)):
        return I.tonum(v)
    return v


def isT(v):
    return isinstance(v, (Ten, Alt))


def dims_of(v, I, st):
    v = I.de(v, st)
    if isinstance(v, TupV):
        out = []
        for x in v.items:
            x = I.de(x, st)
            out.append(x if isinstance(x, Poly) else None)
        return out
    if isinstance(v, Poly):
        return [v]
    return None


def is_object_dtype(v, I, st):
    v = I.de(v, st) if v is not None else None
    return isinstance(v, Lib) and v.name.split(".")[-1] in ("object", "object_", "ndarray") or isinstance(v, Cls)


def newarr(I, st, dims, zero=True):
    return I.cell(st, Ten([Unk(d) for d in dims], {} if zero else None, (), zero))


def out_target(node, kw, pos=None):
    """syntax of the out argument"""
    for k in node.keywords if isinstance(node, ast.Call) else ():
        if k.arg == "out":
            return k.value
    if pos is not None and isinstance(node, ast.Call) and len(node.args) > pos:
        return node.args[pos]
    return None


def store_out(I, node, kw, res, st, outv, pos=None):
    """res is written into the array given as out"""
    if outv is None:
        return res
    d = I.de(outv, st)
    if isinstance(d, Const) and d.v is None:
        return res
    tgt = out_target(node, kw, pos)
    r = res if isT(res) else TOP
    if isinstance(outv, Ref):
        cur = st.cells.get(outv.id)
        if isT(cur) and isT(r):
            # lengths must agree
            def f(c, x):
                if not isinstance(c, Ten) or not isinstance(x, Ten):
                    return TOP
                if len(c.axes) != len(x.axes):
                    return x
                for p, q in zip(c.axes, x.axes):
                    if I.dims_clash(I.geo.axdim(p), I.geo.axdim(q)):
                        raise TypeErr("result axis %r written into an output axis %r of another length" % (q, p), "shape")
                return x
            r = I.guard(lambda: I.lift(f, cur, r), node)
        st.cells[outv.id] = r
        st.cborn[outv.id] = frozenset(st.idx)      # overwritten completely: starts afresh in this iteration
        return outv
    if tgt is not None and isinstance(tgt, ast.Subscript):
        if isT(r):
            I.store(tgt, r, st, node)
        return r
    return r


def scal(v):
    def f(t):
        if not isinstance(t, Ten):
            return TOP
        if t.axes:
            return t.with_(terms=None, kind=t.kind) if t.kind == "diagvec" else TOP
        return Ten((), None, t.free)
    return mkalt([f(a) for a in alts(v)]) if all(isinstance(f(a), Ten) for a in alts(v)) else TOP


def lib(I, name, args, kw, st, node):
    nm = short(name)
    A = [I.de(a, st) for a in args]
    K = {k: I.de(v, st) for k, v in kw.items()}
    base = nm.split(".")[-1]
    g = lambda f: I.guard(f, node)
    # ------------------------------------------------ builtins
    if nm in ("range", "xrange") or base == "arange" and all(isinstance(a, Poly) for a in A):
        if all(isinstance(a, Poly) for a in A) and A:
            lo, hi, step = Poly.const(0), A[0], Poly.const(1)
            if len(A) > 1:
                lo, hi = A[0], A[1]
            if len(A) > 2:
                step = A[2]
            s = step.cval()
            if s is None:
                return [(TOP, st)]
            return [(Range(lo, hi, int(s)), st)]
        return [(TOP, st)]
    if nm == "len" and A:
        return [(I.len_(A[0]), st)]
    if nm == "callable" and A:
        v = A[0]
        if isinstance(v, (OpFn, Fn)):
            return [(Const(True), st)]
        if isinstance(v, (Ten, Alt, Const, Poly, Arr1, TupV)):
            return [(Const(False), st)]
        return [(TOP, st)]
    if nm == "isinstance" and len(A) == 2:
        v = A[0]
        if isinstance(A[1], Cls):
            cn = A[1].name
            if isinstance(v, Obj):
                return [(Const(any(c.name == cn for c in I.prog.mro(v.cls))), st)]
            if isT(v):
                if cn == "eyemat":
                    return [(Const(alts(v)[0].kind == "eye") if alts(v)[0].kind == "eye" else (Const(False)), st)]
                if cn == "simple_diag_matrix":
                    return [(Const(False), st)]
        return [(TOP, st)]
    if nm in ("list", "tuple", "reversed", "iter", "enumerate", "zip", "sorted"):
        if nm in ("list", "tuple") and A:
            if isinstance(A[0], (TupV, Arr1, Ten, Alt)):
                v = A[0]
                return [(I.cell(st, v) if nm == "list" and isinstance(v, (Arr1, TupV)) else v, st)]
        if nm == "list" and not A:
            return [(I.cell(st, Arr1(None, (), Poly.const(0), I.fresh("list"))), st)]
        if nm == "reversed" and A:
            v = A[0]
            if isinstance(v, Range) and v.step == 1:
                return [(Range(v.hi - 1, v.lo - 1, -1), st)]
            if isinstance(v, Range) and v.step == -1:
                return [(Range(v.hi + 1, v.lo + 1, 1), st)]
            if isinstance(v, TupV):
                return [(TupV(reversed(v.items), v.lst), st)]
            if isinstance(v, Arr1) and v.length is not None:
                arr, me, st0, ln = v, I, st, v.length
                return [(Arr1(lambda i: me.arr_get(arr, ln - 1 - i, st0), (), ln, ("rev", v.tag, len(v.writes))), st)]
        if nm == "enumerate" and A and isinstance(A[0], TupV):
            return [(TupV([TupV([Poly.const(i), x]) for i, x in enumerate(A[0].items)]), st)]
        if nm == "zip" and A and all(isinstance(a, TupV) for a in A):
            return [(TupV([TupV(list(x)) for x in zip(*[a.items for a in A])]), st)]
        return [(TOP, st)]
    if nm in ("abs", "float", "complex", "int", "round") or base in SCALARFN and len(A) >= 1:
        v = ten(args[0], I, st) if args else TOP
        if base in ("real", "imag", "conj") and isT(v):
            return [(I.lift(lambda t: t.with_(terms=None) if isinstance(t, Ten) else TOP, v), st)]
        if isinstance(A[0], Poly) and nm in ("int", "float", "abs"):
            if nm == "int" or nm == "float":
                return [(A[0], st)]
            return [(Ten((), None), st)]
        if isT(v):
            return [(store_out(I, node, kw, scal(v), st, kw.get("out")), st)]
        return [(TOP, st)]
    if nm in ("max", "min"):
        if all(isinstance(a, Poly) for a in A) and A:
            cs = [a.cval() for a in A]
            if all(c is not None for c in cs):
                return [(Poly.const(max(cs) if nm == "max" else min(cs)), st)]
            if len(A) == 2:
                d = I.ge0(A[0] - A[1], st)
                if d is True:
                    return [(A[0] if nm == "max" else A[1], st)]
                d2 = I.ge0(A[1] - A[0], st)
                if d2 is True:
                    return [(A[1] if nm == "max" else A[0], st)]
                # either may be the larger: both are tried
                out = []
                for i in (0, 1):
                    s2 = st.clone()
                    dd = (A[i] - A[1 - i]) if nm == "max" else (A[1 - i] - A[i])
                    s2.assume = s2.assume + (dd,)
                    out.append((A[i], s2))
                return out
        return [(TOP, st)]
    if nm == "sum" and args:
        v = A[0]
        if isinstance(v, TupV) and v.items and all(isT(I.de(x, st)) for x in v.items):
            r = I.de(v.items[0], st)
            for x in v.items[1:]:
                r = g(lambda: I.add(r, I.de(x, st), node))
            return [(r, st)]
        if isinstance(v, Arr1) or isT(v):
            return [(TOP, st)]
        return [(TOP, st)]
    if nm in ("print", "id", "hash", "repr", "str", "dict", "set", "any", "all", "hasattr", "isscalar", "super", "type"):
        return [(TOP, st)]
    if nm == "getattr" and len(A) >= 2 and isinstance(A[1], Const):
        return I.getattr(args[0], A[1].v, st, node)
    # ------------------------------------------------ constructors
    if base in ("zeros", "empty", "ones", "ndarray") and (args or "shape" in kw):
        shp = args[0] if args else kw["shape"]
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        ds = dims_of(shp, I, st)
        if ds is None:
            return [(TOP, st)]
        if is_object_dtype(dt, I, st) and len(ds) == 1:
            return [(I.cell(st, Arr1(None, (), ds[0], I.fresh("arr"))), st)]
        dtl = I.de(dt, st) if dt is not None else None
        if len(ds) == 1 and isinstance(ds[0], Poly) and not I.isdimlike(ds[0]):
            # one number per site
            return [(I.cell(st, Arr1(None, (), ds[0], I.fresh("arr"))), st)]
        return [(newarr(I, st, ds, base != "ones"), st)]
    if base in ("zeros_like", "empty_like", "ones_like") and A:
        if isT(A[0]):
            t = alts(A[0])[0]
            if t.kind == "eye":
                return [(newarr(I, st, [I.geo.axdim(a) for a in t.axes]), st)]
            return [(newarr(I, st, [I.geo.axdim(a) for a in t.axes], base != "ones_like"), st)]
        if isinstance(A[0], Arr1):
            return [(I.cell(st, Arr1(None, (), A[0].length, I.fresh("arr"))), st)]
        return [(TOP, st)]
    if base in ("eye", "identity") and A and isinstance(A[0], Poly):
        return [(Ten([Unk(A[0]), Unk(A[0])], t_const(1), (), False, "eye"), st)]
    if base in IDENT and args:
        v = A[0]
        if isT(v):
            return [(I.cell(st, v), st)]
        if isinstance(v, (Arr1, TupV)):
            return [(I.cell(st, v), st)]
        return [(v, st)]
    # ------------------------------------------------ products
    if base == "dot" and len(A) >= 2:
        r = g(lambda: I.dot(A[0], A[1], node)) if isT(A[0]) and isT(A[1]) else TOP
        o = kw.get("out", args[2] if len(args) > 2 else None)
        return [(store_out(I, node, kw, r, st, o, 2), st)]
    if base == "matmul" and len(A) >= 2:
        r = g(lambda: I.dot(A[0], A[1], node)) if isT(A[0]) and isT(A[1]) else TOP
        return [(r, st)]
    if base == "tensordot" and len(A) >= 2:
        ax = kw.get("axes", args[2] if len(args) > 2 else Poly.const(2))
        return [(g(lambda: tensordot(I, A[0], A[1], I.de(ax, st), node, st)), st)]
    if base == "multiply" and len(A) >= 2:
        a, b = ten(args[0], I, st), ten(args[1], I, st)
        r = g(lambda: I.lift(lambda x, y: I.mul1(x, y, node), a, b)) if isT(a) and isT(b) else TOP
        return [(store_out(I, node, kw, r, st, kw.get("out", args[2] if len(args) > 2 else None), 2), st)]
    if base in ("inner", "vdot") and len(A) == 2:
        def f(x, y):
            if not isinstance(x, Ten) or not isinstance(y, Ten) or not x.axes or not y.axes:
                return TOP
            return I.contract(x, y, [(len(x.axes) - 1, len(y.axes) - 1)], node)
        if not (isT(A[0]) and isT(A[1])):
            return [(TOP, st)]
        a = I.conj(A[0]) if base == "vdot" else A[0]
        return [(g(lambda: I.lift(f, a, A[1])), st)]
    if base == "outer" and len(A) == 2 and isT(A[0]) and isT(A[1]):
        def f(x, y):
            if not isinstance(x, Ten) or not isinstance(y, Ten):
                return TOP
            fr = I.mergefree(x.free, y.free, node)
            return TOP if fr is None else Ten(x.axes + y.axes, t_mul(x.terms, y.terms), fr)
        return [(g(lambda: I.lift(f, A[0], A[1])), st)]
    if base == "kron" and len(A) == 2 and isT(A[0]) and isT(A[1]):
        def f(x, y):
            if not isinstance(x, Ten) or not isinstance(y, Ten) or len(x.axes) != len(y.axes) or x.kind or y.kind:
                return TOP
            ax = []
            for p, q in zip(x.axes, y.axes):
                ls = (list(p.legs) if isinstance(p, Comp) else [p]) + (list(q.legs) if isinstance(q, Comp) else [q])
                if not all(isinstance(z, Leg) for z in ls):
                    return TOP
                ax.append(Comp(ls))
            fr = I.mergefree(x.free, y.free, node)
            return TOP if fr is None else Ten(ax, t_mul(x.terms, y.terms), fr)
        return [(g(lambda: I.lift(f, A[0], A[1])), st)]
    if base in ("conj", "conjugate") and A:
        r = g(lambda: I.conj(A[0])) if isT(A[0]) else (A[0] if isinstance(A[0], Poly) else TOP)
        return [(store_out(I, node, kw, r, st, kw.get("out", args[1] if len(args) > 1 else None), 1), st)]
    if base == "transpose" and A:
        axs = kw.get("axes", args[1] if len(args) > 1 else None)
        ds = dims_of(axs, I, st) if axs is not None else None
        if axs is not None and (ds is None or any(d is None or d.cval() is None for d in ds)):
            return [(TOP, st)]
        return [(g(lambda: I.transpose(A[0], None if ds is None else [int(d.cval()) for d in ds])) if isT(A[0]) else TOP, st)]
    if base == "trace" and A:
        return [(g(lambda: I.trace(A[0], node)) if isT(A[0]) else TOP, st)]
    if base in ("ravel", "reshape") and A:
        if not isT(A[0]):
            return [(TOP, st)]
        if base == "ravel":
            return [(g(lambda: I.reshape(A[0], [Poly.const(-1)], node)), st)]
        ds = dims_of(args[1], I, st)
        return [(g(lambda: I.reshape(A[0], ds, node)) if ds else TOP, st)]
    if base in ("swapaxes", "rollaxis", "moveaxis") and len(A) >= 2 and isT(A[0]):
        try:
            n = len(alts(A[0])[0].axes)
            i = int(A[1].cval())
            j = int(A[2].cval()) if len(A) > 2 else 0
            order = list(range(n))
            if base == "swapaxes":
                order[i], order[j] = order[j], order[i]
            elif base == "rollaxis":
                i %= n
                order.remove(i)
                order.insert(j if j <= i else j - 1, i)
            else:
                i %= n
                order.remove(i)
                order.insert(j % n, i)
            return [(g(lambda: I.transpose(A[0], order)), st)]
        except Exception:
            return [(TOP, st)]
    if base == "prod" and A:
        ds = dims_of(args[0], I, st)
        if ds is not None and all(d is not None for d in ds):
            r = Poly.const(1)
            for d in ds:
                r = r * d
            return [(r, st)]
        return [(TOP, st)]
    if base == "sum" and A:
        return meth(I, args[0], "sum", args[1:], kw, st, node)
    if base == "diag" and A and isT(A[0]):
        return [(g(lambda: I.lift(lambda t: diag_(I, t), A[0])), st)]
    if base == "diagonal" and A and isT(A[0]):
        return meth(I, args[0], "diagonal", [], {}, st, node)
    if base == "einsum" and A and isinstance(A[0], Const):
        return [(g(lambda: einsum(I, A[0].v, A[1:], node)), st)]
    if base in ("concatenate", "append", "vstack", "hstack"):
        return [(TOP, st)]
    # ------------------------------------------------ linear algebra
    if nm.startswith("linalg.") or name.startswith("scipy.linalg") or name.startswith("numpy.linalg"):
        return linalg(I, base, args, A, K, kw, st, node)
    if base in ("allclose", "isclose", "all", "any", "isscalar", "iscomplexobj"):
        return [(TOP, st)]
    if base in ("finfo",):
        return [(TOP, st)]
    if base == "vectorize" and A:
        return [(args[0], st)]
    if base == "fromfunction" and len(A) >= 2:
        ds = dims_of(args[1], I, st)
        if isinstance(A[0], OpFn) and ds is not None:
            t = alts(A[0].ten)[0]
            if len(ds) != len(t.axes):
                I.report(node, "shape", "operator function of %d indices tabulated over %d indices" % (len(t.axes), len(ds)))
                return [(TOP, st)]
            for i, (d, a) in enumerate(zip(ds, t.axes)):
                if d is not None and I.dims_clash(d, I.geo.axdim(a)):
                    I.report(node, "shape", "index %d of the operator function runs over %r values, but its site has dimension %r" % (i, d, I.geo.axdim(a)))
                    return [(TOP, st)]
            I.oblig(node)
            return [(I.cell(st, A[0].ten), st)]
        return [(TOP, st)]
    if base == "LinearOperator":
        return [(TOP, st)]
    return [(TOP, st)]


def einsum(I, spec, ops, node):
    return TOP


def tensordot(I, a, b, ax, node, st):
    def f(x, y):
        if not isinstance(x, Ten) or not isinstance(y, Ten):
            return TOP
        if x.kind == "eye" or y.kind == "eye":
            return TOP
        if isinstance(ax, Poly):
            n = int(ax.cval())
            pairs = [(len(x.axes) - n + i, i) for i in range(n)]
        elif isinstance(ax, TupV) and len(ax.items) == 2:
            p = [dims_of(z, I, st) for z in ax.items]
            if p[0] is None or p[1] is None:
                return TOP
            pairs = [(int(i.cval()), int(j.cval())) for i, j in zip(p[0], p[1])]
            pairs = [(i % len(x.axes), j % len(y.axes)) for i, j in pairs]
        else:
            return TOP
        return I.contract(x, y, pairs, node)
    if not (isT(a) and isT(b)):
        return TOP
    return I.lift(f, a, b)


def diag_(I, t):
    if not isinstance(t, Ten):
        return TOP
    if len(t.axes) == 1 and t.kind == "diagvec" and isinstance(t.axes[0], Leg):
        l = t.axes[0]
        return Ten((l, l.dual()), t.terms, t.free)
    if len(t.axes) == 2 and t.kind != "eye":
        if isinstance(t.axes[0], Leg) and t.axes[0] == (t.axes[1].dual() if not isinstance(t.axes[1], Unk) else None):
            return Ten((t.axes[0],), t.terms, t.free, False, "diagvec")
    return TOP


def frame(I, dim, hint="F"):
    return ("F", I.fresh(hint), ("dim", dim) if dim is not None else ("dim", Poly.sym(("dim", I.n))))


def fleg(space, plus=True):
    return Leg(space, not plus, True)


def linalg(I, base, args, A, K, kw, st, node):
    g = lambda f: I.guard(f, node)
    if base in ("eigh", "eigvalsh", "eig", "eigvals") and A and isT(A[0]):
        M = A[0]
        def f(t):
            if not isinstance(t, Ten) or len(t.axes) != 2 or t.kind:
                return TOP
            a, b = t.axes
            if isinstance(a, Unk) or isinstance(b, Unk):
                return TOP
            sp = frame(I, I.geo.axdim(a))
            if base in ("eigh", "eigvalsh"):
                if b != a.cj():
                    raise TypeErr("Hermitian eigendecomposition of a matrix whose axes are not conjugate to each other: %r, %r" % (a, b))
            I.oblig(node)
            return (Ten((fleg(sp),), None, t.free, False, "diagvec"), Ten((a, fleg(sp, False)), None, t.free))
        try:
            rs = [f(t) for t in alts(M)]
        except TypeErr as e:
            I.report(node, e.rule, e.msg)
            return [(TOP, st)]
        if any(r is TOP for r in rs):
            return [(TOP if base in ("eigvalsh", "eigvals") else TupV([TOP, TOP]), st)]
        if base in ("eigvalsh", "eigvals"):
            return [(mkalt([r[0] for r in rs]), st)]
        return [(TupV([mkalt([r[0] for r in rs]), mkalt([r[1] for r in rs])]), st)]
    if base == "svd" and A:
        M = A[0]
        cu = K.get("compute_uv", Const(True))
        if isinstance(cu, Const) and cu.v is False:
            return [(TOP, st)]
        if not isT(M):
            return [(TupV([TOP, TOP, TOP]), st)]
        t = alts(M)[0]
        if not isinstance(t, Ten) or len(t.axes) != 2 or isinstance(M, Alt):
            return [(TupV([TOP, TOP, TOP]), st)]
        a, b = t.axes
        sp = frame(I, Poly.sym(("Dsv", I.n)), "sv")
        return [(TupV([Ten((a, fleg(sp, False)), None, t.free), Ten((fleg(sp),), None, t.free, False, "diagvec"), Ten((fleg(sp), b), None, t.free)]), st)]
    if base in ("qr", "rq") and A:
        M = A[0]
        md = K.get("mode")
        if isinstance(md, Const) and md.v == "r":
            return [(TupV([TOP]), st)]
        if not isT(M) or isinstance(M, Alt) or len(M.axes) != 2:
            return [(TupV([TOP, TOP]), st)]
        a, b = M.axes
        if base == "qr":
            sp = frame(I, I.geo.axdim(b) if isinstance(b, (Leg, Comp)) else None, "qr")
            return [(TupV([Ten((a, fleg(sp, False)), None, M.free), Ten((fleg(sp), b), None, M.free)]), st)]
        sp = frame(I, I.geo.axdim(a), "rq")
        return [(TupV([Ten((a, fleg(sp, False)), None, M.free), Ten((fleg(sp), b), None, M.free)]), st)]
    if base in ("inv", "pinv") and A and isT(A[0]):
        return [(g(lambda: inverse(I, A[0], node)), st)]
    if base == "cholesky" and A and isT(A[0]):
        return [(g(lambda: cholesky(I, A[0], K.get("lower"), node)), st)]
    if base in ("norm", "det"):
        return [(Ten((), None), st)]
    if base in ("expm", "expm2"):
        if A and isT(A[0]):
            return [(I.lift(lambda t: t.with_(terms=None) if isinstance(t, Ten) else TOP, A[0]), st)]
    if base in ("sqrtm",):
        return [(TOP, st)]
    return [(TOP, st)]


def inverse(I, M, node):
    def f(t):
        if not isinstance(t, Ten):
            return TOP
        if t.kind == "eye":
            return t
        if len(t.axes) != 2 or t.free and I.openfree(t):
            return TOP
        a, b = t.axes
        return Ten((b.dual(), a.dual()), t_inv(t.terms), ())
    return I.lift(f, M)


def cholesky(I, M, lower, node):
    low = isinstance(lower, Const) and bool(lower.v)
    def f(t):
        if not isinstance(t, Ten) or len(t.axes) != 2 or t.kind:
            return TOP
        a, b = t.axes
        if isinstance(a, Unk) or isinstance(b, Unk):
            return TOP
        if b != a.cj():
            raise TypeErr("Cholesky factor of a matrix whose axes are not conjugate to each other: %r, %r" % (a, b))
        sp = frame(I, I.geo.axdim(a), "ch")
        I.oblig(node)
        # M = R^dag R with R upper: R:(f+, b) ; lower: M = X X^dag, X:(a, f-)
        return Ten((a, fleg(sp, False)), None) if low else Ten((fleg(sp), b), None)
    return I.lift(f, M)


# ---------------------------------------------------------------- methods
def meth(I, obj, name, args, kw, st, node):
    v = I.de(obj, st)
    A = [I.de(a, st) for a in args]
    g = lambda f: I.guard(f, node)
    if v is TOP:
        return [(TOP, st)]
    if isT(v):
        if name == "dot" and A:
            b = ten(args[0], I, st)
            r = g(lambda: I.dot(v, b, node)) if isT(b) else TOP
            return [(store_out(I, node, kw, r, st, kw.get("out", args[1] if len(args) > 1 else None), 1), st)]
        if name == "dot_left" and A:
            b = ten(args[0], I, st)
            return [(g(lambda: I.dot(b, v, node)) if isT(b) else TOP, st)]
        if name in ("conj", "conjugate"):
            return [(g(lambda: I.conj(v)), st)]
        if name in ("copy", "toarray", "astype", "view", "squeeze", "__array__"):
            return [(I.cell(st, v) if not (isinstance(v, Ten) and v.kind == "eye") else v, st)]
        if name == "transpose":
            ds = dims_of(args[0], I, st) if len(args) == 1 else (dims_of(TupV(args), I, st) if args else None)
            if args and (ds is None or any(d is None or d.cval() is None for d in ds)):
                return [(TOP, st)]
            return [(g(lambda: I.transpose(v, None if not args else [int(d.cval()) for d in ds])), st)]
        if name in ("ravel", "flatten"):
            return [(g(lambda: I.reshape(v, [Poly.const(-1)], node)), st)]
        if name == "reshape":
            ds = dims_of(args[0], I, st) if len(args) == 1 else dims_of(TupV(args), I, st)
            return [(g(lambda: I.reshape(v, ds, node)) if ds else TOP, st)]
        if name == "trace":
            return [(g(lambda: I.trace(v, node)), st)]
        if name == "inv":
            return [(g(lambda: inverse(I, v, node)), st)]
        if name == "sqrt":
            return [(TOP if not (isinstance(v, Ten) and v.kind == "eye") else v, st)]
        if name == "diagonal":
            def f(t):
                return diag_(I, t) if isinstance(t, Ten) else TOP
            return [(g(lambda: I.lift(f, v)), st)]
        if name == "sum":
            def f(t):
                if not isinstance(t, Ten):
                    return TOP
                if t.kind == "had" and not args and not kw:
                    return Ten((), t.terms, t.free, t.zero)
                if t.kind == "diagvec":
                    return Ten((), None, t.free)
                return TOP
            return [(g(lambda: I.lift(f, v)), st)]
        if name == "fill":
            if isinstance(obj, Ref):
                t = alts(v)[0]
                z = isinstance(A[0], Poly) and A[0].cval() == 0 if A else True
                st.cells[obj.id] = Ten([Unk(I.geo.axdim(a)) for a in t.axes], {} if z else None, (), z)
                st.cborn[obj.id] = frozenset(st.idx)
            return [(NONE, st)]
        if name in ("max", "min", "mean", "item", "all", "any"):
            return [(Ten((), None) if name in ("max", "min", "mean", "item") else TOP, st)]
        if name == "swapaxes":
            return lib(I, "numpy.swapaxes", [v] + list(args), kw, st, node)
        if name == "prod":
            return [(TOP, st)]
        if name == "sort":
            return [(NONE, st)]
        return [(TOP, st)]
    if isinstance(v, (Arr1, TupV)):
        if name == "append" and isinstance(obj, Ref) and args:
            if isinstance(v, Arr1) and v.length is not None:
                st.cells[obj.id] = Arr1(v.default, v.writes + ((v.length, A[0] if not isinstance(args[0], Ref) or isT(A[0]) else args[0], None, None, None, None),),
                                        v.length + 1, v.tag)
            elif isinstance(v, TupV):
                st.cells[obj.id] = TupV(v.items + (args[0],), True)
            else:
                st.cells[obj.id] = TOP
            return [(NONE, st)]
        if name == "reverse" and isinstance(obj, Ref):
            if isinstance(v, TupV):
                st.cells[obj.id] = TupV(reversed(v.items), v.lst)
            elif isinstance(v, Arr1) and v.length is not None:
                arr, me, st0, ln = v, I, st.clone(), v.length
                st.cells[obj.id] = Arr1(lambda i: me.arr_get(arr, ln - 1 - i, st0), (), ln, ("rev", v.tag, len(v.writes)))
            else:
                st.cells[obj.id] = TOP
            return [(NONE, st)]
        if name == "copy":
            return [(I.cell(st, v), st)]
        if name in ("insert", "extend", "pop", "sort", "remove"):
            if isinstance(obj, Ref):
                st.cells[obj.id] = TOP
            return [(TOP, st)]
        if name == "fill" and isinstance(obj, Ref):
            c = A[0] if A else TOP
            if isinstance(v, Arr1):
                val = I.tonum(c) if isinstance(c, Poly) else c
                st.cells[obj.id] = Arr1((lambda i, x=val: x), (), v.length, ("fill", repr(val)[:30], v.tag if not isinstance(v.tag, tuple) else "t"))
            return [(NONE, st)]
        return [(TOP, st)]
    return [(TOP, st)]


# ---------------------------------------------------------------- package helpers
def ax_H(I, args, kw, st, node):
    v = I.de(args[0], st)
    if not isT(v):
        return [(TOP, st)]
    r = I.guard(lambda: I.transpose(I.conj(v)), node)
    return [(store_out(I, node, kw, r, st, kw.get("out", args[1] if len(args) > 1 else None), 1), st)]


def ax_mmul(I, args, kw, st, node):
    r = I.de(args[0], st)
    for x in args[1:]:
        x = I.de(x, st)
        if not isT(r) or not isT(x):
            r = TOP
            break
        r0 = r
        r = I.guard(lambda: I.dot(r0, x, node), node)
    return [(r, st)]


def ax_dot_inplace(I, args, kw, st, node):
    a, b = I.de(args[0], st), I.de(args[1], st)
    r = I.guard(lambda: I.dot(a, b, node), node) if isT(a) and isT(b) else TOP
    o = args[2] if len(args) > 2 else kw.get("out")
    v = store_out(I, node, kw, r, st, o, 2)
    return [(v, st)]


def ax_adot(I, args, kw, st, node, conj=True):
    a, b = I.de(args[0], st), I.de(args[1], st)
    if not (isT(a) and isT(b)):
        return [(TOP, st)]
    def f(x, y):
        if not isinstance(x, Ten) or not isinstance(y, Ten):
            return TOP
        if x.kind == "eye" and y.kind == "eye":
            return Ten((), None)
        if x.kind == "eye":
            return I.trace(y, node)
        if y.kind == "eye":
            return I.trace(x, node)
        if len(x.axes) != len(y.axes):
            raise TypeErr("inner product of tensors with different numbers of axes", "shape")
        n = len(x.axes)
        pairs = [(i, i) for i in range(n)] if conj else [(i, n - 1 - i) for i in range(n)]
        return I.contract(x, y, pairs, node)
    aa = I.guard(lambda: I.conj(a), node) if conj else a
    return [(I.guard(lambda: I.lift(f, aa, b), node), st)]


def ax_adot_noconj(I, args, kw, st, node):
    return ax_adot(I, args, kw, st, node, False)


def ax_mmul_diag(I, args, kw, st, node):
    d, b = I.de(args[0], st), I.de(args[1], st)
    ar = I.de(kw.get("act_right", args[2] if len(args) > 2 else Const(True)), st)
    o = kw.get("out", args[3] if len(args) > 3 else None)
    if not (isinstance(ar, Const) and isT(d) and isT(b)):
        return [(store_out(I, node, kw, TOP, st, o, 3) if o is not None else TOP, st)]
    def f(x, y):
        if not isinstance(x, Ten) or not isinstance(y, Ten):
            return TOP
        if x.kind != "diagvec" or len(y.axes) != 2:
            return TOP
        k = 0 if ar.v else 1
        l, m = x.axes[0], y.axes[k]
        if isinstance(l, Leg) and isinstance(m, Leg) and l.space != m.space:
            raise TypeErr("diagonal factor indexed by %r applied to axis %r" % (l, m))
        I.oblig(node)
        fr = I.mergefree(x.free, y.free, node)
        return TOP if fr is None else Ten(y.axes, t_mul(x.terms, y.terms), fr)
    r = I.guard(lambda: I.lift(f, d, b), node)
    return [(store_out(I, node, kw, r, st, o, 3), st)]


def ax_eyemat(I, args, kw, st, node):
    d = I.de(args[0], st) if args else TOP
    if isinstance(d, Poly):
        return [(Ten([Unk(d), Unk(d)], t_const(1), (), False, "eye"), st)]
    return [(TOP, st)]


def ax_diagmat(I, args, kw, st, node):
    v = I.de(args[0], st) if args else TOP
    if isT(v):
        def f(t):
            if isinstance(t, Ten) and t.kind == "diagvec" and isinstance(t.axes[0], Leg):
                l = t.axes[0]
                # diagonal: its frame may be read with either orientation
                return Alt([Ten((l, l.dual()), t.terms, t.free), Ten((l.dual(), l), t.terms, t.free)])
            return TOP
        return [(I.guard(lambda: I.lift(f, v), node), st)]
    return [(TOP, st)]


def ax_top(I, args, kw, st, node):
    return [(TOP, st)]


def ax_invtr(I, args, kw, st, node):
    v = I.de(args[0], st)
    return [(I.guard(lambda: inverse(I, v, node), node) if isT(v) else TOP, st)]


def herm_sqrt(I, v, node):
    """square root S of Hermitian M:(a, conj a), M = S^dag S = S S^dag:
    S is (f+, conj a) as the right factor, (a, f-) as the left factor."""
    def f(t):
        if not isinstance(t, Ten) or len(t.axes) != 2 or t.kind:
            return t if isinstance(t, Ten) and t.kind == "eye" else TOP
        a, b = t.axes
        if isinstance(a, Unk) or isinstance(b, Unk):
            return TOP
        if b != a.cj():
            raise TypeErr("Hermitian square root of a matrix whose axes are not conjugate to each other: %r, %r" % (a, b))
        sp = rootspace(I, t)
        I.oblig(node)
        tm = rootterms(t.terms)
        return Alt([Ten((fleg(sp), b), tm), Ten((a, fleg(sp, False)), tm)])
    return I.lift(f, v)


def herm_sqrt_inv_of(I, v, node):
    def f(t):
        if not isinstance(t, Ten) or len(t.axes) != 2 or t.kind:
            return t if isinstance(t, Ten) and t.kind == "eye" else TOP
        a, b = t.axes
        if isinstance(a, Unk) or isinstance(b, Unk):
            return TOP
        sp = rootspace(I, t)
        tm = t_inv(rootterms(t.terms))
        return Alt([Ten((b.dual(), fleg(sp, False)), tm), Ten((fleg(sp), a.dual()), tm)])
    return I.lift(f, v)


def rootterms(t):
    """the square root of an environment, as a factor"""
    if t is not None and len(t) == 1:
        (m, c), = t.items()
        if c == ONE and len(m) == 1 and m[0][0] in ("l", "r") and not m[0][3]:
            return {((m[0][0] + "S", m[0][1], False, False),): ONE}
    return None


def rootspace(I, t):
    """name of the orthonormal frame in which the Hermitian root of t is expressed"""
    a = t.axes[0]
    if isinstance(a, Leg) and a.space[0] == "B":
        k = "r" if a.up else "l"
        return ("M", k) + tuple(a.space[1:4])
    return frame(I, I.geo.axdim(a), "root")


def ax_sqrtmh(I, args, kw, st, node):
    v = I.de(args[0], st)
    r = I.guard(lambda: herm_sqrt(I, v, node), node) if isT(v) else TOP
    re = I.de(kw.get("ret_evd", args[1] if len(args) > 1 else Const(False)), st)
    if isinstance(re, Const) and re.v:
        return [(TupV([r, TupV([TOP, TOP])]), st)]
    return [(r, st)]


def ax_invmh(I, args, kw, st, node):
    v = I.de(args[0], st)
    r = I.guard(lambda: inverse(I, v, node), node) if isT(v) else TOP
    re = I.de(kw.get("ret_evd", args[1] if len(args) > 1 else Const(False)), st)
    if isinstance(re, Const) and re.v:
        return [(TupV([r, TupV([TOP, TOP])]), st)]
    return [(r, st)]


def ax_herm_sqrt_inv(I, args, kw, st, node):
    """(x, ...) -> x_sqrt, x_sqrt_i[, rank]"""
    v = I.de(args[0], st)
    f = I.prog.func("tdvp_common", "herm_sqrt_inv")
    rr = argof(I, f, "return_rank", args, kw, st, Const(False))
    s = I.guard(lambda: herm_sqrt(I, v, node), node) if isT(v) else TOP
    si = I.guard(lambda: herm_sqrt_inv_of(I, v, node), node) if s is not TOP else TOP
    outs = []
    for r in ([bool(rr.v)] if isinstance(rr, Const) else [True, False]):
        outs.append((TupV([s, si] + ([TOP] if r else [])), st.clone()))
    return outs


def argof(I, f, nm, args, kw, st, dflt):
    names = [a.arg for a in f.args.args]
    if nm in kw:
        return I.de(kw[nm], st)
    if nm in names and names.index(nm) < len(args):
        return I.de(args[names.index(nm)], st)
    return dflt


def ax_herm_fac(I, args, kw, st, node):
    """(M, zero_tol, lower=False, return_rank=False, ...) -> X, Xi[, rank]"""
    v = I.de(args[0], st)
    f = I.prog.func("tdvp_common", "herm_fac_with_inv")
    low = argof(I, f, "lower", args, kw, st, Const(False))
    rr = argof(I, f, "return_rank", args, kw, st, Const(False))
    outs = []
    for lv in ([bool(low.v)] if isinstance(low, Const) else [True, False]):
        X = Xi = TOP
        if isinstance(v, Ten) and len(v.axes) == 2 and v.kind != "eye" and not any(isinstance(z, Unk) for z in v.axes):
            a, b = v.axes
            if b != a.cj():
                I.report(node, "leg", "Hermitian factorisation of a matrix whose axes are not conjugate to each other: %r, %r" % (a, b))
            else:
                sp = frame(I, I.geo.axdim(a), "hf")
                I.oblig(node)
                if lv:
                    X, Xi = Ten((a, fleg(sp, False)), None), Ten((fleg(sp), a.dual()), None)
                else:
                    X, Xi = Ten((fleg(sp), b), None), Ten((b.dual(), fleg(sp, False)), None)
        elif isinstance(v, Ten) and v.kind == "eye":
            X = Xi = v
        for r in ([bool(rr.v)] if isinstance(rr, Const) else [True, False]):
            outs.append((TupV([X, Xi] + ([TOP] if r else [])), st.clone()))
    return outs


def ax_nullspace_qr(I, args, kw, st, node):
    """columns spanning the null space: M:(a, b) -> V:(dual b, v-) with M V = 0"""
    v = I.de(args[0], st)
    if not isinstance(v, Ten) or len(v.axes) != 2:
        return [(TOP, st)]
    a, b = v.axes
    if isinstance(b, Unk):
        return [(TOP, st)]
    da, db = I.geo.axdim(a), I.geo.axdim(b)
    dim = (db - da) if da is not None and db is not None else Poly.sym(("dim", I.n))
    nm = nullname(v.terms)
    if nm is None:
        return [(Ten((b.dual(), Leg(("V", I.fresh("null"), dim), True, True)), None), st)]
    return [(Ten((b.dual(), Leg(("V",) + nm + (dim,), True, True)), t_atom(nm[0], nm[1:])), st)]


def nullname(t):
    """name of the tangent basis: the null space of (root of r or l) times one site tensor"""
    if t is None or len(t) != 1:
        return None
    (m, c), = t.items()
    A = [x for x in m if x[0] == "A"]
    R = [x for x in m if x[0] in ("lS", "rS")]
    if c != ONE or len(A) != 1 or len(R) > 1 or len(m) != 1 + len(R):
        return None
    k = R[0][0][0] if R else "0"
    return ("V" + k,) + tuple(A[0][1])


def package_axioms():
    return {
        "matmul.H": ax_H, "matmul.mmul": ax_mmul, "matmul.adot": ax_adot, "matmul.adot_noconj": ax_adot_noconj,
        "matmul.dot_inplace": ax_dot_inplace, "matmul.mmul_diag": ax_mmul_diag, "matmul.invtr": ax_invtr,
        "matmul.sqrtmh": ax_sqrtmh, "matmul.invmh": ax_invmh, "matmul.randomize_cmplx": ax_top,
        "eyemat": ax_eyemat, "simple_diag_matrix": ax_diagmat,
        "tdvp_common.herm_sqrt_inv": ax_herm_sqrt_inv, "tdvp_common.herm_fac_with_inv": ax_herm_fac,
        "nullspace.nullspace_qr": ax_nullspace_qr,
    }
