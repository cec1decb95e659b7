"""C18: scenarios (operand kinds and option flags) and the dense-matrix identities they must satisfy."""
import ast, itertools
from fractions import Fraction
from .alg import Poly, aspoly
from .repo import qualname
from . import rules18 as R
from .rules18 import Ex, Interp, Obj, Arr, DT, Raised, Undecided, named, mk, scal, norm

MM, TC, NS = "matmul", "tdvp_common", "nullspace"


def delta(i, j):
    return Ex.atom(("d",) + tuple(sorted((i, j))))


def el(name, *ix):
    return Ex.atom(("el", name, False, tuple(ix)))


class Check(object):
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx
        self.mod = prog.mod(MM)
        self.eye = self.mod.classes.get("eyemat")
        self.diag = self.mod.classes.get("simple_diag_matrix")

    # -- operands: (value, dense entry (i,j) -> Ex, rows, cols, dtype)
    def operand(self, I, kind, name, D="D", E="E"):
        T = DT(["T" + name])
        if kind == "dense":
            v = named(name, [D, E], T)
            return v, (lambda i, j: el(name, i, j)), D, E, T
        if kind == "eye":
            v = I.call(self.eye, [Poly.sym(D)], {"dtype": T})
            return v, delta, D, D, T
        if kind == "diag":
            v = I.call(self.diag, [named(name, [D], T)], {})
            return v, (lambda i, j: delta(i, j).mul(el(name, i))), D, D, T
        if kind == "scal":
            v = scal(Ex.atom(("el", name, False, ())), T, py=True)
            return v, None, None, None, T
        raise ValueError(kind)

    def methods_at(self, cls, name):
        return cls._methods.get(name)

    def scenario(self, mod, func, label, body, line=None, fails=()):
        """body(I) -> list of (what, ok) or None"""
        ctx = self.ctx
        rel = self.prog.mod(mod).rel
        I = Interp(self.prog, fails)
        try:
            res = body(I)
        except Undecided as e:
            ctx.undec("%s %s" % (func, label), str(e))
            return
        except Raised as e:
            ctx.violation("structured-op", rel, func, label, "fails (%s) where the dense matrices give a result" % e.name,
                          getattr(e.node, "lineno", line))
            return
        except RecursionError:
            ctx.undec("%s %s" % (func, label), "recursion")
            return
        for fn in I.funcs:
            ctx.analysed.add(fn)
        ctx.count("scenarios decided")
        for what, ok in res or []:
            ctx.count("identities checked")
            if not ok:
                ctx.violation("structured-op", rel, func, label, what, line)
        for owner, node in I.writes:
            ctx.violation("operand-modified", rel, func, label, "writes into operand %r" % owner, getattr(node, "lineno", line))
        ctx.sample("%s %s: %d identities" % (func, label, len(res or [])), cap=20)

    # -- comparing
    def entry(self, I, v):
        """(axes, fn(list of idx), dtype) of a dense or structured value"""
        a = I.dense(v)
        return a

    def eqm(self, I, v, rows, cols, fn, dt=None, what="entry"):
        """v is the rows x cols matrix with entries fn(i, j)"""
        out = []
        if isinstance(v, Obj):
            sh = I.attr(v, "shape", None)
            out.append(("%s: .shape is %s instead of (%s, %s)" % (what, sh, rows, cols), R._eq(tuple(sh), (Poly.sym(rows), Poly.sym(cols)))))
            d2 = I.attr(v, "dtype", None)
            a = I.dense(v)
            out.append(("%s: recorded type %r does not describe the entries (%r)" % (what, d2, a.dt), isinstance(d2, DT) and d2.covers(a.dt)))
        a = I.dense(v)
        ok = [tuple(x) for x in a.axes] == [(rows,), (cols,)]
        out.append(("%s: result has ranges %s instead of %s x %s" % (what, a.axes, rows, cols), ok))
        if ok:
            i, j = R.fresh(), R.fresh()
            got, want = a.val([(i,), (j,)]), fn(i, j)
            good = R.same(got, want)
            out.append(("%s: result entry %s differs from the dense result %s" % (what, show(got, i, j), show(want, i, j)), good))
        if dt is not None:
            out.append(("%s: result type %r cannot hold %r" % (what, a.dt, dt), a.dt.covers(dt)))
        return out

    def eqs(self, I, v, want, what="value"):
        a = I.dense(v)
        if a.ndim:
            return [("%s: result is not a scalar" % what, False)]
        g = a.val([])
        return [("%s: result %s differs from the dense result %s" % (what, show(g), show(want)), R.same(g, want))]

    def eqv(self, I, v, axis, fn, what="value"):
        a = I.dense(v)
        if a.ndim != 1 or tuple(a.axes[0]) != tuple(axis):
            return [("%s: result has ranges %s instead of %s" % (what, a.axes, axis), False)]
        ix = tuple(R.fresh() for _ in axis)
        g, w = a.val([ix]), fn(*ix)
        return [("%s: result entry %s differs from the dense result %s" % (what, show(g), show(w)), R.same(g, w))]

    # -------------------------------------------------------------- the structured classes
    def classes(self):
        for kind, cls in (("eye", self.eye), ("diag", self.diag)):
            if cls is None:
                continue
            cn = cls.name
            f = cls._methods
            ln = lambda m: f[m].lineno if m in f else cls.lineno
            sc = lambda m, lab, body: self.scenario(MM, cn + "." + m, lab, body, ln(m))

            def unary(m, get, want):
                def body(I):
                    v, e, r, c, T = self.operand(I, kind, "S")
                    return self.eqm(I, get(I, v), "D", "D", want(e), T if m not in ("trace",) else None, m)
                sc(m, m, body)
            cm = lambda m: (lambda I, v: I.call(I.attr(v, m, None), [], {}))
            unary("toarray", cm("toarray"), lambda e: e)
            unary("__array__", lambda I, v: I.dense(v), lambda e: e)
            unary("__getattr__", lambda I, v: I.attr(v, "A", None), lambda e: e)
            unary("transpose", cm("transpose"), lambda e: (lambda i, j: e(j, i)))
            unary("__getattr__", lambda I, v: I.attr(v, "T", None), lambda e: (lambda i, j: e(j, i)))
            unary("conj", cm("conj"), lambda e: (lambda i, j: e(i, j).conj()))
            unary("copy", cm("copy"), lambda e: e)
            half = lambda e, p: (lambda i, j: delta(i, j) if kind == "eye" else delta(i, j).mul(Ex.atom(("el", "S", False, (i,)), p)))
            unary("sqrt", cm("sqrt"), lambda e: half(e, Fraction(1, 2)))
            unary("inv", cm("inv"), lambda e: half(e, -1))

            def b_ravel(I):
                v, e, r, c, T = self.operand(I, kind, "S")
                return self.eqv(I, I.call(I.attr(v, "ravel", None), [], {}), ("D", "D"), e, "ravel")
            sc("ravel", "ravel", b_ravel)

            def b_diag(I):
                v, e, r, c, T = self.operand(I, kind, "S")
                return self.eqv(I, I.call(I.attr(v, "diagonal", None), [], {}), ("D",), lambda i: Ex.c(1) if kind == "eye" else el("S", i), "diagonal")
            sc("diagonal", "diagonal", b_diag)

            def b_trace(I):
                v, e, r, c, T = self.operand(I, kind, "S")
                i = R.fresh()
                w = Ex.atom(("dim", "D")) if kind == "eye" else el("S", i).bind([i], {i: "D"})
                return self.eqs(I, I.call(I.attr(v, "trace", None), [], {}), w, "trace")
            sc("trace", "trace()", b_trace)

            def b_trace1(I):
                v, e, r, c, T = self.operand(I, kind, "S")
                return self.eqs(I, I.call(I.attr(v, "trace", None), [], {"offset": 1}), Ex.c(0), "trace of the first off-diagonal")
            sc("trace", "trace(offset=1)", b_trace1)

            def b_copy(I):
                v, e, r, c, T = self.operand(I, kind, "S")
                w = I.call(I.attr(v, "copy", None), [], {})
                if not isinstance(w, Obj):
                    return [("copy is not an independent matrix", isinstance(w, Arr) and w.buf.owner is None)]
                shared = [k for k, x in w.at.items() if isinstance(x, Arr) and any(x.buf is y.buf for y in v.at.values() if isinstance(y, Arr))]
                return [("copy is the same object", w is not v), ("copy shares its storage (%s) with the original" % ", ".join(shared), not shared)]
            sc("copy", "copy is independent", b_copy)

            # products and sums from both sides
            for other in ("scal", "dense", "eye", "diag"):
                for op, nm in ((ast.Mult(), "mul"), (ast.Add(), "add"), (ast.Sub(), "sub")):
                    if other == "scal" and nm != "mul":
                        continue
                    for right in (False, True):
                        def body(I, other=other, op=op, nm=nm, right=right):
                            v, e, r, c, T = self.operand(I, kind, "S")
                            w, e2, r2, c2, T2 = self.operand(I, other, "x", E="D")
                            a, b = (w, v) if right else (v, w)
                            res = I.binop(op, a, b, None)
                            if other == "scal":
                                fn = lambda i, j: e(i, j).mul(Ex.atom(("el", "x", False, ())))
                            elif nm == "mul":
                                fn = lambda i, j: e(i, j).mul(e2(i, j))
                            elif nm == "add":
                                fn = lambda i, j: e(i, j) + e2(i, j)
                            elif right:
                                fn = lambda i, j: e2(i, j) - e(i, j)
                            else:
                                fn = lambda i, j: e(i, j) - e2(i, j)
                            return self.eqm(I, res, "D", "D", fn, None, "%s %s %s" % (("x", nm, kind) if right else (kind, nm, "x")))
                        m = "__%s%s__" % ("r" if right else "", nm)
                        sc(m, "%s with %s%s" % (nm, other, " on the left" if right else ""), body)

            # matrix products
            for other in ("dense", "eye", "diag"):
                for left in (False, True):
                    def body(I, other=other, left=left):
                        v, e, r, c, T = self.operand(I, kind, "S")
                        if left:
                            w, e2, r2, c2, T2 = self.operand(I, other, "x", *(("E", "D") if other == "dense" else ("D", "D")))
                        else:
                            w, e2, r2, c2, T2 = self.operand(I, other, "x")
                        res = I.call(I.attr(v, "dot_left" if left else "dot", None), [w], {})
                        k = R.fresh()
                        if left:
                            fn = lambda i, j: e2(i, k).mul(e(k, j)).bind([k], {k: "D"})
                            rr, cc = r2, "D"
                        else:
                            fn = lambda i, j: e(i, k).mul(e2(k, j)).bind([k], {k: "D"})
                            rr, cc = "D", c2
                        return self.eqm(I, res, rr, cc, fn, None, "product")
                    sc("dot_left" if left else "dot", "product with %s" % other, body)

            def b_mis(I):
                v, e, r, c, T = self.operand(I, kind, "S")
                w = named("x", ["E", "E"], DT(["Tx"]))
                bad = []
                for m in ("dot", "dot_left"):
                    try:
                        I.call(I.attr(v, m, None), [w], {})
                        bad.append(m)
                    except Raised:
                        pass
                return [("%s accepts a matrix of another size without an error" % "/".join(bad), not bad)]
            sc("dot", "mismatched sizes are refused", b_mis)

    # -------------------------------------------------------------- helpers
    def helpers(self):
        F = self.mod.funcs
        ln = lambda f: F[f].lineno if f in F else None
        fn = lambda f: self.prog.resolve_name(self.mod, f)

        def have(f):
            if not isinstance(fn(f), ast.FunctionDef):
                self.ctx.undec("matmul." + f, "not found")
                return False
            return True
        K = ("dense", "eye", "diag")
        if have("mmul"):
            for n in (1, 2, 3, 4):
                for kinds in itertools.product(K, repeat=n):
                    def body(I, kinds=kinds):
                        ops, d, k = [], "D0", 0
                        for q, kd in enumerate(kinds):
                            if kd == "dense":
                                v, e, r, c, T = self.operand(I, kd, "M%d" % q, d, "D%d" % (k + 1))
                                k += 1
                                d = "D%d" % k
                            else:
                                v, e, r, c, T = self.operand(I, kd, "M%d" % q, d)
                            ops.append((v, e, r, c, T))
                        res = I.call(fn("mmul"), [o[0] for o in ops], {})

                        def want(i, j):
                            vs = [i] + [R.fresh() for _ in ops[1:]] + [j]
                            x = Ex.c(1)
                            for q, o in enumerate(ops):
                                x = x.mul(o[1](vs[q], vs[q + 1]))
                            return x.bind(vs[1:-1], {v: o[3] for v, o in zip(vs[1:-1], ops)})
                        dt = None
                        for o, kd in zip(ops, kinds):
                            if kd != "eye":
                                dt = o[4] if dt is None else dt | o[4]
                        return self.eqm(I, res, ops[0][2], ops[-1][3], want, dt, "product")
                    self.scenario(MM, "mmul", "mmul(%s)" % ", ".join(kinds), body, ln("mmul"))
        if have("dot_inplace"):
            for ka, kb in itertools.product(K, repeat=2):
                def body(I, ka=ka, kb=kb):
                    a, ea, ra, ca, Ta = self.operand(I, ka, "M0", *(("D", "E") if ka == "dense" else ("E", "E")))
                    b, eb, rb, cb, Tb = self.operand(I, kb, "M1", *(("E", "F") if kb == "dense" else ("E", "E")))
                    out = mk([(ra,), (cb,)], lambda vs: Ex.atom(("uninitialised", "out")), Ta | Tb)
                    res = I.call(fn("dot_inplace"), [a, b, out], {})
                    k = R.fresh()
                    want = lambda i, j: ea(i, k).mul(eb(k, j)).bind([k], {k: "E"})
                    r = self.eqm(I, out, ra, cb, want, None, "content of out")
                    r.append(("the returned array is not the output array", isinstance(res, Arr) and res.buf is out.buf and res.perm == out.perm))
                    return r
                self.scenario(MM, "dot_inplace", "dot_inplace(%s, %s)" % (ka, kb), body, ln("dot_inplace"))
        if have("mmul_diag"):
            for right in (True, False):
                for outk in (False, True):
                    def body(I, right=right, outk=outk):
                        d = named("d", ["D"], DT(["Td"]))
                        B = named("B", ["D", "E"] if right else ["E", "D"], DT(["TB"]))
                        kw = {} if right else {"act_right": False}
                        rr, cc = ("D", "E") if right else ("E", "D")
                        o = None
                        if outk:
                            o = kw["out"] = mk([(rr,), (cc,)], lambda vs: Ex.atom(("uninitialised", "out")), DT(["Td", "TB"]))
                        res = I.call(fn("mmul_diag"), [d, B], kw)
                        want = lambda i, j: el("d", i if right else j).mul(el("B", i, j))
                        r = self.eqm(I, res, rr, cc, want, DT(["Td", "TB"]), "result")
                        if o is not None:
                            r += self.eqm(I, o, rr, cc, want, None, "content of out")
                        return r
                    self.scenario(MM, "mmul_diag", "act_right=%s out=%s" % (right, outk), body, ln("mmul_diag"))
        for f, conj in (("adot", True), ("adot_noconj", False)):
            if not have(f):
                continue
            for ka, kb in itertools.product(K, repeat=2):
                def body(I, f=f, conj=conj, ka=ka, kb=kb):
                    sq = ka != "dense" or kb != "dense"
                    a, ea, ra, ca, Ta = self.operand(I, ka, "M0", "D", "D" if sq else "E")
                    if conj:
                        b, eb, rb, cb, Tb = self.operand(I, kb, "M1", "D", "D" if sq else "E")
                    else:
                        b, eb, rb, cb, Tb = self.operand(I, kb, "M1", "D" if sq else "E", "D")
                    res = I.call(fn(f), [a, b], {})
                    i, j = R.fresh(), R.fresh()
                    dims = {i: "D", j: "D" if sq else "E"}
                    x = ea(i, j).conj().mul(eb(i, j)) if conj else ea(i, j).mul(eb(j, i))
                    return self.eqs(I, res, x.bind([i, j], dims), "tr(a^H b)" if conj else "tr(a b)")
                self.scenario(MM, f, "%s(%s, %s)" % (f, ka, kb), body, ln(f))
        if have("H"):
            for kind in K:
                def body(I, kind=kind):
                    a, ea, ra, ca, Ta = self.operand(I, kind, "M0")
                    return self.eqm(I, I.call(fn("H"), [a], {}), ca, ra, lambda i, j: ea(j, i).conj(), Ta if kind != "eye" else None, "adjoint")
                self.scenario(MM, "H", "H(%s)" % kind, body, ln("H"))

            def body(I):
                a = named("M0", ["D", "E"], DT(["T"]))
                o = mk([("E",), ("D",)], lambda vs: Ex.c(0), DT(["T"]))
                res = I.call(fn("H"), [a], {"out": o})
                w = lambda i, j: el("M0", j, i).conj()
                return self.eqm(I, res, "E", "D", w, None, "adjoint") + self.eqm(I, o, "E", "D", w, None, "content of out")
            self.scenario(MM, "H", "H(dense, out)", body, ln("H"))

            def body2(I):
                a = named("M0", ["D", "D"], DT(["T"]))
                a.buf.owner = None
                res = I.call(fn("H"), [a], {"out": a})
                return self.eqm(I, a, "D", "D", lambda i, j: el("M0", j, i).conj(), None, "content of m after H(m, out=m)")
            self.scenario(MM, "H", "H(dense, out=itself)", body2, ln("H"))
        for f, p in (("sqrtmh", Fraction(1, 2)), ("invmh", Fraction(-1))):
            if not have(f):
                continue
            for ret, given in itertools.product((False, True), repeat=2):
                def body(I, f=f, p=p, ret=ret, given=given):
                    T = DT(["T"])
                    A = named("M0", ["D", "D"], T)
                    kw = {}
                    evn, EVn = "ev(M0)", "EV(M0)"
                    if given:
                        R.REAL.add("e0")
                        R.UNITARY.add("V0")
                        evn, EVn = "e0", "V0"
                        kw["evd"] = (named("e0", ["D"], DT([("re", "T")])), named("V0", ["D", "D"], T))
                    if ret:
                        kw["ret_evd"] = True
                    res = I.call(fn(f), [A], kw)
                    k = R.fresh()
                    w = lambda i, j: el(EVn, i, k).mul(Ex.atom(("el", evn, False, (k,)), p)).mul(el(EVn, j, k).conj()).bind([k], {k: "D"})
                    if ret:
                        if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], tuple) and len(res[1]) == 2):
                            return [("does not return (result, (ev, EV))", False)]
                        r = self.eqm(I, res[0], "D", "D", w, T, "result")
                        r += self.eqv(I, res[1][0], ("D",), lambda i: Ex.atom(("el", evn, False, (i,)), p), "returned eigenvalues of the result")
                        r += self.eqm(I, res[1][1], "D", "D", lambda i, j: el(EVn, i, j), None, "returned eigenvectors")
                        return r
                    return self.eqm(I, res, "D", "D", w, T, "result")
                self.scenario(MM, f, "%s(ret_evd=%s, evd given=%s)" % (f, ret, given), body, ln(f))
        if have("invtr"):
            for low in (False, True):
                def body(I, low=low):
                    R.TRI["M0"] = low
                    A = named("M0", ["D", "D"], DT(["T"]))
                    res = I.call(fn("invtr"), [A], {"lower": low} if low else {})
                    return self.eqm(I, res, "D", "D", lambda i, j: el("inv(M0)", i, j), None, "inverse")
                self.scenario(MM, "invtr", "lower=%s" % low, body, ln("invtr"))

    def roots(self):
        m = self.prog.mod(TC)
        f = m.funcs.get("herm_sqrt_inv")
        mask = lambda nm, i: Ex.c(1) - Ex.atom(("in", ("le", nm, "tol"), i))
        if f is not None:
            for kind in ("dense", "eye", "diag"):
                for rank in (False, True):
                    def body(I, kind=kind, rank=rank):
                        a, ea, ra, ca, Ta = self.operand(I, kind, "M0", "D", "D")
                        kw = {"zero_tol": R_tol}
                        if rank:
                            kw["return_rank"] = True
                        res = I.call(f, [a], kw)
                        if not isinstance(res, tuple) or len(res) != (3 if rank else 2):
                            return [("returns %s values" % (len(res) if isinstance(res, tuple) else 1), False)]
                        out = []
                        if kind == "eye":
                            for x, w in zip(res, ("root", "inverse root")):
                                out += self.eqm(I, x, "D", "D", delta, None, w)
                            rk = Poly.sym("D")
                        else:
                            evn = "M0" if kind == "diag" else "ev(M0)"

                            def w(p):
                                if kind == "diag":
                                    return lambda i, j: delta(i, j).mul(mask(evn, i)).mul(Ex.atom(("el", evn, False, (i,)), p))
                                k = R.fresh()
                                return lambda i, j: el("EV(M0)", i, k).mul(mask(evn, k)).mul(Ex.atom(("el", evn, False, (k,)), p)).mul(
                                    el("EV(M0)", j, k).conj()).bind([k], {k: "D"})
                            out += self.eqm(I, res[0], "D", "D", w(Fraction(1, 2)), None, "root")
                            out += self.eqm(I, res[1], "D", "D", w(Fraction(-1, 2)), None, "pseudo-inverse root")
                            rk = Poly.sym("D") - Poly.sym(("card", ("le", evn, "tol")))
                        if rank:
                            out.append(("reported rank is %s instead of %s" % (res[2], rk), isinstance(res[2], (int, Poly)) and aspoly(res[2]) == rk))
                        return out
                    self.scenario(TC, "herm_sqrt_inv", "herm_sqrt_inv(%s, return_rank=%s)" % (kind, rank), body, f.lineno)
        g = m.funcs.get("herm_fac_with_inv")
        if g is not None:
            for low, evd, fail, inv, rank in itertools.product((False, True), repeat=5):
                if evd and fail:
                    continue

                def body(I, low=low, evd=evd, fail=fail, inv=inv, rank=rank):
                    T = DT(["T"])
                    A = named("M0", ["D", "D"], T)
                    kw = {"zero_tol": R_tol}
                    for k, v in (("lower", low), ("force_evd", evd), ("return_rank", rank)):
                        if v:
                            kw[k] = True
                    if not inv:
                        kw["calc_inv"] = False
                    res = I.call(g, [A], kw)
                    n = 1 + inv + rank
                    if n == 1:
                        res = (res,)
                    if not isinstance(res, tuple) or len(res) != n:
                        return [("returns %s values instead of %d" % (len(res) if isinstance(res, tuple) else 1, n), False)]
                    x = I.dense(res[0])
                    out = []
                    use = evd or fail
                    if [tuple(q) for q in x.axes] != [("D",), ("D",)]:
                        return [("factor has ranges %s" % x.axes, False)]
                    k, i, j = R.fresh(), R.fresh(), R.fresh()
                    if low:
                        prod = x.val([(i,), (k,)]).mul(x.val([(j,), (k,)]).conj()).bind([k], {k: "D"})
                    else:
                        prod = x.val([(k,), (i,)]).conj().mul(x.val([(k,), (j,)])).bind([k], {k: "D"})
                    if use:
                        q = R.fresh()
                        want = el("EV(M0)", i, q).mul(mask("ev(M0)", q)).mul(el("ev(M0)", q)).mul(el("EV(M0)", j, q).conj()).bind([q], {q: "D"})
                    else:
                        want = el("M0", i, j)
                    out.append(("%s is %s instead of A" % ("X X^H" if low else "X^H X", show(prod, i, j)), R.same(prod, want)))
                    if inv:
                        xi = I.dense(res[1])
                        k2 = R.fresh()
                        if [tuple(z) for z in xi.axes] != [("D",), ("D",)]:
                            return out + [("inverse has ranges %s" % xi.axes, False)]
                        # on the side of the retained space the product is its projector
                        if low:
                            pr = xi.val([(i,), (k2,)]).mul(x.val([(k2,), (j,)])).bind([k2], {k2: "D"})
                        else:
                            pr = x.val([(i,), (k2,)]).mul(xi.val([(k2,), (j,)])).bind([k2], {k2: "D"})
                        w2 = delta(i, j).mul(mask("ev(M0)", i)) if use else delta(i, j)
                        out.append(("%s is %s instead of the unit matrix on the retained space" % ("Xi X" if low else "X Xi", show(pr, i, j)), R.same(pr, w2)))
                    if rank:
                        rk = Poly.sym("D") - Poly.sym(("card", ("le", "ev(M0)", "tol"))) if use else Poly.sym("D")
                        out.append(("reported rank is %s instead of %s" % (res[-1], rk), isinstance(res[-1], (int, Poly)) and aspoly(res[-1]) == rk))
                    return out
                self.scenario(TC, "herm_fac_with_inv", "lower=%s force_evd=%s cholesky %s calc_inv=%s return_rank=%s" % (
                    low, evd, "fails" if fail else "succeeds", inv, rank), body, g.lineno, ("cholesky",) if fail else ())

    def null(self):
        m = self.prog.mods.get(NS)
        if m is None:
            return
        FORMS = {"vh(M0)": (True, True), "vh(M0*)": (True, False), "u(M0.T)": (False, True), "u(M0.T*)": (False, False),
                 "q(M0.T)": (False, True), "q(M0.T*)": (False, False)}
        for f in ("nullspace", "nullspace_qr"):
            g = m.funcs.get(f)
            if g is None:
                continue

            def body(I, f=f, g=g):
                A = named("M0", ["m", "k"], DT(["T"]))
                res = I.call(g, [A], {})
                if not isinstance(res, Arr) or res.ndim != 2:
                    raise Undecided("shape")
                i, j = R.fresh(), R.fresh()
                e = norm(res.val([(i,), (j,)]))
                names = {a[1] for t in e.t for a, p in t[0] if a[0] == "el"}
                if len(names) != 1 or list(names)[0] not in FORMS:
                    raise Undecided("built from other factors: %s" % sorted(names))
                atom = list(names)[0]
                tr, cj = FORMS[atom]
                want = el(atom, j, i) if tr else el(atom, i, j)
                if cj:
                    want = want.conj()
                out = [("columns are %s instead of %s" % (show(e, i, j), show(want, i, j)), R.same(e, want)),
                       ("columns are vectors over %s instead of the columns of A" % (res.axes[0],), res.axes[0] == ("k",))]
                ax = res.axes[1][0]
                ok = isinstance(ax, tuple) and ax[0] == "sub" and ax[2][0] == "rng" and ax[2][2] is None
                if ok:
                    lo = ax[2][1]
                    if atom[0] == "q":
                        ok = lo == Poly.sym("m")
                    else:
                        ok = bool(lo.d) and all(isinstance(s, (tuple,)) and s[0] == "card" and s[1][0] in ("lt", "le") or s == "min(m,k)" for s in lo.syms()) \
                            and lo.d.get(("min(m,k)",)) == 1 and len(lo.d) == 2
                out.append(("selected columns %s are not the complement of the range" % (ax,), ok))
                return out
            self.scenario(NS, f, f, body, g.lineno)


def show(e, *ix):
    names = dict(zip(ix, "ijkl"))
    out = []
    for f, b, c in norm(e).t[:4]:
        s = []
        bb = {x: "ab cdefg"[q] for q, x in enumerate(sorted(b))}
        for a, p in f:
            if a[0] == "el":
                t = a[1] + ("*" if a[2] else "") + ("[%s]" % ",".join(names.get(v, bb.get(v, v)) for v in a[3]) if a[3] else "")
            elif a[0] == "d":
                t = "d(%s,%s)" % tuple(names.get(v, bb.get(v, v)) for v in a[1:])
            elif a[0] == "in":
                t = "[%s in %s]" % (names.get(a[2], bb.get(a[2], a[2])), a[1])
            else:
                t = str(a)
            s.append(t + ("^%s" % p if p != 1 else ""))
        out.append(("%s " % c if c != 1 else "") + ("sum_%s " % "".join(sorted(bb.values())) if b else "") + " ".join(s or ["1"]))
    return " + ".join(out) or "0"


R_tol = None


def run(prog, ctx):
    global R_tol
    for s in (R.REAL, R.UNITARY, R.EIG, R.CHOL, R.INV, R.ASC, R.TRI, R.BD):
        s.clear()
    R_tol = R.Opaque("tol", [])
    R_tol.k = "tol"
    c = Check(prog, ctx)
    c.classes()
    c.helpers()
    c.roots()
    c.null()
