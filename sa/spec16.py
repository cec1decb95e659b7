"""C16: changes of the bond dimensions keep the recorded dimensions, the tensors on both sides of every bond and the
environments of the bond together, and truncation keeps the same, most significant Schmidt vectors on both sides.

The operations that change dimensions are interpreted on small lattices with pairwise different dimensions; every
array carries its shape, every slice the indices it selects."""
from .lab17 import Lab
from .rules17 import GI, Ar, Lst, Mask, Undecided
from .rig17 import Chain, Block, Sand
from .spec04 import DIMS
from .spec07 import args_chain, install_freeze, install_ppinv


def ints(v, n=None):
    v = list(v)
    if not all(isinstance(x, int) for x in v):
        raise Undecided("recorded dimensions")
    return v


def recorded(c):
    return ints(c.g.iter(c.o.f["D"])), ints(c.g.iter(c.o.f["q"]))


def shape(g, v):
    a = g.asar(v) if v is not None else None
    if a is None or a.shape is None or not all(isinstance(x, int) for x in a.shape):
        return None
    return tuple(a.shape)


def same(lab, rig, op, label, what, have, want, construct):
    if have is None:
        lab.ctx.count("shapes unknown")
    elif tuple(have) == tuple(want):
        lab.ctx.count("shapes equal to the recorded dimensions")
    else:
        lab.viol(rig, "dimensions disagree", op, construct, "%s: %s has shape %s, the recorded dimensions make it %s" % (label, what, tuple(have), tuple(want)))


def chain_shapes(lab, c, op, label, envs=True):
    g, o = c.g, c.o
    D, q = recorded(c)
    N = o.f["N"]
    if len(D) != N + 1 or len(q) != N + 1:
        lab.viol(c, "dimensions disagree", op, "D", "%s: %d bonds and %d sites are recorded for a chain of %d sites" % (label, len(D), len(q) - 1, N))
        return
    for n in range(1, N + 1):
        same(lab, c, op, label, "A[%d]" % n, shape(g, c.A(n)), (q[n], D[n - 1], D[n]), "A")
    for n in range(N + 1):
        for w in ("l", "r") if envs else ():
            if o.f[w].items[n] is not None:
                same(lab, c, op, label, "%s[%d]" % (w, n), shape(g, o.f[w].items[n]), (D[n], D[n]), w)


def block_shapes(lab, b, op, label, envs=True, o=None):
    g, o = b.g, o or b.o
    D, q, L = o.f["D"], o.f["q"], o.f["L"]
    if not all(isinstance(x, int) for x in (D, q, L)):
        raise Undecided("recorded dimensions")
    for nm in ("A", "l", "r"):
        v = o.f[nm].items
        if len(v) != L:
            lab.viol(b, "dimensions disagree", op, "L", "%s: %d entries of %s in a block of %d sites" % (label, len(v), nm, L))
            return
        if nm != "A" and not envs:
            continue
        for k in range(L):
            same(lab, b, op, label, "%s[%d]" % (nm, k), shape(g, v[k]), (q, D, D) if nm == "A" else (D, D), nm)
    for nm in ("lL_before_CF", "rL_before_CF"):
        if envs and o.f.get(nm) is not None:
            same(lab, b, op, label, nm, shape(g, o.f[nm]), (D, D), nm)
    if "K" in o.f and isinstance(o.f["K"], Lst):
        for k, x in enumerate(o.f["K"].items):
            if x is not None:
                same(lab, b, op, label, "K[%d]" % k, shape(g, x), (D, D), "K")


def sand_shapes(lab, c, op, label, envs=True):
    g, o = c.g, c.o
    D, q = recorded(c)
    N = o.f["N"]
    if len(D) != N + 2 or len(q) != N + 2:
        lab.viol(c, "dimensions disagree", op, "D", "%s: %d bonds and %d sites are recorded for a window of %d sites" % (label, len(D), len(q), N))
        return
    for n in range(1, N + 1):
        same(lab, c, op, label, "A[%d]" % n, shape(g, c.A(n)), (q[n], D[n - 1], D[n]), "A")
    for n in range(N + 1):
        for w in ("l", "r") if envs else ():
            if o.f[w].items[n] is not None:
                same(lab, c, op, label, "%s[%d]" % (w, n), shape(g, o.f[w].items[n]), (D[n], D[n]), w)
    for side, n in (("uni_l", 0), ("uni_r", N)):
        u = o.f[side].f
        if u["D"] != D[n]:
            lab.viol(c, "dimensions disagree", op, side, "%s: the bond between the window and %s is recorded with dimension %s, the block has %s" % (label, side, D[n], u["D"]))


def misfit(lab, op, label):
    def f(e, rig):
        if "ValueError" in str(e) and "truth value" not in str(e):
            lab.viol(rig, "arrays of different dimensions are combined", op, "shape", "%s: raises %s" % (label, e))
            return True
        return False
    return f


# ------------------------------------------------------------------ the dimensions after an operation
WIDE = {3: ([1, 2, 3, 1], [0, 2, 3, 3]), 4: ([1, 3, 4, 2, 1], [0, 3, 2, 2, 3]), 5: ([1, 2, 3, 4, 2, 1], [0, 2, 2, 3, 2, 2])}


def profiles(D):
    """new dimension profiles not above the present one, the untouched, single-bond and all-bond cases among them"""
    out = []
    for n in range(1, len(D) - 1):
        for d in range(2, D[n]):
            out.append(D[:n] + [d] + D[n + 1:])
    out.append([1] + [max(2, d - 1) if d > 2 else d for d in D[1:-1]] + [1])
    out.append([1] + [min(2, d) for d in D[1:-1]] + [1])
    return [list(x) for x in sorted(set(map(tuple, out))) if list(x) != list(D)]


def chain_ops(lab, thorough):
    for cls in ("EvoMPS_MPS_Generic", "EvoMPS_TDVP_Generic"):
        for N in (3, 4) + ((5,) if thorough else ()):
            for gf in ("right", "left"):
                D0 = WIDE[N][0]
                jobs = [("truncate", dict(new_D=Lst(p, "arr")), None, "new_D=%s" % p) for p in profiles(D0)]
                jobs += [("truncate", dict(new_D=Lst(p, "arr"), update=False), None, "new_D=%s, update=False" % p) for p in profiles(D0)]
                for big in sorted(set(D0)):
                    if big > 2:
                        for kw in (dict(), dict(update=False)):
                            jobs.append(("auto_truncate", kw, {big: big - 1}, "one value below the tolerance on bonds of dimension %d%s" % (big, ", update=False" if kw else "")))
                        for kw in (dict(auto_truncate=True), dict(auto_truncate=True, restore_CF_after_trunc=False)):
                            jobs.append(("update", kw, {big: big - 1}, "%s, one value below the tolerance on bonds of dimension %d" % (", ".join("%s=%s" % x for x in kw.items()), big)))
                jobs += [("set_state_product", "psi", None, ""), ("set_state_from_tensors", "As", None, ""), ("apply_op_MPO", "mpo", None, ""), ("update", {}, None, ""), ("randomize", {}, None, "")]
                for op, kw, kept, txt in jobs:
                    chain_op(lab, cls, N, gf, op, kw, kept, txt)


def tensors_arg(c):
    """tensors of another dimension profile"""
    D = [1] + [d + 1 for d in c.D[1:-1]] + [1]
    return Lst([None] + [c.g.site(("N", n), (c.q[n], D[n - 1], D[n])) for n in range(1, c.N + 1)]), D


def chain_op(lab, cls, N, gf, op, kw, kept, txt):
    label = "%s: %s(%s), %s gauge, N=%d" % (cls, op, txt, gf, N)
    first = op in ("truncate", "auto_truncate")

    def body(c):
        g = c.g
        new = None
        if first:
            c.call("restore_CF")
        Mask.kept = kept or {}
        try:
            if kw == "psi":
                c.call(op, *args_chain(c, ("psi",)))
                new = [1] * (N + 1)
            elif kw == "As":
                t, new = tensors_arg(c)
                c.call(op, t)
            elif kw == "mpo":
                c.call(op, *args_chain(c, ("mpo", 1)))
                new = [1] + [2 * d for d in c.D[1:-1]] + [1]
            else:
                c.call(op, **kw)
                new = list(kw["new_D"].items) if "new_D" in kw else None
        finally:
            Mask.kept = {}
        if kept:
            new = [kept.get(d, d) for d in c.D]
        chain_shapes(lab, c, op, label, envs=kw != "As")
        D = recorded(c)[0]
        if new is not None:
            if D == new:
                lab.ctx.count("profiles reached")
            elif op in ("truncate", "auto_truncate", "update"):
                lab.viol(c, "wrong dimension profile", op, "D", "%s: the bonds have dimensions %s instead of %s" % (label, D, new))
            else:
                lab.ctx.count("profiles changed by the following update")
    lab.scen(label, lambda dec: Chain(lab.prog, cls, *WIDE[N], decisions=dec, fields=[("gauge_fixing", gf), ("canonical_form", gf)]), body, cap=4, raised=misfit(lab, op, label))


# ------------------------------------------------------------------ which Schmidt vectors a truncation keeps
def part_of(g, v):
    """(symbol, row indices, column indices) of a (repeatedly) sliced unknown"""
    one = g.G.single(g.G.norm(v.lc)) if v.lc is not None else None
    if one is None:
        return None
    c, m, w = one
    fs = [f for f in w]
    if not fs and len(m) == 1:
        return None
    if len(fs) != 1 or fs[0][1] or fs[0][2] or fs[0][3] != 1:
        return None
    return sliced(g, fs[0][0])


def sliced(g, s):
    if s.name[0] == "F" and s.name[1] == "part":
        o, ix = s.data[1]
        one = g.G.single(g.G.norm(dict(o[1]))) if o[0] == "m" else None
        if one is None or len(one[2]) != 1 or one[2][0][1] or one[2][0][2] or one[2][0][3] != 1:
            return None
        inner = sliced(g, one[2][0][0])
        if inner is None:
            return None
        sym, dims = inner
        if ix[0] != "l" or len(ix[1]) > len(dims):
            return None
        out = list(dims)
        for k, i in enumerate(ix[1]):
            if i[0] != "l" or i[1][0] != ("c", "slice"):
                return None
            a = [x[1] for x in i[1][1:]]
            if not all(x is None or isinstance(x, int) for x in a):
                return None
            out[k] = tuple(out[k][slice(*a)])
        return sym, tuple(out)
    if s.name[:2] == ("F", "diagonal") and s.name[-1] == "diag":
        # a diagonal matrix made of a part of the values
        x = s.name[2]
        if x[0] != "m" or len(x[1]) != 1 or x[1][0][0][0] or len(x[1][0][0][1]) != 1 or x[1][0][0][1][0][1:] != (0, 0, 1):
            return None
        i = x[1][0][0][1][0][0]
        t = [y for y in g.G.tab.values() if y.id == i]
        return sliced(g, t[0]) if t else None
    if s.shape is None:
        return None
    dims = [x for x in s.shape if isinstance(x, int)]
    if s.diag:
        dims = dims[:1]
    return s, tuple(tuple(range(d)) for d in dims)


def order_of(g, v):
    """are the diagonal entries of a canonical environment ascending or descending"""
    one = g.G.single(g.G.norm(v.lc)) if v.lc is not None else None
    if one is None or len(one[2]) != 1 or one[2][0][3] <= 0:
        return None
    s = one[2][0][0]
    if s.name[0] != "fac":
        return None
    return {"eigh": "ascending", "svd": "descending"}.get(s.name[1])


def keep(order, d, dn):
    return tuple(range(d - dn, d)) if order == "ascending" else tuple(range(dn))


def canonical(c, gf):
    """fresh tensors in a canonical form whose Schmidt values are the unknowns lam"""
    g, o = c.g, c.o
    c.D = recorded(c)[0]
    c.fill()
    for n in range(c.N + 1):
        d = c.D[n]
        lam = g.eye(d) if d == 1 else Ar("mat", g.G.lc([(g.G.sym(("lam", n), (d, d), herm=True, diag=True), 0, 0, 1)]), shape=(d, d), struct="diag")
        o.f["l"].items[n] = lam if gf == "right" else g.eye(d)
        o.f["r"].items[n] = g.eye(d) if gf == "right" else lam


def slices_ok(lab, c, op, label, tensors, bases, orders, D, what=lambda n: "A[%d]" % n):
    """tensors: [(site, tensor, left bond, right bond)]"""
    g = c.g
    for n, t, lb, rb in tensors:
        t = g.asar(t)
        if t is None or t.items is None:
            raise Undecided("tensor")
        for s, x in enumerate(t.items):
            p = part_of(g, x)
            if p is None or p[0].name[0] != "slice":
                raise Undecided("how the tensor of site %s was truncated" % n)
            sym, (rows, cols) = p
            if sym.data[0] is not bases[n] or sym.data[1] != s:
                lab.viol(c, "truncated from another tensor", op, "A", "%s: component %d of %s is part of another tensor" % (label, s, what(n)))
                continue
            for side, idx, b, old in (("rows", rows, lb, sym.shape[-2]), ("columns", cols, rb, sym.shape[-1])):
                if orders.get(b) is None:
                    if old != D[b]:
                        raise Undecided("order of the Schmidt values of bond %s" % b)
                    want = tuple(range(old))
                else:
                    want = keep(orders[b], old, D[b])
                if idx == want:
                    lab.ctx.count("kept rows and columns")
                else:
                    lab.viol(c, "not the largest Schmidt values are kept", op, side, "%s: %s keeps the %s %s of bond %s; the %d largest of its %s values are at %s" %
                             (label, what(n), side, list(idx), b, D[b], orders.get(b, "given"), list(want)))
            lab.ctx.count("truncated components")


def kept_values(lab, c, op, label, w, b, v, order, d, dn, name):
    p = part_of(c.g, v) if v is not None else None
    if p is None or p[0].name[0] != "lam":
        lab.ctx.count("environments not expressed in the Schmidt values")
        return
    if p[0].name != name:
        lab.viol(c, "environment of another bond", op, w, "%s: %s of bond %s holds the Schmidt values of another bond" % (label, w, b))
    elif p[1][0] != keep(order, d, dn):
        lab.viol(c, "environment does not keep the values of its bond", op, w, "%s: %s of bond %s keeps the values %s, the tensors keep %s" % (label, w, b, list(p[1][0]), list(keep(order, d, dn))))
    else:
        lab.ctx.count("environments with the kept values")


def chain_truncation(lab, thorough):
    for cls in ("EvoMPS_MPS_Generic", "EvoMPS_TDVP_Generic"):
        for N in (3, 4) + ((5,) if thorough else ()):
            for gf in ("right", "left"):
                D0 = WIDE[N][0]
                for new in profiles(D0):
                    for op in ("truncate", "auto_truncate", "update"):
                        one_truncation(lab, cls, N, gf, D0, new, op)


def one_truncation(lab, cls, N, gf, D0, new, op):
    label = "%s: %s to %s from canonical form, %s gauge, N=%d" % (cls, op, new, gf, N)

    def body(c):
        g, o = c.g, c.o
        c.call("restore_CF")
        lam = "l" if gf == "right" else "r"
        orders = {n: order_of(g, g.asar(c.lr(lam, n))) for n in range(N + 1)}
        for n in range(N + 1):
            if D0[n] > 1 and c.D[n] == D0[n] and orders[n] is None:
                raise Undecided("order of the Schmidt values of bond %d" % n)
        c.D = list(D0)
        o.f["D"] = Lst(list(D0), "arr")
        g.callfn(g.method(c.cls, "_init_arrays"), [], {}, o)
        canonical(c, gf)
        bases = list(c.bases)
        tol = g.F("tol", [0], shape=())
        o.f["zero_tol"] = g.F("other tol", [0], shape=())
        seen = []

        def kept(m):
            nm = lam_name(g, m.a)
            seen.append((nm, m.t))
            return new[nm[1]] if nm is not None else m.a.shape[0]
        Mask.kept = kept
        try:
            if op == "truncate":
                c.call(op, Lst(list(new), "arr"), update=False)
            elif op == "auto_truncate":
                c.call(op, update=False, zero_tol=tol)
            else:
                g.intercept["restore_CF"] = lambda gi, f, a, k: None
                o.f["zero_tol"] = tol
                c.call(op, auto_truncate=True, restore_CF_after_trunc=False)
        finally:
            Mask.kept = {}
        D = recorded(c)[0]
        if D != new:
            lab.viol(c, "wrong dimension profile", op, "D", "%s: the bonds have dimensions %s" % (label, D))
            return
        for nm, t in seen:
            if nm is not None and (t is None or not isinstance(t, Ar) or not g.G.eq(t.lc, tol.lc)):
                lab.viol(c, "another tolerance decides what is discarded", op, "zero_tol", "%s: the values of bond %s are not compared with the tolerance" % (label, nm[1]))
        chain_shapes(lab, c, op, label, envs=op == "update")
        tensors = [(n, c.A(n), n - 1, n) for n in range(1, N + 1)]
        slices_ok(lab, c, op, label, tensors if op != "update" else [(n, unscaled(g, t), a, b) for n, t, a, b in tensors], bases, orders, D)
        if op == "update":
            for n in range(1, N):
                kept_values(lab, c, op, label, lam, n, unscaled(g, g.asar(c.lr(lam, n))), orders[n], D0[n], D[n], ("lam", n))
    lab.scen(label, lambda dec: Chain(lab.prog, cls, list(D0), WIDE[N][1], decisions=dec, fields=[("gauge_fixing", gf), ("canonical_form", gf)]), body, cap=4, raised=misfit(lab, op, label))


def unscaled(g, t):
    """without scalar factors"""
    t = g.asar(t)
    if t is None or t.shape == ():
        return t
    if t.items is not None:
        return Ar(t.kind, items=[unscaled(g, x) for x in t.items], shape=t.shape)
    lc = g.G.norm(t.lc)
    if len(lc) == 1:
        (m, w), c = next(iter(lc.items()))
        if w:
            return Ar(t.kind, {((), w): 1.0 + 0j}, shape=t.shape, struct=t.struct)
    return t


def lam_name(g, a):
    """the Schmidt values an array of magnitudes consists of"""
    hit = set()

    def go(x):
        if hasattr(x, "id") and hasattr(x, "name"):
            if x.name[0] == "lam":
                hit.add(x.name)
            else:
                go(x.data)
        elif isinstance(x, dict):
            for k in x:
                go(k)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(a.lc or {})
    return next(iter(hit)) if len(hit) == 1 else None


def block_truncation(lab, thorough):
    for cls in ("EvoMPS_MPS_Uniform", "EvoMPS_TDVP_Uniform"):
        for L in (1, 2, 3):
            for sg in (True, False):
                for counts in ((2,) * L, (3, 2, 3)[:L], (2, 3, 2)[:L]):
                    for op in ("truncate", "auto_truncate", "update"):
                        one_block_truncation(lab, cls, L, sg, counts, op)


def one_block_truncation(lab, cls, L, sg, counts, op):
    D0, new = 4, max(counts)
    label = "%s: %s from dimension %d with %s values above the tolerance, symm_gauge=%s, L=%d" % (cls, op, D0, list(counts), sg, L)

    def body(b):
        g, o = b.g, b.o
        install_ppinv(b)
        b.call("restore_CF")
        orders = {k: order_of(g, g.asar(b.lr("l", k))) for k in range(L)}
        if any(x is None for x in orders.values()):
            raise Undecided("order of the Schmidt values")
        for k in range(L):
            t = o.f["A"].items[k]
            t.become(g.site(("T", k), (2, D0, D0)))
        bases = [g.decomp(t)[2] for t in o.f["A"].items]
        for k in range(L):
            lam = Ar("mat", g.G.lc([(g.G.sym(("lam", k), (D0, D0), herm=True, diag=True), 0, 0, 1)]), shape=(D0, D0), struct="diag")
            o.f["l"].items[k] = lam
            o.f["r"].items[k] = lam.copy() if sg else g.eye(D0)
        tol = g.F("tol", [0], shape=())
        o.f["zero_tol"] = tol if op == "update" else g.F("other tol", [0], shape=())
        seen = []

        def kept(m):
            nm = lam_name(g, m.a)
            seen.append((nm, m.t))
            return counts[nm[1]] if nm is not None else m.a.shape[0]
        Mask.kept = kept
        at = [0]
        try:
            if op == "truncate":
                b.call(op, new, update=False)
            elif op == "auto_truncate":
                b.call(op, update=False, zero_tol=tol)
            else:
                for nm in ("restore_CF", "calc_lr"):
                    g.intercept[nm] = lambda gi, f, a, k: None
                b.call(op, auto_truncate=True)
        finally:
            Mask.kept = {}
        if o.f["D"] != new:
            lab.viol(b, "wrong dimension", op, "D", "%s: the bonds have dimension %s" % (label, o.f["D"]))
            return
        for nm, t in seen:
            if nm is not None and (t is None or not isinstance(t, Ar) or not g.G.eq(t.lc, tol.lc)):
                lab.viol(b, "another tolerance decides what is discarded", op, "zero_tol", "%s: the values of bond %s are not compared with the tolerance" % (label, nm[1]))
        block_shapes(lab, b, op, label)
        b.D = new
        slices_ok(lab, b, op, label, [(k, b.A(k), (k - 1) % L, k) for k in range(L)], bases, orders, {k: new for k in range(L)}, what=lambda n: "A[%d]" % n)
        for k in range(L):
            for w in ("l", "r") if sg else ("l",):
                kept_values(lab, b, op, label, w, k, g.asar(b.lr(w, k)), orders[k], D0, new, ("lam", k))
    lab.scen(label, lambda dec: Block(lab.prog, cls, D0, 2, L, decisions=dec, fields=[("symm_gauge", sg)]), body, cap=4, raised=misfit(lab, op, label))


# ------------------------------------------------------------------ dynamic expansion
def writers(g, x, dl, dr):
    """who wrote each entry of a matrix assembled by slice assignments: {(i, j): [supports...]}"""
    stack = []
    v = x
    while True:
        one = g.G.single(g.G.norm(v)) if v else None
        s = None
        if one is not None and len(one[2]) == 1 and one[2][0][1:] == (0, 0, 1) and not one[1]:
            s = one[2][0][0]
        if s is None or s.name[0] != "F" or s.name[1] != "stored":
            break
        o, ix, val = s.data[1]
        stack.append((ix, val))
        if o[0] != "m":
            return None
        v = dict(o[1])
    cells = {(i, j): v for i in range(dl) for j in range(dr)}
    for ix, val in reversed(stack):
        if ix[0] != "l":
            return None
        sel = []
        for i in ix[1]:
            if i[0] == "l" and i[1] and i[1][0] == ("c", "slice"):
                a = [y[1] for y in i[1][1:]]
                if not all(y is None or isinstance(y, int) for y in a):
                    return None
                sel.append(slice(*a))
            elif i[0] == "c" and isinstance(i[1], int):
                sel.append(slice(i[1], i[1] + 1))
            else:
                return None
        while len(sel) < 2:
            sel.append(slice(None))
        if len(sel) != 2:
            return None
        for i in range(dl)[sel[0]]:
            for j in range(dr)[sel[1]]:
                cells[(i, j)] = val
    return cells


def names_in(g, val):
    """(kernel or role, first index) of everything a stored value is made of"""
    out, seen = set(), set()

    def go(x):
        if hasattr(x, "id") and hasattr(x, "name"):
            if x.id in seen:
                return
            seen.add(x.id)
            if x.name[0] == "F":
                a = x.data[1]
                out.add((x.data[0], a[0][1] if a and a[0][0] == "c" else None))
            elif x.name[0] == "site":
                out.add(("A", x.name[-1]))
            go(x.data)
        elif isinstance(x, dict):
            for y in x:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(val)
    return out


def assembled(lab, c, op, label, n, t, old, new, left, right, what):
    """the old block keeps its place, the new columns come from the expansion of the right bond, the new rows from that of the left"""
    g = c.g
    t = g.asar(t)
    (ol, orr), (nl, nr) = old, new
    if t is None or t.items is None and old != new:
        raise Undecided("how %s is assembled" % what)
    for x in t.items or [t]:
        if (ol, orr) == (nl, nr):
            cells = {(0, 0): x.lc}
        else:
            cells = writers(g, x.lc, nl, nr)
        if cells is None:
            raise Undecided("how %s is assembled" % what)
        for (i, j), val in cells.items():
            nm = names_in(g, val)
            bb = set(y for y in nm if y[0] in ("BB1", "BB2"))
            if i < ol and j < orr:
                want, where = set(), "the old block"
                if not set([("A", n), ("B", n)]) <= nm:
                    lab.viol(c, "the expanded tensor does not contain the old one in its old place", op, "A", "%s: entry (%d, %d) of %s does not come from the stepped tensor %s" % (label, i, j, what, sorted(map(str, nm))))
                    return
            elif i < ol:
                want, where = set([("BB1", right)]), "the new columns"
            elif j < orr:
                want, where = set([("BB2", left)]), "the new rows"
            else:
                want, where = set(), "the corner"
            if bb != want:
                lab.viol(c, "the expansion of another bond or in the wrong place", op, "A", "%s: %s of %s, entry (%d, %d), hold %s instead of %s" %
                         (label, where, what, i, j, sorted(bb) or "nothing", sorted(want) or "nothing"))
                return
    lab.ctx.count("expanded tensors assembled from matching parts")


def expansion(g, c, kind, short):
    """the kernel that computes the new columns and rows of a bond returns as many as it may (short: one fewer, or nothing)"""
    calls = []

    def bb(gi, f, a, k):
        if getattr(f, "self_", None) is not None:
            return Undecided
        fn = getattr(f, "fn", f)
        a = dict(zip([x.arg for x in fn.args.args], a))
        a.update(k)
        for x, d in zip([x.arg for x in fn.args.args][::-1], fn.args.defaults[::-1]):
            a.setdefault(x, d.value if hasattr(d, "value") else None)
        hits = set(x[1] for x in names_in(gi, gi.snap(a["Vlh"])) if x[0] == "A")
        cap = a["dD_max"]
        if len(hits) != 1 or not isinstance(cap, int):
            raise Undecided("which bond is expanded, by how much")
        n = next(iter(hits))
        d = cap - short
        if short == 9 or d <= 0:
            calls.append((n, 0))
            return (None, None, 0)
        calls.append((n, d))
        if kind == "b":
            n1, sh1, sh2 = n, (c.q, c.D, d), (c.q, d, c.D)
        else:
            n1, sh1, sh2 = n, (c.q[n], c.D[n - 1], d), (c.q[n + 1], d, c.D[n + 1])
        return (gi.F("BB1", [n1], shape=sh1), gi.F("BB2", [n1], shape=sh2), d)
    g.intercept["calc_BB_2s"] = bb
    return calls


def expansions(lab, thorough):
    caps = [(2, 0), (1, 0), (2, 4), (5, 4), (1, 4), (3, 3), (2, 2), (2, 5), (16, 6)]
    for dd, dm in caps:
        for short in (0, 1, 9):
            for N in (3, 4) + ((5,) if thorough else ()):
                for kw in (dict(), dict(calc_Y_2s=True)):
                    expand_chain(lab, N, dd, dm, short, kw)
            for L in (1, 2, 3):
                expand_block(lab, L, dd, dm, short)
            for N, L, Dw in ((4, 1, [2, 3, 4, 3, 2]), (3, 2, [2, 4, 3, 2]), (4, 2, [2, 2, 3, 4, 2])):
                if dm:
                    expand_window(lab, N, L, Dw, dd, dm, short)


def within(lab, c, op, label, old, new, dd, dm, n):
    if new > old and dm and new > dm:
        lab.viol(c, "the cap on the dimension is exceeded", op, "D_max", "%s: bond %s grows from %d to %d, above D_max" % (label, n, old, new))
    elif new - old > dd:
        lab.viol(c, "the cap on the growth is exceeded", op, "dD_max", "%s: bond %s grows from %d to %d, by more than dD_max" % (label, n, old, new))
    elif new < old:
        lab.viol(c, "an expansion reduces a dimension", op, "D", "%s: bond %s shrinks from %d to %d" % (label, n, old, new))
    else:
        lab.ctx.count("bonds within the caps")


def expand_chain(lab, N, dd, dm, short, kw):
    label = "take_step(dynexp=True, dD_max=%d, D_max=%d%s), N=%d%s" % (dd, dm, "".join(", %s=%s" % x for x in kw.items()), N, {0: "", 1: ", one vector fewer than allowed", 9: ", nothing found"}[short])

    def body(c):
        g, o = c.g, c.o
        expansion(g, c, "c", short)
        g.intercept["calc_B_n"] = lambda s, f, a, k: s.F("B", [a[0]], shape=(c.q[a[0]], c.D[a[0] - 1], c.D[a[0]]))
        old = list(c.D)
        c.call("take_step", g.F("dtau", [0], shape=()), dynexp=True, dD_max=dd, D_max=dm, **kw)
        chain_shapes(lab, c, "take_step", label, envs=False)
        D = recorded(c)[0]
        for n in range(N + 1):
            within(lab, c, "take_step", label, old[n], D[n], dd, dm, n)
        for n in range(1, N + 1):
            assembled(lab, c, "take_step", label, n, c.A(n), (old[n - 1], old[n]), (D[n - 1], D[n]), n - 1, n, "A[%d]" % n)
    lab.scen(label, lambda dec: Chain(lab.prog, "EvoMPS_TDVP_Generic", *WIDE[N], decisions=dec), body, cap=4, raised=misfit(lab, "take_step", label))


def expand_block(lab, L, dd, dm, short):
    dm = dm or 128
    label = "take_step(dynexp=True, dD_max=%d, D_max=%d), L=%d%s" % (dd, dm, L, {0: "", 1: ", one vector fewer than allowed", 9: ", nothing found"}[short])
    if short:
        return          # the block can not do with fewer: every bond has one common dimension

    def body(b):
        g, o = b.g, b.o
        expansion(g, b, "b", short)
        g.intercept["calc_B"] = lambda s, f, a, k: Lst([s.F("B", [i], shape=(b.q, b.D, b.D)) for i in range(L)])
        old = b.D
        b.call("take_step", g.F("dtau", [0], shape=()), dynexp=True, dD_max=dd, D_max=dm)
        block_shapes(lab, b, "take_step", label, envs=False)
        D = o.f["D"]
        within(lab, b, "take_step", label, old, D, dd, dm, "every")
        for k in range(L):
            assembled(lab, b, "take_step", label, k, b.A(k), (old, old), (D, D), (k - 1) % L, k, "A[%d]" % k)
    lab.scen(label, lambda dec: Block(lab.prog, "EvoMPS_TDVP_Uniform", 2, 2, L, decisions=dec), body, cap=4, raised=misfit(lab, "take_step", label))


def expand_window(lab, N, L, Dw, dd, dm, short):
    label = "take_step(dynexp=True, dD_max=%d, D_max=%d), window of %d sites with bonds %s, L=%d%s" % (dd, dm, N, Dw, L, {0: "", 1: ", one vector fewer than allowed", 9: ", nothing found"}[short])

    def body(c):
        g, o = c.g, c.o
        expansion(g, c, "s", short)
        B = lambda s, n: s.F("B", [n], shape=(c.q[n], c.D[n - 1], c.D[n]))
        g.intercept["calc_B"] = lambda s, f, a, k: Lst([None] + [B(s, n) for n in range(1, N + 1)])
        old = list(c.D)
        c.call("take_step", g.F("dtau", [0], shape=()), dynexp=True, dD_max=dd, D_max=dm)
        sand_shapes(lab, c, "take_step", label, envs=False)
        D = recorded(c)[0]
        for n in range(N + 1):
            within(lab, c, "take_step", label, old[n], D[n], dd, dm, n)
        for n in range(1, N + 1):
            assembled(lab, c, "take_step", label, n, c.A(n), (old[n - 1], old[n]), (D[n - 1], D[n]), n - 1, n, "A[%d]" % n)
    lab.scen(label, lambda dec: Sand(lab.prog, "EvoMPS_TDVP_Sandwich", N, 2, L, Dw=Dw, decisions=dec), body, cap=4, raised=misfit(lab, "take_step", label))


def kernel_caps(lab, thorough):
    """the kernel itself: never more vectors than allowed, never one whose singular value is below the tolerance, the same
    leading ones in the columns for the left tensor, in the rows for the right one and in the values between them"""
    fn = None
    for m, f in lab.prog.all_functions():
        if getattr(f, "name", None) == "calc_BB_2s" and "tdvp_common" in m.path:
            fn = f
    if fn is None:
        lab.ctx.undec("calc_BB_2s", "not found")
        return
    for above in (2, 3, 4):
        for cap in (2, 3, 4, 16):
            one_kernel(lab, fn, above, cap)


class Bench(object):
    """an interpreter without an object"""
    def __init__(self, prog, decisions, fn):
        self.g, self.cls, self.fn = GI(prog, decisions), None, fn


def one_kernel(lab, fn, above, cap):
    label = "calc_BB_2s with %d singular values above the tolerance, dD_max=%d" % (above, cap)

    def bad(rule, construct, msg):
        lab.ctx.violation(rule, fn._mod.path, fn.name, construct, label + ": " + msg, fn.lineno)

    def body(b):
        g = b.g
        ten = lambda nm, sh: Ar("ten", items=[g.F(nm, [s], shape=sh[1:]) for s in range(sh[0])], shape=sh)
        Y = g.F("Y", [0], shape=(5, 4))
        Vl, Vr = ten("Vl", (2, 5, 3)), ten("Vr", (3, 4, 4))
        li, ri = g.F("li", [0], shape=(3, 3)), g.F("ri", [0], shape=(4, 4))
        tol = g.F("tol", [0], shape=())
        want = min(above, cap)

        def kept(m):
            if not isinstance(m.t, Ar) or not g.G.eq(m.t.lc, tol.lc):
                bad("another tolerance decides what is discarded", "sv_tol", "the singular values are not compared with the tolerance")
            return above
        Mask.kept = kept
        try:
            r = g.callfn(fn, [Y, Vl, Vr, li, ri], {"dD_max": cap, "sv_tol": tol})
        finally:
            Mask.kept = {}
        lab.ctx.analysed.add(fn.name)
        if not isinstance(r, tuple) or len(r) != 3:
            raise Undecided("result")
        if r[0] is None and r[1] is None and r[2] == 0:
            lab.ctx.count("failed decompositions expand nothing")
            return
        if r[2] != want:
            bad("wrong number of new dimensions", "dD", "%s new dimensions are returned instead of %d" % (r[2], want))
            return
        for i, sh in ((0, (2, 3, want)), (1, (3, want, 4))):
            have = shape(g, r[i])
            if have is not None and have != sh:
                bad("dimensions disagree", "shape", "result %d has shape %s instead of %s" % (i, have, sh))
        if want == 0:
            return
        seen = set()

        def go(x):
            if hasattr(x, "id") and hasattr(x, "name"):
                if x.id in seen:
                    return
                seen.add(x.id)
                p = sliced(g, x) if x.name[0] == "F" and x.name[1] in ("part", "diagonal") else None
                if p is not None and p[0].name[:2] == ("fac", "svd"):
                    dims = tuple(y for y in p[0].shape if isinstance(y, int))
                    full = [len(y) for y in p[1]]
                    for axis, ix in enumerate(p[1]):
                        role = p[0].name[2]
                        if (role, axis) in ((0, 1), (2, 0), (1, 0)):
                            if ix != tuple(range(want)):
                                bad("not the largest singular values are kept", "slice", "factor %d of the decomposition contributes the vectors %s" % (role, list(ix)))
                            else:
                                lab.ctx.count("leading singular vectors kept")
                    return
                go(x.data)
            elif isinstance(x, dict):
                for y in x:
                    go(y)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    go(y)
        for i in (0, 1):
            for x in (r[i].items or [r[i]]):
                go(x.lc)
    lab.scen(label, lambda dec: Bench(lab.prog, dec, fn), body, cap=4)


# ------------------------------------------------------------------ blocks and windows
def block_ops(lab, thorough):
    for cls in ("EvoMPS_MPS_Uniform", "EvoMPS_TDVP_Uniform"):
        for L in (1, 2, 3):
            for sg in (True, False):
                jobs = [("expand_D", (4,), {}, (2, 4)), ("expand_D", (3,), {}, (2, 3)), ("set_q", (3,), {}, (3, 2)), ("set_q", (4, 1), {}, (4, 2)), ("set_q", (2, 0), {}, (2, 2)),
                        ("randomize", (), {}, (2, 2)), ("update", (), {}, (2, 2))]
                if L > 1:
                    jobs.append(("convert_to_TI_blocked", (), {}, None))
                for op, a, k, want in jobs:
                    block_op(lab, cls, L, sg, op, a, k, want)
                if "TDVP" in cls:
                    for mode, D1 in (("expand", 2), ("truncate", 4), ("", 3), ("expand", 1)):
                        block_import(lab, cls, L, sg, mode, D1)


def block_op(lab, cls, L, sg, op, a, k, want):
    label = "%s: %s(%s), symm_gauge=%s, L=%d" % (cls, op, ", ".join(map(str, a)), sg, L)

    def body(b):
        install_ppinv(b)
        b.call(op, *a, **k)
        if want is not None and (b.o.f["q"], b.o.f["D"]) != want:
            lab.viol(b, "wrong dimension", op, "D", "%s: recorded dimensions are q=%s, D=%s instead of %s, %s" % ((label, b.o.f["q"], b.o.f["D"]) + want))
            return
        block_shapes(lab, b, op, label)
    lab.scen(label, lambda dec: Block(lab.prog, cls, 2, 2, L, decisions=dec, fields=[("symm_gauge", sg)]), body, cap=4, raised=misfit(lab, op, label))


def block_import(lab, cls, L, sg, mode, D1):
    label = "%s: import_state of a state of dimension %d into one of dimension 3%s, symm_gauge=%s, L=%d" % (cls, D1, mode and ", %s=True" % mode, sg, L)

    def body(b):
        g = b.g
        install_ppinv(b)
        As = Ar("ten", items=[g.site(("S", k), (2, D1, D1)) for k in range(L)], shape=(L, 2, D1, D1))
        st = Lst([As, g.F("saved l", [0], shape=(D1, D1)), g.F("saved r", [0], shape=(D1, D1)), g.F("saved K", [0], shape=(D1, D1))], "arr")
        r = b.call("import_state", st, **({mode: True} if mode else {}))
        if r is not True:
            raise Undecided("the import was refused")
        if b.o.f["D"] != 3:
            lab.viol(b, "wrong dimension", "import_state", "D", "%s: the imported state has dimension %s" % (label, b.o.f["D"]))
            return
        block_shapes(lab, b, "import_state", label)
    lab.scen(label, lambda dec: Block(lab.prog, cls, 3, 2, L, decisions=dec, fields=[("symm_gauge", sg)]), body, cap=4, raised=misfit(lab, "import_state", label))


def window_ops(lab, thorough):
    for cls in ("EvoMPS_MPS_Sandwich", "EvoMPS_TDVP_Sandwich"):
        for N, L, Dw in ((4, 1, [2, 3, 4, 3, 2]), (4, 2, [2, 3, 4, 3, 2]), (3, 2, [2, 4, 3, 2]), (3, 3, [2, 3, 4, 2])):
            for op, a in (("grow_left", (1,)), ("grow_right", (1,)), ("grow_left", (2,)), ("grow_right", (2,)), ("update", ()), ("restore_CF", ())):
                window_op(lab, cls, N, L, Dw, op, a)


def window_op(lab, cls, N, L, Dw, op, a):
    label = "%s: %s(%s), window of %d sites with bonds %s, L=%d" % (cls, op, ", ".join(map(str, a)), N, Dw, L)

    def body(c):
        g, o = c.g, c.o
        for u in c.blocks.values():
            install_ppinv(u)
        if op == "restore_CF":
            c.call("calc_l")
            c.call("calc_r")
        c.call(op, *a)
        sand_shapes(lab, c, op, label)
        if a:
            want = N + a[0] * L
            D = recorded(c)[0]
            exp = [2] * (a[0] * L) + Dw if op == "grow_left" else Dw + [2] * (a[0] * L)
            if o.f["N"] != want or D[:-1] != exp:
                lab.viol(c, "wrong dimension profile", op, "D", "%s: the window has %s sites and bonds %s instead of %s" % (label, o.f["N"], D[:-1], exp))
    lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, Dw=Dw, decisions=dec), body, cap=4, raised=misfit(lab, op, label))


def run(prog, ctx):
    lab = Lab(prog, ctx, "histories interpreted")
    thorough = ctx.tier == "thorough"
    lab.later()
    chain_ops(lab, thorough)
    chain_truncation(lab, thorough)
    block_truncation(lab, thorough)
    expansions(lab, thorough)
    kernel_caps(lab, thorough)
    block_ops(lab, thorough)
    window_ops(lab, thorough)
    lab.go()
