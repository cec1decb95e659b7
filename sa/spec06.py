"""C06: the effective Hamiltonian of the excitation ansatz.

The preparation and one application of the operator are evaluated in the domain of
formal tensor networks (netdom): tensors of the two vacua are different unknowns, each
loop over a physical index an open label, momentum phases integer powers.  The result
must be, network by network, the matrix element between tangent vectors written down
here from the positions of the tensor, of the bra's hole and of the Hamiltonian term."""
import ast
from .netdom import *
from .repo import qualname, AnalysisBroken


# ------------------------------------------------------------------ what is expected
class Nets(object):
    """networks of one configuration"""
    def __init__(self, s, t, w, tp):
        self.s, self.t, self.w, self.tp = s, t, w, tp

    def ops(self):
        """the Hamiltonian density minus its expectation value: (coefficient, kind)"""
        return ([(1, "tp%d" % i) for i in range(self.tp)] if self.tp else [(1, "ham")]) + [(-1, "e")]

    def B(self, u, a, b):
        x, y, z = fresh(), fresh(), fresh()
        # B[u] = l^-1/2 x (r^-1/2 Vsh[u])^dagger
        return [("lsi." + self.s, False, (a, x)), ("x", False, (x, y)), ("rsi." + self.t, True, (b, z)), ("Vsh." + self.t, True, (u, z, y))]

    def hole(self, v, a, b, out):
        """derivative of the conjugate B tensor (legs v, a, b) with respect to conj(x)[out]"""
        z = fresh()
        return [("lsi." + self.s, True, (a, out[0])), ("rsi." + self.t, False, (b, z)), ("Vsh." + self.t, False, (v, z, out[1]))]

    def ham(self, kind, bra, ket):
        if kind == "ham":
            return [("ham", False, tuple(bra) + tuple(ket))]
        if kind == "e":
            return [("e", False, ())] + [("1", False, (x, y)) for x, y in zip(bra, ket)]
        i = int(kind[2:])
        return [("h%d_%d" % (i, n), False, (x, y)) for n, (x, y) in enumerate(zip(bra, ket))]

    def strip(self, lo, hi, hl, j, left, right, hole=True, kind=None):
        """sites lo..hi; Hamiltonian from hl on (None: none); B in the ket at j (None: none);
        left/right: name of the boundary matrices; hole=False: bra is made of vacuum tensors only,
        legs left open on the left.  Returns (nodes, outputs)"""
        kb = {i: fresh() for i in range(lo - 1, hi + 1)}
        bb = {i: fresh() for i in range(lo - 1, hi + 1)}
        hs = range(hl, hl + self.w) if hl is not None else ()
        u, v = {}, {}
        nodes, out = [], None
        for i in range(lo, hi + 1):
            u[i] = fresh()
            v[i] = fresh() if i in hs else u[i]
            if j is not None and i == j:
                nodes += self.B(u[i], kb[i - 1], kb[i])
            else:
                lay = self.s if j is None and hole != "bt" and i <= 0 or j is not None and i < j else self.t
                nodes.append(("A." + lay, False, (u[i], kb[i - 1], kb[i])))
            if hole is True and i == 0:
                out = (fresh(), fresh())
                nodes += self.hole(v[i], bb[i - 1], bb[i], out)
            else:
                lay = self.s if hole is True and i < 0 else self.t
                nodes.append(("A." + lay, True, (v[i], bb[i - 1], bb[i])))
        if kind:
            nodes += self.ham(kind, [v[i] for i in hs], [u[i] for i in hs])
        if left:
            nm, c = left
            nodes.append((nm, c, (bb[lo - 1], kb[lo - 1])))
        else:
            out = (kb[lo - 1], bb[lo - 1])
        nodes.append((right, False, (kb[hi], bb[hi])))
        return tuple(nodes), out

    def t_(self, lst):
        """sum of (coef, phase, (nodes, out)) with common outputs"""
        o = (fresh(), fresh())
        return T([(o[0],), (o[1],)], [(c, p, sub(ns, dict(zip(out, o)))) for c, p, (ns, out) in lst])

    def result(self):
        w, s, t = self.w, self.s, self.t
        L, R, M = ("l." + s, False), "r." + t, None
        out = []
        for c, kind in self.ops():
            for m in range(1 - w, 1):
                hi = m + w - 1
                for j in range(m, hi + 1):
                    if j < 0 and hi == 0 and False:
                        continue
                    if j > 0 and hi < j:
                        continue
                    out.append((c, j, self.strip(m, hi, m, j, L, R, kind=kind)))
                # the tensor further to the left; M is the conjugate transpose of its sum
                out.append((c, m - 1, self.sum_left(m, hi, m, kind, R)))
        out.append((1, 0, self.strip(0, 0, None, 0, L, "K." + t)))
        out.append((1, 0, self.strip(0, 0, None, 0, ("Kl." + s, False), R)))
        out.append((1, -1, self.sum_left(0, 0, None, None, "K." + t)))
        out.append((1, 0, self.sum_right()))
        return self.t_(out)

    def sum_left(self, lo, hi, hl, kind, R):
        # every ket tensor is right of B: vacuum t
        kb = {i: fresh() for i in range(lo - 1, hi + 1)}
        bb = {i: fresh() for i in range(lo - 1, hi + 1)}
        hs = range(hl, hl + self.w) if hl is not None else ()
        nodes, u, v = [], {}, {}
        for i in range(lo, hi + 1):
            u[i] = fresh()
            v[i] = fresh() if i in hs else u[i]
            nodes.append(("A." + self.t, False, (u[i], kb[i - 1], kb[i])))
            if i == 0:
                out = (fresh(), fresh())
                nodes += self.hole(v[i], bb[i - 1], bb[i], out)
            else:
                nodes.append(("A." + (self.s if i < 0 else self.t), True, (v[i], bb[i - 1], bb[i])))
        if kind:
            nodes += self.ham(kind, [v[i] for i in hs], [u[i] for i in hs])
        nodes.append(("M", True, (kb[lo - 1], bb[lo - 1])))
        nodes.append((R, False, (kb[hi], bb[hi])))
        return tuple(nodes), out

    def sum_right(self):
        # B is right of the hole: the ket at the hole is vacuum s
        a, b, c, d, u = fresh(), fresh(), fresh(), fresh(), fresh()
        out = (fresh(), fresh())
        nodes = [("A." + self.s, False, (u, a, c)), ("l." + self.s, False, (b, a)), ("Y", False, (c, d))] + self.hole(u, b, d, out)
        return tuple(nodes), out

    def left_sum(self):
        """what M is made of: B under the bra's vacuum, adjoint"""
        a, b, c, d, u = [fresh() for _ in range(5)]
        nodes = [(nm, not k, ls) for nm, k, ls in self.B(u, a, c)] + [("l." + self.s, False, (a, b)), ("A." + self.s, False, (u, b, d))]
        return T([(c,), (d,)], [(1, 0, tuple(nodes))])

    def right_sum(self):
        out = []
        w = self.w
        for c, kind in self.ops():
            for j in range(1, w + 1):
                out.append((c, j, self.shifted(j, kind)))
        out.append((1, 1, self.shifted(1, None)))
        return self.t_(out)

    def shifted(self, j, kind):
        w = self.w if kind else 1
        kb, bb = [fresh() for _ in range(w + 1)], [fresh() for _ in range(w + 1)]
        nodes, u, v = [], [], []
        for i in range(1, w + 1):
            u.append(fresh())
            v.append(fresh() if kind else u[-1])
            nodes += self.B(u[-1], kb[i - 1], kb[i]) if i == j else [("A." + (self.s if i < j else self.t), False, (u[-1], kb[i - 1], kb[i]))]
            nodes.append(("A." + self.t, True, (v[-1], bb[i - 1], bb[i])))
        if kind:
            nodes += self.ham(kind, v, u)
        nodes.append((("r." if kind else "K.") + self.t, False, (kb[w], bb[w])))
        return tuple(nodes), (kb[0], bb[0])


# ------------------------------------------------------------------ assumed kernels
def bind(fn, args, kw):
    names = [a.arg for a in fn.args.args]
    r = dict(zip(names, args))
    r.update(kw)
    return r


def into(out, r):
    if isinstance(out, Arr):
        out.t, out.zero = (r.t, r.zero)
        return out
    return r


def kernels():
    ax = {}
    def epsl(N, args, kw, fn, node):
        b = bind(fn, args, kw)
        x, A1, A2 = b["x"], b["A1"], b["A2"]
        return into(b.get("out"), Arr(N.es("ac,sab,scd->bd", x, conj(N.t(A1)), A2)))
    def epsr(N, args, kw, fn, node):
        b = bind(fn, args, kw)
        return into(b.get("out"), Arr(N.es("sab,bd,scd->ac", b["A1"], b["x"], conj(N.t(b["A2"])))))
    for m in ("core_common", "tdvp_common"):
        ax[m + ".eps_l_noop"] = ax[m + ".eps_l_noop_inplace"] = epsl
        ax[m + ".eps_r_noop"] = ax[m + ".eps_r_noop_inplace"] = epsr
    def mmul(N, args, kw, fn, node):
        r = args[0]
        for a in args[1:]:
            r = Arr(N.dot(r, a))
        return r
    ax["matmul.mmul"] = mmul
    ax["matmul.dot_inplace"] = lambda N, args, kw, fn, node: into(bind(fn, args, kw).get("out"), Arr(N.dot(args[0], args[1])))
    ax["matmul.H"] = lambda N, args, kw, fn, node: Arr(T(N.t(args[0]).axes[::-1], conj(N.t(args[0])).terms))
    def adot(N, args, kw, fn, node):
        a, b = N.t(args[0]), N.t(args[1])
        return Arr(N.mul(conj(a), b, [(i, i) for i in range(len(a.axes))]))
    ax["matmul.adot"] = adot
    return ax


# ------------------------------------------------------------------ the scenario
def vacuum(cls, lay, w, tp, computed):
    A = Arr(atom("A." + lay, 3))
    o = Obj(cls)
    def AA(k):
        u, b = [fresh() for _ in range(k)], [fresh() for _ in range(k + 1)]
        return Arr(T([(x,) for x in u] + [(b[0],), (b[k],)], [(1, 0, tuple(("A." + lay, False, (u[i], b[i], b[i + 1])) for i in range(k)))]))
    def mat(nm):
        return Arr(atom(nm + "." + lay, 2))
    miss = lambda what: [Missing("%s of %s is used before it is computed" % (what, "the left vacuum" if lay == "s" else "the right vacuum"))]
    o.attrs = dict(L=1, q=Dim(), D=Dim(), typ=Opaque("typ"), ham_sites=w, A=[A], AA=[AA(2)], AAA=[AA(3)], l=[mat("l")], r=[mat("r")], K=[mat("K")],
                   h_expect=Arr(T((), [(1, 0, (("e", False, ()),))])), sanity_checks=False, itr_rtol=1e-12, zero_tol=1e-15, pow_itr_max=10, PPinv_use_CUDA=False,
                   ham=None if tp else Arr(atom("ham", 2 * w)), ham_tp=[[Arr(atom("h%d_%d" % (i, n), 2)) for n in (0, 1)] for i in range(tp)] if tp else None,
                   K_left=miss("K_left"), l_sqrt=miss("l_sqrt"), l_sqrt_i=miss("l_sqrt_i"), r_sqrt=miss("r_sqrt"), r_sqrt_i=miss("r_sqrt_i"), Vsh=miss("Vsh"),
                   symm_gauge=False, gauge_fixing="right")
    def calc_K_l(N, me, args, kw):
        me.attrs["K_left"][0] = mat("Kl")
        return None
    def roots(N, me, args, kw):
        for a, nm in (("l_sqrt", "ls"), ("l_sqrt_i", "lsi"), ("r_sqrt", "rs"), ("r_sqrt_i", "rsi")):
            me.attrs[a][0] = mat(nm)
        return None
    nop = lambda N, me, args, kw: Opaque("phase")
    def fidelity(N, me, args, kw):
        left = kw.get("left")
        if not isinstance(left, bool):
            raise Undec("fidelity_per_site")
        other = args[0]
        return (Opaque("fidelity"), Opaque("eigenvalue"), Vec("%sm.%s%s" % ("l" if left else "r", me.lay, other.lay)))
    o.meth = {"fidelity_per_site": fidelity, "calc_K_l": calc_K_l, "calc_l_r_roots": roots, "phase_align": nop}
    o.lay = lay
    return o


class Record(object):
    def __init__(self):
        self.calls = []


def world(prog, w, tp, same, structured):
    rec = Record()
    N = Net(prog, kernels())
    N.structured = structured
    def meth(name):
        def f(N_, args, kw, fn, node):
            raise Undec(name)
        return f
    # methods of the vacua that are other properties' subjects
    def by_obj(name):
        def f(N_, args, kw, fn, node):
            raise Undec(name)
        return f
    orig = N.apply
    def apply(f, args, kw, node=None):
        if isinstance(f, Fun) and f.me is not None and f.fn.name in getattr(f.me, "meth", {}):
            return f.me.meth[f.fn.name](N, f.me, args, kw)
        return orig(f, args, kw, node)
    N.apply = apply
    def vsh(N_, args, kw, fn, node):
        b = bind(fn, args, kw)
        a, r = N_.t(b["A"]), N_.t(b["r_s"])
        for lay in ("s", "t"):
            if diff(a, atom("A." + lay, 3)) is None and diff(r, atom("rs." + lay, 2)) is None:
                return Arr(atom("Vsh." + lay, 3))
        rec.calls.append(("vsh", node, "null vectors are computed from %s and %s" % (describe_t(a), describe_t(r))))
        return Arr(atom("Vsh.?", 3))
    N.axioms["tdvp_common.calc_Vsh"] = vsh
    def pinv(N_, args, kw, fn, node):
        b = bind(fn, args, kw)
        left = bool(b.get("left", False))
        rec.calls.append(("pinv", node, b))
        return Arr(atom("M" if left else "Y", 2))
    N.axioms["mps_uniform_pinv.pinv_1mE"] = pinv
    left = vacuum("EvoMPS_TDVP_Uniform", "s", w, tp, True)
    right = left if same else vacuum("EvoMPS_TDVP_Uniform", "t", w, tp, True)
    if not same:
        right.attrs["ham"], right.attrs["ham_tp"] = left.attrs["ham"], left.attrs["ham_tp"]
    return N, rec, left, right


def describe_t(t):
    return " + ".join(sorted(set(v[1] for v in collect(t).values()))) or "0"


def single(N, v, name):
    """is this list the one vacuum tensor?"""
    if not isinstance(v, (list, tuple)) or len(v) != 1:
        return "unknown"
    t = N.t(v[0])
    return None if diff(t, atom(name, 3)) is None else describe_t(t)


def check_pinv(N, rec, nets, same, viol, force=False):
    seen = {}
    for kind, node, b in rec.calls:
        if kind == "vsh":
            viol("null-vectors", node, b)
            continue
        left = bool(b.get("left", False))
        seen[left] = seen.get(left, 0) + 1
        what = "left-hand sum" if left else "right-hand sum"
        A1, A2 = ("A." + nets.t, "A." + nets.s) if left else ("A." + nets.s, "A." + nets.t)
        for nm, e in (("A1", A1), ("A2", A2)):
            r = single(N, b[nm], e)
            if r == "unknown":
                raise Undec("tensors of the transfer operator")
            if r is not None:
                viol("transfer-operator", node, "%s: the transfer operator has %s as %s, expected %s" % (what, r, nm, e))
        d = diff(N.t(b["x"]), nets.left_sum() if left else nets.right_sum())
        if d is not None:
            viol("summand", node, "%s: the summed vector is wrong: %s" % (what, d))
        p = b.get("p", 0)
        if not isinstance(p, Lin):
            if isinstance(p, (int, float)):
                viol("phase", node, "%s: the momentum is not used" % what)
            else:
                raise Undec("momentum")
        elif p.c != (-1 if left else 1):
            viol("phase", node, "%s: geometric series with momentum %+g p, expected %+d p" % (what, complex(p.c).real, -1 if left else 1))
        ps = b.get("pseudo", True)
        if ps is not bool(same or force):
            viol("pseudo", node, "%s: pseudo-inverse %s for %s vacua" % (what, "used" if ps else "not used", "equal" if same else "different"))
        if same or force:
            # different vacua: eigenvectors of the mixed transfer operator, of the one or of the other order
            h = lambda t: T(t.axes[::-1], conj(t).terms)
            for nm, e in (("lL", "l.s"), ("rL", "r.s")) if same else (("lL", "lm.st"), ("rL", "rm.st")):
                e = atom(e, 2)
                d = diff(N.t(b[nm]), h(e) if left and not same else e)
                if d is not None:
                    viol("fixed-point", node, "%s: %s is not the dominant eigenvector: %s" % (what, nm, d))
    return seen


def run_operator(prog, ctx, w, tp, same, structured, force=False):
    lab = "%d-site%s, %s vacua%s" % (w, " tensor-product" if tp else "", "equal" if same else "different", ", structured environments" if structured else ", pseudo-inverse forced" if force else "")
    N, rec, left, right = world(prog, w, tp, same, structured)
    name = "_prepare_excite_op_top_triv" if same else "_prepare_excite_op_top_nontriv"
    fn = prog.method("EvoMPS_TDVP_Uniform", name)
    if fn is None:
        raise AnalysisBroken("%s vanished" % name)
    ctx.count("operators evaluated")
    found = []
    def viol(rule, node, msg):
        found.append((rule, node, msg))
    op = None
    where = fn
    try:
        p = Lin(1)
        N.axioms.pop("x", None)
        op = N.call(fn, [p] if same else [right, p], {"force_pseudo": True} if force else {}, left)
        if not isinstance(op, Obj):
            raise Undec("no operator returned")
        mv = prog.method(op.cls, "matvec")
        if mv is None:
            raise AnalysisBroken("matvec vanished")
        where = prog.method(op.cls, "calc_BHB") or mv
        res = N.call(mv, [Vec("x")], {}, op)
        nets = Nets("s", "s" if same else "t", w, tp)
        seen = check_pinv(N, rec, nets, same, viol, force)
        if not found:
            d = diff(N.t(res), nets.result())
            if d is not None:
                viol("matrix-element", None, d)
            else:
                ctx.count("matrix elements equal to their definition", len(collect(nets.result())))
                ctx.count("geometric sums with the stated operator and phase", sum(seen.values()))
    except Used as u:
        viol("uninitialised", None, u.what)
        where = fn
    except Stop:
        viol("path", None, "ends with an exception")
    except Undec as u:
        ctx.undec("operator, " + lab, str(u))
        for f in N.called:
            ctx.analysed.add("%s:%s" % (f._mod.rel, qualname(f)))
        return
    for f in N.called:
        ctx.analysed.add("%s:%s" % (f._mod.rel, qualname(f)))
    q = qualname(where)
    for rule, node, msg in found:
        ctx.violation(rule, where._mod.rel, q, "%s:%s" % (q, lab), "%s: %s" % (lab, msg), getattr(node, "lineno", None) or where.lineno)


def run_pinv(prog, ctx):
    """PinvOp.matvec: x - exp(-+ip) (E x - |r)(l|x))"""
    fn = prog.method("PinvOp", "matvec")
    init = prog.method("PinvOp", "__init__")
    if fn is None or init is None:
        raise AnalysisBroken("PinvOp vanished")
    q = qualname(fn)
    outer = prog.func("mps_uniform_pinv", "pinv_1mE")
    for L in (1, 2, 3):
        for left in (False, True):
            for pseudo in (False, True):
                for whole in (False, True):
                    lab = "block of %d, %s%s%s" % (L, "left" if left else "right", ", pseudo" if pseudo else "", ", through pinv_1mE" if whole else "")
                    f = outer if whole else fn
                    qq = qualname(f)
                    ctx.count("transfer operators evaluated")
                    N = Net(prog, kernels())
                    A1, A2 = [Arr(atom("A%d.s" % i, 3)) for i in range(L)], [Arr(atom("A%d.t" % i, 3)) for i in range(L)]
                    b = dict(p=Lin(1), A1=A1, A2=A2, lL=Arr(atom("lL", 2)) if pseudo else None, rL=Arr(atom("rL", 2)) if pseudo else None, left=left, pseudo=pseudo)
                    try:
                        if whole:
                            given = []
                            def solver(N_, o, args, kw):
                                given.append((args, kw))
                                return (Vec("solution"), 0)
                            r = N.call(outer, [Arr(atom("rhs", 2))], dict(b, solver=("stub", None, solver)))
                            if len(given) != 1 or len(given[0][0]) < 2 or not isinstance(given[0][0][0], Obj):
                                raise Undec("solver call")
                            o, rhs = given[0][0][:2]
                            bad = diff(N.t(rhs), atom("rhs", 2)) or diff(N.t(r), atom("solution", 2))
                            if bad:
                                ctx.violation("solver", f._mod.rel, qq, qq + ":" + lab, "%s: right-hand side or solution: %s" % (lab, bad), f.lineno)
                        else:
                            o = Obj("PinvOp")
                            N.call(init, [], b, o)
                        got = N.t(N.call(prog.method(o.cls, "matvec"), [Vec("x")], {}, o))
                        x = atom("x", 2)
                        y = x
                        for i in (range(L) if left else range(L - 1, -1, -1)):
                            a1, a2 = N.t(A1[i]), N.t(A2[i])
                            y = N.es("ac,sab,scd->bd", y, conj(a1), a2) if left else N.es("sab,bd,scd->ac", a1, y, conj(a2))
                        if pseudo:
                            keep, other = ("lL", "rL") if left else ("rL", "lL")
                            ov = N.mul(conj(atom(other, 2)), x, [(0, 0), (1, 1)])
                            y = N.add(y, N.mul(atom(keep, 2), ov), -1)
                        exp = N.add(x, N.scale(y, 1, -1 if left else 1), -1)
                        d = diff(got, exp)
                        if d:
                            ctx.violation("transfer-operator", f._mod.rel, qq, qq + ":" + lab, "%s: %s" % (lab, d), f.lineno)
                        else:
                            ctx.count("transfer operators equal to their definition")
                    except Undec as u:
                        ctx.undec("pinv_1mE, " + lab, str(u))
                    except Stop:
                        ctx.violation("path", f._mod.rel, qq, qq + ":" + lab, lab + ": ends with an exception", f.lineno)
    ctx.analysed.add("%s:%s" % (outer._mod.rel, qualname(outer)))
    ctx.analysed.add("%s:%s" % (fn._mod.rel, q))


def run(prog, ctx):
    for w, tp in ((2, 0), (3, 0), (2, 1), (2, 2)):
        for same in (True, False):
            for structured in (False, True):
                run_operator(prog, ctx, w, tp, same, structured)
        run_operator(prog, ctx, w, tp, False, False, True)
    run_pinv(prog, ctx)
