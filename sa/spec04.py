"""C04: gauge operations leave the state unchanged and carry environments into the new gauge."""
import itertools
from .lab17 import Lab, kernels, lc_of
from .rules17 import Undecided, Raised, Lst, Ar
from .rig17 import Chain, Block, Sand, state_change, block_change, show, same_word

DIMS = {2: ([1, 2, 1], [0, 2, 3]), 3: ([1, 2, 3, 1], [0, 2, 2, 3]), 4: ([1, 2, 4, 2, 1], [0, 2, 3, 3, 2]),
        5: ([1, 2, 4, 6, 2, 1], [0, 2, 2, 3, 3, 2])}


def chain_ok(lab, c, op, label, unit=False, lr=("l", "r")):
    g = c.g
    p, s = state_change(g, c.bases, [(n, c.A(n)) for n in range(1, c.N + 1)])
    if p is not None:
        lab.viol(c, "gauge change is not cancelled", op, p.split(" (")[0].split(" of ")[0], "%s: %s" % (label, p))
        return
    lab.ctx.count("matrix products telescoping to a scalar")
    if unit:
        a = g.G.absval(s)
        a = None if a is None else g.G.norm(a)
        if a is not None and not g.G.eq(a, g.G.one()) and "fac" not in kernels(g, a):
            lab.viol(c, "norm changed", op, "overall factor", "%s: overall factor %s" % (label, show(g, s)))
    for w in lr:
        for n in range(c.N + 1):
            env_ok(lab, c, op, label, w, n, c.N)


def env_ok(lab, c, op, label, w, n, N, scale=False, at=None):
    g = c.g
    want = c.want_l(n) if w == "l" else c.want_r(n)
    have = g.asar(c.lr(w, n))
    if have is None or have.lc is None:
        lab.ctx.undec("%s %s[%d]" % (label, w, n), "not a matrix")
        return
    if not g.G.eq(have.lc, want.lc):
        k = kernels(g, g.G.norm(have.lc)) - {"fac"}
        if scale and same_word(g, have.lc, want.lc):
            lab.ctx.count("environments equal to those of the new tensors up to a norm factor")
        elif k <= kernels(g, g.G.norm(want.lc)) | {"old"}:
            lab.viol(at or c, "environment in another gauge", op, "%s[%s]" % (w, pos(n, N)),
                     "%s: %s[%d] is %s, the environment of the new tensors is %s" % (label, w, n, show(g, g.G.norm(have.lc)), show(g, g.G.norm(want.lc))))
        else:
            lab.ctx.undec("%s %s[%d]" % (label, w, n), "contains kernels %s" % sorted(k))
    else:
        lab.ctx.count("environments equal to those of the new tensors")


def pos(n, N):
    return {0: "0", N: "N"}.get(n, "n")


def generic(lab, thorough):
    Ns = (2, 3, 4, 5) if thorough else (2, 3, 4)
    for cls in ("EvoMPS_MPS_Generic", "EvoMPS_TDVP_Generic"):
        for N in Ns if "TDVP" not in cls else (3,):
            for op, u, d in (("restore_RCF", "update_l", "diag_l"), ("restore_LCF", "update_r", "diag_r")):
                for uq, ul, dl, nm in itertools.product((True, False), repeat=4):
                    label = "%s.%s(use_QR=%s, %s=%s, %s=%s, normalize_mps=%s), N=%d" % (cls, op, uq, u, ul, d, dl, nm, N)
                    lr = ("l", "r") if (ul or dl) else ("r",) if u == "update_l" else ("l",)

                    def body(c):
                        c.call(op, use_QR=uq, normalize_mps=nm, **{u: ul, d: dl})
                        chain_ok(lab, c, op, label, unit=not nm, lr=lr)
                        lab.note_calls(c)
                    lab.scen(label, lambda dec: Chain(lab.prog, cls, *DIMS[N], decisions=dec), body)
            for cf, norm, uq in itertools.product(("right", "left"), (True, False), (True, False)):
                label = "%s.restore_CF(use_QR=%s, normalize=%s), canonical_form=%s, N=%d" % (cls, uq, norm, cf, N)

                def body(c):
                    c.call("restore_CF", use_QR=uq, normalize=norm)
                    chain_ok(lab, c, "restore_CF", label, unit=not norm)
                lab.scen(label, lambda dec: Chain(lab.prog, cls, *DIMS[N], decisions=dec, fields=[("canonical_form", cf)]), body)
            for ur in (True, False):
                label = "%s.simple_renorm(update_r=%s) after calc_l, calc_r, N=%d" % (cls, ur, N)

                def body(c):
                    c.call("calc_l")
                    c.call("calc_r")
                    c.call("simple_renorm", update_r=ur)
                    chain_ok(lab, c, "simple_renorm", label, lr=("l", "r") if ur else ("l",))
                lab.scen(label, lambda dec: Chain(lab.prog, cls, *DIMS[N], decisions=dec), body)


def block_ok(lab, b, op, label, lr=True, rig=None):
    g = b.g
    p, s = block_change(g, b.bases, [b.A(k) for k in range(b.L)])
    if p is not None:
        lab.viol(b, "gauge change is not cancelled", op, "L=1" if b.L == 1 else "L>1", "%s: %s" % (label, p))
        return
    lab.ctx.count("matrix products telescoping to a scalar")
    if lr:
        for w in ("l", "r"):
            for k in range(b.L):
                env_ok(lab, b, op, label, w, k, b.L - 1)


def norm_ok(lab, b, op, label):
    """the inner product of l and r is one: their scalar factors multiply to the inverse of that of the bare fixed points"""
    g = b.g
    l, r = [g.G.norm(g.asar(b.lr(w, b.L - 1)).lc) for w in ("l", "r")]
    if len(l) != 1 or len(r) != 1:
        return
    (fl, bl), (fr, br) = g.G.bare(l), g.G.bare(r)
    mats = [Ar("mat", x, shape=(b.D, b.D)) for x in (bl, br)]
    tot = g.G.norm(g.G.mul(fl, fr))
    if kernels(g, tot) - {"adot", "trace"}:
        return
    want = g.F("adot", mats, shape=(), herm=True)
    y = g.G.norm(g.G.mul(tot, want.lc))
    if g.G.eq(y, g.G.one()):
        lab.ctx.count("inner products of l and r equal to one")
    elif kernels(g, y) <= {"adot", "trace"}:
        lab.viol(b, "norm", op, "inner product of l and r", "%s: the inner product of l and r is %s" % (label, show(g, y)))


def uniform(lab, thorough):
    for cls in ("EvoMPS_MPS_Uniform", "EvoMPS_TDVP_Uniform"):
        for L in (1, 2, 3) if "MPS_Uni" in cls or thorough else (2,):
            for D in (2, 4) if thorough else (2,):
                ops = [("restore_SCF", {}), ("restore_RCF", {}), ("restore_RCF", dict(diag_l=False)), ("restore_RCF", dict(ret_g=True)),
                       ("restore_LCF", {}), ("restore_LCF", dict(diag_r=False)), ("restore_LCF", dict(ret_g=True)), ("calc_lr", {}), ("calc_lr", dict(rescale=True, symm_gauge=False))]
                for op, kw in ops:
                    label = "%s.%s(%s), L=%d, D=%d" % (cls, op, ", ".join("%s=%s" % x for x in kw.items()), L, D)
                    kw = dict(kw)
                    flds = [("symm_gauge", kw.pop("symm_gauge"))] if "symm_gauge" in kw else []

                    def body(b):
                        before = [b.A(k).copy() for k in range(L)]
                        ret = b.call(op, **kw)
                        block_ok(lab, b, op, label)
                        if op == "calc_lr":
                            norm_ok(lab, b, op, label)
                        if kw.get("ret_g"):
                            returned(lab, b, op, label, ret, before)
                        lab.note_calls(b)
                    lab.scen(label, lambda dec: Block(lab.prog, cls, D, 2, L, decisions=dec, fields=flds), body)
                for sg in (True, False):
                    label = "%s.restore_CF(), symm_gauge=%s, L=%d" % (cls, sg, L)

                    def body(b):
                        b.call("restore_CF")
                        block_ok(lab, b, "restore_CF", label)
                    lab.scen(label, lambda dec: Block(lab.prog, cls, D, 2, L, decisions=dec, fields=[("symm_gauge", sg)]), body)


def returned(lab, b, op, label, ret, before):
    """(Gs, G_is), inverse to each other: A_new[k] = scalar * X[k-1] A_old[k] Y[k] with X, Y = G_is, Gs or Gs, G_is"""
    g = b.g
    if not isinstance(ret, (tuple, Lst, list)) or len(g.iter(ret)) != 2:
        raise Undecided("returned transformations")
    Gs, Gis = [g.iter(x) for x in g.iter(ret)]
    for k in range(b.L):
        if Gs[k] is None or Gis[k] is None:
            continue
        x = g.G.norm(g.G.mul(lc_of(g, Gs[k]), lc_of(g, Gis[k])))
        if not g.G.is_scalar(x) or len(x) != 1:
            if kernels(g, x) - {"fac"}:
                raise Undecided("kernels in a returned transformation")
            lab.viol(b, "returned transformations", op, "not inverse", "%s: the returned transformation of bond %d and its inverse multiply to %s" % (label, k, show(g, x)))
            return
    miss = {}
    for name, X, Y in (("G_i A G", Gis, Gs), ("G A G_i", Gs, Gis)):
        for k in range(b.L):
            f, P, base, Q = g.decomp(g.asar(before[k]))
            f2, P2, base2, Q2 = g.decomp(g.asar(b.A(k)))
            todo = []
            if X[k - 1] is not None:
                todo.append(("left", P2, g.G.mul(lc_of(g, X[k - 1]), P)))
            if Y[k] is not None:
                todo.append(("right", Q2, g.G.mul(Q, lc_of(g, Y[k]))))
            for side, u, v in todo:
                iv = g.G.power(g.G.norm(v), -1)
                if iv is None:
                    raise Undecided("inverse of a returned transformation")
                y = g.G.norm(g.G.mul(u, iv))
                if not g.G.is_scalar(y) or len(y) != 1:
                    if kernels(g, y) - {"fac"}:
                        raise Undecided("kernels in a returned transformation")
                    miss[name] = "on the %s of site %d the tensor changed by %s, the returned transformation by %s" % (side, k, show(g, g.G.norm(u)), show(g, g.G.norm(v)))
        if name not in miss:
            lab.ctx.count("returned transformations equal to those applied")
            return
    lab.viol(b, "returned transformations", op, "not the one applied", "%s: %s" % (label, "; ".join("%s: %s" % kv for kv in miss.items())))


def aligning(lab, thorough):
    """self is a gauge transformation of other; the mixed fixed point returned by fidelity_per_site is then known"""
    for cls in ("EvoMPS_MPS_Uniform", "EvoMPS_TDVP_Uniform"):
        for L in (1, 2, 3):
            for op in ("gauge_align", "phase_align"):
                label = "%s.%s(other), L=%d" % (cls, op, L)

                def make(dec):
                    a = Block(lab.prog, cls, 2, 2, L, decisions=dec)
                    g = a.g
                    b = Block(lab.prog, cls, 2, 2, L, G=g, name="other")
                    a.other = b
                    X = [g.mat(("X", k), (2, 2)) for k in range(L)]
                    Xi = [g.mat(("X", k), (2, 2)) for k in range(L)]
                    for k in range(L):
                        Xi[k].lc = g.G.power(X[k].lc, -1)
                    ph = g.F("theta", [0], shape=())
                    for k in range(L):
                        f, P, base, Q = g.decomp(b.A(k))
                        t = a.A(k)
                        t.become(b.A(k))
                        for s in range(2):
                            t.items[s].lc = g.G.mul(g.G.mul(X[k - 1].lc, t.items[s].lc), Xi[k].lc)
                            if k == 0:
                                t.items[s].lc = g.G.mul(ph.lc, t.items[s].lc)
                    a.bases = b.bases
                    a.stale()
                    for k in range(L):
                        a.o.f["l"].items[k].lc = g.G.mul(g.G.mul(g.G.dag(Xi[k].lc), b.lr("l", k).lc), Xi[k].lc)
                        a.o.f["r"].items[k].lc = g.G.mul(g.G.mul(X[k].lc, b.lr("r", k).lc), g.G.dag(X[k].lc))
                    mixed = g.mat(("mixed",), (2, 2))
                    mixed.lc = g.G.mul(X[L - 1].lc, g.asar(b.lr("r", L - 1)).lc)

                    def fid(gi, f, args, kw):
                        names = [x.arg for x in f.fn.args.args][1:]
                        kw = dict(kw, **dict(zip(names, args)))
                        if f.self_ is not a.o or (args and args[0] is not b.o and kw.get("other") is not b.o) or kw.get("left"):
                            raise Undecided("another fidelity")
                        d = gi.F("d", [0], shape=())
                        return (d, ph, mixed.copy()) if kw.get("full_output") else (d, ph)
                    g.intercept["fidelity_per_site"] = fid
                    return a

                def body(a):
                    g = a.g
                    before = [a.A(k).copy() for k in range(L)]
                    ret = a.call(op, a.other.o)
                    if op == "gauge_align" and ret is None:
                        return
                    for k in range(L):
                        if g.decomp(a.A(k))[2] is not a.bases[k]:
                            lab.viol(a, "gauge change is not cancelled", op, "site", "%s: site %d is no longer a gauge transformation of the original tensor" % (label, k))
                            return
                    if op == "gauge_align":
                        tot = g.G.one()
                        for k in range(L):
                            f, P, base, Q = g.decomp(a.A(k))
                            for w, x in (("left", P), ("right", Q)):
                                x = g.G.norm(x)
                                if not g.G.is_scalar(x) or len(x) != 1:
                                    lab.viol(a, "not aligned", op, w, "%s: site %d still differs from the other state by %s on the %s" % (label, k, show(g, x), w))
                                    return
                                tot = g.G.mul(tot, x)
                            tot = g.G.mul(tot, f)
                        unit_ok(lab, a, op, label, g.G.norm(tot), ph_lc(g))
                        lab.ctx.count("tensors equal to those of the other state")
                        for w in ("l", "r"):
                            for k in range(L):
                                env_ok_norm(lab, a, op, label, w, k)
                    else:
                        tot = ph_lc(g)
                        for k in range(L):
                            f, P, base, Q = g.decomp(a.A(k))
                            f0, P0, base0, Q0 = g.decomp(before[k])
                            x = [g.G.norm(g.G.mul(g.G.power(g.G.norm(P0), -1), P)), g.G.norm(g.G.mul(Q, g.G.power(g.G.norm(Q0), -1)))]
                            if not all(g.G.is_scalar(y) and len(y) == 1 for y in x):
                                lab.viol(a, "gauge change is not cancelled", op, "site", "%s: site %d changed by more than a phase" % (label, k))
                                return
                            for y in x + [f, g.G.power(g.G.norm(f0), -1)]:
                                tot = g.G.mul(tot, y)
                        unit_ok(lab, a, op, label, g.G.norm(tot), ph_lc(g))
                        lab.ctx.count("tensors changed by a phase only")
                lab.scen(label, make, body)


def ph_lc(g):
    return g.F("theta", [0], shape=()).lc


def unit_ok(lab, a, op, label, tot, ph):
    g = a.g
    mod = g.G.absval(tot)
    want = g.G.absval(ph)
    if mod is None or want is None:
        return
    if not g.G.eq(mod, want):
        lab.viol(a, "norm changed", op, "overall factor", "%s: the overall factor is %s, its modulus differs from that of the original state" % (label, show(g, tot)))
    # the phase of theta must be gone
    y = g.G.norm(tot)
    if not g.G.is_real(y):
        lab.viol(a, "phase not aligned", op, "overall factor", "%s: the remaining factor %s is not positive" % (label, show(g, tot)))
    else:
        lab.ctx.count("phases removed")


def env_ok_norm(lab, a, op, label, w, k):
    """environment of the aligned state equals that of the other state"""
    g = a.g
    have, want = g.asar(a.lr(w, k)).lc, g.asar(a.other.lr(w, k)).lc
    if g.G.eq(have, want):
        lab.ctx.count("environments equal to those of the new tensors")
    elif not (kernels(g, g.G.norm(have)) - kernels(g, g.G.norm(want)) - {"old"}):
        lab.viol(a, "environment in another gauge", op, "%s[k]" % w, "%s: %s[%d] is %s" % (label, w, k, show(g, g.G.norm(have))))


def window(lab, thorough):
    for cls in ("EvoMPS_MPS_Sandwich", "EvoMPS_TDVP_Sandwich"):
        for N, L, Dw, nc in ((2, 1, None, None), (3, 1, None, None), (3, 1, [2, 3, 4, 2], 2), (4, 2, None, None), (4, 1, None, 3), (5, 1, None, None)):
            if "TDVP" in cls and N > 3 and not thorough:
                continue
            label = "%s.restore_CF(), N=%d, L=%d, D=%s, N_centre=%s" % (cls, N, L, Dw or 2, nc or N // 2)

            def body(c):
                c.call("restore_CF")
                p = c.change()
                if p is not None:
                    lab.viol(c, "gauge change is not cancelled", "restore_CF", p.split(" (")[0].split(" of ")[0], "%s: %s" % (label, p))
                    return
                lab.ctx.count("matrix products telescoping to a scalar")
                for w in ("l", "r"):
                    for n in range(N + 2):
                        env_ok(lab, c, "restore_CF", label, w, n, N, True)
                    for u in c.blocks.values():
                        for k in range(L):
                            env_ok(lab, u, "restore_CF", "%s: %s" % (label, u.nm), w, k, L - 1, True, c)
                lab.note_calls(c)
            lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, Dw=Dw, nc=nc, decisions=dec), body)


def run(prog, ctx):
    lab = Lab(prog, ctx, "gauge operations interpreted")
    thorough = ctx.tier == "thorough"
    generic(lab, thorough)
    uniform(lab, thorough)
    aligning(lab, thorough)
    window(lab, thorough)
