"""C03: tangent vectors.

The primitives and the site-, state- and block-level methods are typed on an
up-to-date state; the result must have the legs of the tangent basis (or of the
site tensor) and consist of exactly the Hamiltonian contributions, each once."""
from .typesys import *
from .interp import Interp, State, Prune
from .axioms import package_axioms, herm_sqrt, herm_sqrt_inv_of
from .schema import GenSchema, UniSchema
from .spec01 import Case, run_case, scalar, geoL
from .spec02 import run_entry, flush, check_result
from .dom import *

n, N, k, L = (Poly.sym(x) for x in ("n", "N", "k", "L"))
cj = t_conj


def aA(p, s="s"):
    return atom("A", s, p)


def M(kind, p, plus=True):
    return Leg(("M", kind, "s", aspoly(p), ""), not plus, True)


_I = Interp(None, Geo())
_I.mute = 1


def roots(t, inv=False):
    return (herm_sqrt_inv_of if inv else herm_sqrt)(_I, t, None)


def lS(p):
    return roots(tl(p))


def lSi(p):
    return roots(tl(p), True)


def rS(p):
    return roots(tr(p))


def rSi(p):
    return roots(tr(p), True)


def q_(p):
    return Poly.sym(("q", aspoly(p)))


def D_(p):
    return Poly.sym(("D", aspoly(p)))


def V(kind, p, plus=True, modL=False):
    p = aspoly(p)
    if modL:
        q, D, D1 = Poly.sym("q"), Poly.sym("D"), Poly.sym("D")
    else:
        q, D, D1 = q_(p), D_(p), D_(p - 1)
    dim = q * D - D1 if kind == "r" else q * D1 - D
    return Leg(("V", "V" + kind, "s", p, dim), not plus, True)


def Vrh(p, modL=False):
    return Ten((P(p, False), M("r", p), V("r", p, False, modL)), atom("Vr", "s", p))


def Vlh(p, modL=False):
    """conjugate of the null vectors, as calc_Vsh_l returns it"""
    return Ten((P(p, False), V("l", p, True, modL), M("l", p - 1, False)), cj(atom("Vl", "s", p)))


def mono(*ts):
    return prod(*ts)


def S(kind, p, inv=False):
    return {((kind + "S", (aspoly(p),), False, inv),): ONE}


def plus(*ts):
    r = {}
    for t in ts:
        if t is not None:
            r = t_add(r, t)
    return r


def Csites(lo, w):
    """ham on sites lo..lo+w-1 with its ket tensors"""
    return mono(atom("ham", lo), *[aA(aspoly(lo) + i) for i in range(w)])


def x_right(p, w, present, hamargs=lambda p: (p,)):
    """terms of the right-handed x of site p; present(kind) says which contributions exist"""
    p = aspoly(p)
    out = []
    for j in range(w):          # Hamiltonian term starting at p-j
        lo = p - j
        if not present("C", lo):
            continue
        t = t_atom("ham", hamargs(lo))
        for i in range(w):
            t = mono(t, aA(lo + i))
            if lo + i != p:
                t = mono(t, cj(aA(lo + i)))
        t = mono(t, (atom("l", lo - 1) if j else {(): ONE}), (atom("r", lo + w - 1) if j < w - 1 else {(): ONE}))
        t = mono(t, S("l", p - 1, j > 0), S("r", p, j < w - 1))
        if j == 0:
            pass
        out.append(mono(t, atom("Vr", "s", p)))
    if present("K", p + 1):
        out.append(mono(S("l", p - 1), aA(p), atom("K", p + 1), S("r", p, True), atom("Vr", "s", p)))
    return plus(*out)


def x_left(p, w, present, hamargs=lambda p: (p,)):
    p = aspoly(p)
    out = []
    for j in range(w):
        lo = p - j
        if not present("C", lo):
            continue
        t = t_atom("ham", hamargs(lo))
        for i in range(w):
            t = mono(t, aA(lo + i))
            if lo + i != p:
                t = mono(t, cj(aA(lo + i)))
        t = mono(t, (atom("l", lo - 1) if j else {(): ONE}), (atom("r", lo + w - 1) if j < w - 1 else {(): ONE}))
        t = mono(t, S("l", p - 1, j > 0), S("r", p, j < w - 1))
        out.append(mono(t, cj(atom("Vl", "s", p))))
    if present("K", p - 1):
        out.append(mono(S("l", p - 1, True), aA(p), atom("Kl", p - 1), S("r", p), cj(atom("Vl", "s", p))))
    return plus(*out)


ALL = lambda *a: True


def tC(p, w=2):
    return tAA(p, "s", w, op=atom("ham", p))


def tK(p):
    return tr(p - 1, terms=atom("K", p))


def tKl(p):
    return tl(p, terms=atom("Kl", p))


def prims():
    tc = "tdvp_common"
    out = []
    def add(f, args, exp, lab="", kw=None):
        out.append((tc, f, lab, args, exp, kw))
    H2 = mono(Csites(n, 2), cj(aA(n)), cj(aA(n + 1)))
    Kt = mono(atom("K", n + 1), aA(n), cj(aA(n)))
    Hr = mono(H2, atom("r", n + 1))
    add("calc_K", [tK(n + 1), tC(n), tl(n - 1), tr(n + 1), tA(n), tAA(n)],
        TupV([tr(n - 1, terms=plus(Kt, Hr)), scalar(mono(Hr, atom("l", n - 1)))]))
    H3 = mono(Csites(n, 3), *[cj(aA(n + i)) for i in range(3)])
    Hr3 = mono(H3, atom("r", n + 2))
    add("calc_K_3s", [tK(n + 1), tC(n, 3), tl(n - 1), tr(n + 2), tA(n), tAA(n, k=3)],
        TupV([tr(n - 1, terms=plus(Kt, Hr3)), scalar(mono(Hr3, atom("l", n - 1)))]))
    Klt = mono(atom("Kl", n - 1), aA(n), cj(aA(n)))
    H2m = mono(Csites(n - 1, 2), cj(aA(n - 1)), cj(aA(n)))
    Hl = mono(H2m, atom("l", n - 2))
    add("calc_K_l", [tKl(n - 1), tC(n - 1), tl(n - 2), tr(n), tA(n), tAA(n - 1)],
        TupV([tl(n, terms=plus(Klt, Hl)), scalar(mono(Hl, atom("r", n)))]))
    H3m = mono(Csites(n - 2, 3), *[cj(aA(n - 2 + i)) for i in range(3)])
    Hl3 = mono(H3m, atom("l", n - 3))
    add("calc_K_3s_l", [tKl(n - 1), tC(n - 2, 3), tl(n - 3), tr(n), tA(n), tAA(n - 2, k=3)],
        TupV([tl(n, terms=plus(Klt, Hl3)), scalar(mono(Hl3, atom("r", n)))]))
    # tensor-product form
    h0, h1 = t_atom("h0"), t_atom("h1")
    def ctp(p):
        p = aspoly(p)
        return TupV([TupV([tA(p, terms=mono(aA(p), h0)), tA(p + 1, terms=mono(aA(p + 1), h1))], True)], True)
    def tp(t):      # ham -> h0 h1
        d = {}
        for m, c in t.items():
            r = {(): c}
            for a in m:
                r = t_mul(r, t_mul(h0, h1) if a[0] == "ham" else {(a,): ONE})
            d = t_add(d, r)
        return d
    add("calc_K_tp", [tK(n + 1), tl(n - 1), tr(n + 1), tA(n), tA(n + 1), ctp(n)],
        TupV([tr(n - 1, terms=plus(Kt, tp(Hr))), scalar(tp(mono(Hr, atom("l", n - 1))))]))
    add("calc_K_l_tp", [tKl(n - 1), tl(n - 2), tr(n), tA(n - 1), tA(n), ctp(n - 1)],
        TupV([tl(n, terms=plus(Klt, tp(Hl))), scalar(tp(mono(Hl, atom("r", n))))]))
    # tangent bases
    add("calc_Vsh", [tA(n), rS(n)], Vrh(n))
    add("calc_Vsh_l", [tA(n), lS(n - 1)], Vlh(n))
    add("calc_l_r_roots", [tl(n - 1), tr(n)], None)
    # x
    R = [lS(n - 1), lSi(n - 1), rS(n), rSi(n)]
    def opts(lab, has):
        return lab, has
    xr = lambda t: Ten((M("l", n - 1), V("r", n, False)), t)
    for lab, c, cm, kk in (("", 1, 1, 1), ("no term right of the site", 0, 1, 0), ("no term left of the site", 1, 0, 1),
                           ("last bond", 1, 1, 0), ("empty term", 0, 1, 1)):
        pres = lambda kind, p, c=c, cm=cm, kk=kk: bool(kk) if kind == "K" else bool(c if aspoly(p) == n else cm)
        nn = lambda f, v: v if f else NONE
        a = [nn(kk, tK(n + 1)), nn(c, tC(n)), nn(cm, tC(n - 1)), nn(c or kk, tr(n + 1)), nn(cm, tl(n - 2)), nn(cm, tA(n - 1)), tA(n), nn(c or kk, tA(n + 1))]
        add("calc_x", a + R + [Vrh(n)], xr(x_right(n, 2, pres)), lab)
        a = [nn(kk, tK(n + 1)), nn(c, ctp(n)), nn(cm, ctp(n - 1)), nn(c or kk, tr(n + 1)), nn(cm, tl(n - 2)), nn(cm, tA(n - 1)), tA(n), nn(c or kk, tA(n + 1))]
        add("calc_x_tp", a + R + [Vrh(n)], xr(tp(x_right(n, 2, pres))), lab)
    xl = lambda t: Ten((V("l", n), M("r", n, False)), t)
    for lab, c, cm, kk in (("", 1, 1, 1), ("no term right of the site", 0, 1, 1), ("no term left of the site", 1, 0, 0), ("first bond", 1, 1, 0), ("empty term", 1, 0, 1)):
        pres = lambda kind, p, c=c, cm=cm, kk=kk: bool(kk) if kind == "K" else bool(c if aspoly(p) == n else cm)
        nn = lambda f, v: v if f else NONE
        a = [nn(kk, tKl(n - 1)), nn(c, tC(n)), nn(cm, tC(n - 1)), nn(c, tr(n + 1)), nn(cm or kk, tl(n - 2)), nn(cm or kk, tA(n - 1)), tA(n), nn(c, tA(n + 1))]
        add("calc_x_l", a + R + [Vlh(n)], xl(x_left(n, 2, pres)), lab)
    for lab, c, c1, c2, kk in (("", 1, 1, 1, 1), ("no term at the site", 0, 1, 1, 0), ("last site", 0, 0, 1, 0), ("first site", 1, 0, 0, 1), ("second site", 1, 1, 0, 1)):
        cc = {0: c, 1: c1, 2: c2}
        pres = lambda kind, p, cc=cc, kk=kk: bool(kk) if kind == "K" else bool(cc[int((n - aspoly(p)).cval())])
        nn = lambda f, v: v if f else NONE
        a = [nn(kk, tK(n + 1)), nn(c, tC(n, 3)), nn(c1, tC(n - 1, 3)), nn(c2, tC(n - 2, 3)), nn(c or c1 or kk, tr(n + 1)), nn(c, tr(n + 2)),
             nn(c1 or c2, tl(n - 2)), nn(c2, tl(n - 3)), nn(c2, tAA(n - 2)), nn(c1 or c2, tA(n - 1)), tA(n), nn(c or c1, tA(n + 1)), nn(c, tAA(n + 1))]
        add("calc_x_3s", a + R + [Vrh(n)], xr(x_right(n, 3, pres)), lab)
        kl = c1 or c2
        presl = lambda kind, p, cc=cc, kl=kl: bool(kl) if kind == "K" else bool(cc[int((n - aspoly(p)).cval())])
        a = [nn(kl, tKl(n - 1))] + a[1:]
        add("calc_x_l_3s", a + R + [Vlh(n)], xl(x_left(n, 3, presl)), lab)
    # bond expansion
    Y = lambda t: TupV([Ten((V("l", n), V("r", n + 1, False)), t), scalar(mono(t, cj(t)))])
    y2 = mono(cj(atom("Vl", "s", n)), S("l", n - 1), Csites(n, 2), S("r", n + 1), atom("Vr", "s", n + 1))
    add("calc_BB_Y_2s", [tC(n), Vlh(n), Vrh(n + 1), lS(n - 1), rS(n + 1)], Y(y2))
    add("calc_BB_Y_2s_tp", [ctp(n), Vlh(n), Vrh(n + 1), lS(n - 1), rS(n + 1)], Y(tp(y2)))
    VV = mono(cj(atom("Vl", "s", n)), atom("Vr", "s", n + 1))
    y3a = mono(VV, S("l", n - 1), Csites(n, 3), cj(aA(n + 2)), atom("r", n + 2), S("r", n + 1, True))
    y3b = mono(VV, S("l", n - 1, True), Csites(n - 1, 3), cj(aA(n - 1)), atom("l", n - 2), S("r", n + 1))
    for lab, a, b in (("", 1, 1), ("no site to the right", 0, 1), ("no site to the left", 1, 0)):
        nn = lambda f, v: v if f else NONE
        add("calc_BB_Y_2s_ham_3s", [nn(b, tA(n - 1)), nn(a, tA(n + 2)), nn(a, tC(n, 3)), nn(b, tC(n - 1, 3)), Vlh(n), Vrh(n + 1), nn(b, tl(n - 2)), nn(a, tr(n + 2)),
                                    lS(n - 1), lSi(n - 1), rS(n + 1), rSi(n + 1)], Y(plus(y3a if a else None, y3b if b else None)), lab)
    return out


geo = Geo()


def run(prog, ctx):
    for mod, f, lab, args, exp, kw in prims():
        I = Interp(prog, geo, package_axioms())
        # the tangent space at the site is not empty
        ass = (q_(n) * D_(n) - D_(n - 1) - 1, q_(n) * D_(n - 1) - D_(n) - 1)
        run_entry(I, prog.func(mod, f), args, exp, ctx, f + (":" + lab if lab else ""), kw, assume=ass)
        flush(I, ctx)


def run_classes(prog, ctx):
    from . import indschema as S_
    T = "EvoMPS_TDVP_Generic"
    UT = "EvoMPS_TDVP_Uniform"
    cases = []
    for hs in (2, 3):
        for meth in ("calc_l", "calc_r", "calc_C"):
            cases.append(Case(T, meth, "%d-site" % hs, [], None, (N - 4,), schema=S_.Gen(ham_sites=hs)))
        for hand, meth in (("right", "calc_K"), ("left", "calc_K_l")):
            for nt in (False, True):
                cases.append(Case(T, meth, "%d-site%s" % (hs, ", empty terms" if nt else ""), [], None, (N - 4,), schema=S_.Gen(ham_sites=hs, hand=hand, noterm=nt)))
        # tangent vectors
        def pres(lo_ok, hi_ok):
            pass
        for hand in ("right", "left"):
            for lab, site, assume in (("bulk", n, (n - 4, N - n - 4)), ("first site", Poly.const(1), (N - 5,)), ("second site", Poly.const(2), (N - 6,)),
                                      ("last site", N, (N - 5,)), ("last but one", N - 1, (N - 6,))):
                def present(kind, p, site=site, hs=hs, hand=hand):
                    lo = aspoly(p)
                    if lab_bulk(site):
                        return True
                    c = lo.cval()
                    if kind == "K" and hand == "right":
                        # K[p] is zero beyond the last term
                        d = (N - hs + 1 - lo).cval()
                        return d is None or d >= 0
                    if kind == "K":
                        return c is None or c >= 1
                    if c is not None:
                        return c >= 1
                    return (N - hs + 1 - lo).cval() >= 0
                t = (x_right if hand == "right" else x_left)(site, hs, present)
                Vt = atom("Vr" if hand == "right" else "Vl", "s", site)
                b = prod(t, S("l", site - 1, True), S("r", site, True), cj(Vt) if hand == "right" else Vt)
                q, D, D1 = q_(site), D_(site), D_(site - 1)
                ok = (q * D - D1 - 1) if hand == "right" else (q * D1 - D - 1)
                cases.append(Case(T, "calc_B_n", "%s, %d-site, %s" % (hand, hs, lab), [site], tA(site, terms=b), assume + (ok,), schema=S_.Gen(ham_sites=hs, hand=hand)))
        for tp in ((False, True) if hs == 2 else (False,)):
            k = Poly.sym("k")
            ok = (Poly.sym("q") * Poly.sym("D") - Poly.sym("D") - 1,)
            t = strip_h(x_right(k, hs, lambda *a: True), tp)
            eB = tA(k, terms=prod(t, S("l", k - 1, True), S("r", k, True), cj(atom("Vr", "s", k))))
            cases.append(Case(UT, "calc_B", "%d-site%s" % (hs, ", tensor product" if tp else ""), [], None, (L - 4, k, L - k - 1) + ok, elems=each(k, eB), schema=S_.Uni(ham_sites=hs, tp=tp), modL=True))
            for meth in ("calc_C", "calc_K", "calc_K_l"):
                cases.append(Case(UT, meth, "%d-site%s" % (hs, ", tensor product" if tp else ""), [], None, (L - 4,), schema=S_.Uni(ham_sites=hs, tp=tp), modL=True))
    for c in cases:
        run_case(prog, ctx, c)


def each(k, e):
    """every element of the returned sequence has type e"""
    def f(I, s, v):
        a = I.de(v, s)
        x = I.de(I.arr_get(a, k, s), s) if isinstance(a, Arr1) else TOP
        return [match(x, e, I.geo)]
    return f


def strip_h(t, tp):
    """translation-invariant Hamiltonian: the term is the same everywhere"""
    d = {}
    for m, c in t.items():
        r = {(): c}
        for a in m:
            if a[0] == "ham":
                r = t_mul(r, t_mul(t_atom("h0"), t_atom("h1")) if tp else t_atom("ham"))
            else:
                r = t_mul(r, {(a,): ONE})
        d = t_add(d, r)
    return d


def lab_bulk(site):
    return site == n


_run0 = run


def run(prog, ctx):
    _run0(prog, ctx)
    run_classes(prog, ctx)


_run1 = run


def run(prog, ctx):
    from . import spec03d, spec03s
    _run1(prog, ctx)
    spec03s.run(prog, ctx)
    spec03d.run(prog, ctx)
