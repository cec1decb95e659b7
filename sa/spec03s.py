"""C03 on the sandwich, and the bond-expansion directions of all three kinds of states.

The window is typed away from the places where get_A, get_l, get_r, get_C, get_AA and get_AAA change over to the bulk: there they
return the object of that site (the changeover itself is decided for C01, C17)."""
from .alg import *
from .dom import *
from .typesys import *
from .axioms import argof
from .interp import Geo
from .repo import qualname
from .schema import GenSchema, UniSchema, L_
from .indschema import Gen, Uni, ind, trans
from .spec01 import Case, run_case, scalar
from .spec03 import n, N, L
from .spec03 import (prod, aA, M, roots, lS, lSi, rS, rSi, q_, D_, Vrh, Vlh, V, S, mono, plus, cj, x_right, x_left, tC, tK, tKl, each, strip_h, Csites)
from .typesys import tA, tl, tr, tAA

SW = "EvoMPS_TDVP_Sandwich"
c = Poly.sym("c")


class OneQ(Geo):
    """all sites of the window have the physical dimension of the bulk"""
    def dim(self, space):
        return Poly.sym("q") if space[0] == "P" else Geo.dim(self, space)


class Window(GenSchema):
    def __init__(self, hs, centre=c):
        GenSchema.__init__(self, "s", hs)
        self.centre = centre

    def a_q(self):
        return L_(lambda p: Poly.sym("q"), self.N + 2, "q")

    def a_h_expect(self):
        return L_(lambda p: Ten((), atom("e", p)), self.N + 1, "h_expect")

    def a_N_centre(self):
        return self.centre


class Blocks(Window):
    """what calc_C and calc_K store is compared with its definition"""
    def a_ham(self):
        return L_(self.ham_at, self.N + 1, "ham")

    def a__AA(self):
        return ind(lambda p: tAA(p - 1, "s"), self.N + 2, "_AA", lambda I, p, st: tAA(p - 1, "s"))

    def a__AAA(self):
        return ind(lambda p: tAA(p - 1, "s", 3), self.N + 2, "_AAA", lambda I, p, st: tAA(p - 1, "s", 3))

    def a__C(self):
        return ind(lambda p: tC(p - 1, self.hs), self.N + 2, "_C", lambda I, p, st: tC(p - 1, self.hs))

    def hterm(self, lo):
        t = atom("ham", lo)
        for i in range(self.hs):
            t = prod(t, trans("s", lo + i))
        return t

    def a_K(self):
        def exp(I, p, st):
            return tr(p - 1, terms=self.Kfull(p))
        return ind(lambda p: tK(p), self.N + 3, "K", exp)

    def a_K_l(self):
        def exp(I, p, st):
            return tl(p, terms=self.Klfull(p))
        return ind(lambda p: tKl(p), self.N + 3, "K_l", exp)

    def Kfull(self, p):
        p = aspoly(p)
        if (p - self.N - 1).cval() == 0:
            return atom("K", p)                             # that of the bulk to the right
        return t_add(prod(self.Kfull(p + 1), trans("s", p)), prod(self.hterm(p), atom("r", p + self.hs - 1)))

    def Klfull(self, p):
        p = aspoly(p)
        if p.cval() == 0:
            return atom("Kl", p)
        return t_add(prod(self.Klfull(p - 1), trans("s", p)), prod(self.hterm(p - self.hs + 1), atom("l", p - self.hs)))

    def energies(self, I, s, v):
        """the local energies and the energy of the window relative to the bulk"""
        N, cc, hs = int(self.N.cval()), int(self.centre.cval()), self.hs
        a = I.de(s.attrs.get(("self", "h_expect"), TOP), s)
        out = []
        for p in range(0, N + 1):
            x = I.de(I.arr_get(a, Poly.const(p), s), s) if isinstance(a, Arr1) else TOP
            out.append(match(x, Ten((), prod(atom("l", p - 1), self.hterm(Poly.const(p)), atom("r", p + hs - 1))), I.geo))
        t = t_add(prod(self.Klfull(cc), atom("r", cc)), prod(self.Kfull(cc - hs + 2), atom("l", cc - hs + 1)))
        t = t_add(t, t_scale(atom("hu"), N + hs - 1), -1)
        out.append(match(I.de(s.attrs.get(("self", "dH_expect"), TOP), s), Ten((), t), I.geo))
        return out

    def a_uni_l(self):
        return Obj("EvoMPS_TDVP_Uniform", "self.uni_l", Bulk(self.hs, -1))

    def a_uni_r(self):
        return Obj("EvoMPS_TDVP_Uniform", "self.uni_r", Bulk(self.hs, self.N))


class Bulk(UniSchema):
    def __init__(self, hs, at):
        UniSchema.__init__(self, "s", hs)
        self.at = at

    def a_K(self):
        return L_(lambda p: tK(self.at + 1 + p), self.L, "uK")

    def a_ham(self):
        return top(Poly.const(-1), self.hs, "ham", (Poly.const(-1),))


def accessors(hs):
    def get(f):
        def ax(I, args, kw, st, node):
            p = args[1] if len(args) > 1 else kw["n"]
            p = I.de(p, st)
            return [(f(p) if isinstance(p, Poly) else TOP, st)]
        return ax
    d = {}
    for owner, nm, f in (("mps_sandwich.EvoMPS_MPS_Sandwich", "get_A", lambda p: tA(p)), ("mps_sandwich.EvoMPS_MPS_Sandwich", "get_l", lambda p: tl(p)),
                         ("mps_sandwich.EvoMPS_MPS_Sandwich", "get_r", lambda p: tr(p)), ("mps_sandwich.EvoMPS_MPS_Sandwich", "get_q", lambda p: Poly.sym("q")),
                         ("mps_sandwich.EvoMPS_MPS_Sandwich", "get_D", D_),
                         ("tdvp_sandwich.EvoMPS_TDVP_Sandwich", "get_C", lambda p: tC(p, hs)), ("tdvp_sandwich.EvoMPS_TDVP_Sandwich", "get_AA", lambda p: tAA(p, "s")),
                         ("tdvp_sandwich.EvoMPS_TDVP_Sandwich", "get_AAA", lambda p: tAA(p, "s", 3))):
        d[owner + "." + nm] = get(f)
    return d


def simplify(terms):
    """l and r of a neighbouring bond absorb a transfer with nothing in between (both are fixed points of the sweeps)"""
    if terms is None:
        return None
    out = {}
    for m, co in terms.items():
        m = list(m)
        again = True
        while again:
            again = False
            for e in m:
                if e[0] not in ("l", "r") or e[3] or not isinstance(e[1][-1], Poly):
                    continue
                p = e[1][-1]
                site, to = (p, p - 1) if e[0] == "r" else (p + 1, p + 1)
                a, b = (("A", ("s", site), cc, False) for cc in (False, True))
                if a in m and b in m and not any(x[0] == "ham" and 0 <= ((site - x[1][0]).cval() if (site - x[1][0]).cval() is not None else 0) <= 2 for x in m):
                    for x in (a, b, e):
                        m.remove(x)
                    m.append((e[0], (to,), False, False))
                    again = True
                    break
        out = t_add(out, t_mul({tuple(sorted(m, key=akey)): co}, t_const(1)))
    return out


def same(v, exp, I, s):
    v = I.de(v, s)
    if isinstance(v, Ten) and v.terms is not None and not v.zero:
        v = v.with_(terms=simplify(v.terms))
    return match(v, exp.with_(terms=simplify(exp.terms)), I.geo)


def centre(hs):
    """the unconstrained tangent tensor of the centre: every term once, its own energy subtracted"""
    li, ri = t_inv(atom("l", c - 1)), t_inv(atom("r", c))
    t = plus(mono(aA(c), atom("K", c + 1), ri), mono(aA(c), atom("Kl", c - 1), li))
    t = t_add(t, mono(aA(c), atom("K", c + 1), atom("l", c)), -1)
    t = t_add(t, mono(aA(c), atom("Kl", c - 1), atom("r", c - 1)), -1)
    for j in range(hs):
        lo = c - j
        x = mono(*[aA(lo + i) for i in range(hs)])
        for i in range(hs):
            if i != j:
                x = mono(x, cj(aA(lo + i)))
        if j:
            x = mono(x, atom("l", lo - 1), li)
        if j < hs - 1:
            x = mono(x, atom("r", lo + hs - 1), ri)
        t = t_add(t, mono(x, atom("ham", lo)))
        t = t_add(t, mono(x, atom("e", lo)), -1)
    return tA(c, terms=t)


# ------------------------------------------------------------ expansion of the bonds
def Yexp(p, hs, a=True, b=True, modL=False, tp=False):
    p = aspoly(p)
    if hs == 2:
        t = mono(cj(atom("Vl", "s", p)), S("l", p - 1), Csites(p, 2), S("r", p + 1), atom("Vr", "s", p + 1))
    else:
        VV = mono(cj(atom("Vl", "s", p)), atom("Vr", "s", p + 1))
        t = plus(mono(VV, S("l", p - 1), Csites(p, 3), cj(aA(p + 2)), atom("r", p + 2), S("r", p + 1, True)) if a else None,
                 mono(VV, S("l", p - 1, True), Csites(p - 1, 3), cj(aA(p - 1)), atom("l", p - 2), S("r", p + 1)) if b else None)
    if modL:
        t = strip_h(t, tp)
    return Ten((V("l", p, True, modL), V("r", p + 1, False, modL)), t)


def expander(modL, bad):
    """kernel calc_BB_2s: everything it is given belongs to the bond of Y"""
    def ax(I, args, kw, st, node):
        f = I.prog.func("tdvp_common", "calc_BB_2s")
        nm = [x.arg for x in f.args.args]
        vals = [argof(I, f, x, args, kw, st, TOP) for x in nm[:5]]
        Y = vals[0]
        if not isinstance(Y, Ten) or len(Y.axes) != 2 or not isinstance(Y.axes[0], Leg) or Y.axes[0].space[0] != "V":
            return [(TupV([TOP, TOP, TOP]), st)]
        p = Y.axes[0].space[3]
        for what, v, e in (("left null vectors", vals[1], Vlh(p, modL)), ("right null vectors", vals[2], Vrh(p + 1, modL)),
                           ("inverse root of l", vals[3], lSi(p - 1)), ("inverse root of r", vals[4], rSi(p + 1))):
            rs = [match(v, x, I.geo) for x in alts(e)]
            r = "ok" if "ok" in rs else "unknown" if "unknown" in rs else rs[0]
            if r == "unknown":
                bad.append((node, None))
            elif r != "ok":
                bad.append((node, "%s given to calc_BB_2s with the Y of bond %r: %s" % (what, p, r)))
        return [(TupV([Ten((), atom("BB1", p)), Ten((), atom("BB2", p)), Poly.sym(("dD", p))]), st)]
    return ax


def elements(exps, absent=False):
    """exps: [(position in the result or None, index, expected)]"""
    def f(I, s, v):
        out = []
        for pos, i, e in exps:
            a = I.de(v, s)
            if pos is not None:
                a = I.de(a.items[pos], s) if isinstance(a, TupV) and pos < len(a.items) else TOP
            x = I.de(I.arr_get(a, aspoly(i), s), s) if isinstance(a, Arr1) else I.de(a.items[int(aspoly(i).cval())], s) if isinstance(a, TupV) and aspoly(i).cval() is not None else TOP
            if absent and (x is TOP or isinstance(x, Const) and x.v is None):
                continue            # a bond that is not expanded
            out.append(match(x, e, I.geo))
        return out
    return f


def expansion(prog, ctx):
    T = "EvoMPS_TDVP_Generic"
    kernel = "tdvp_common.calc_BB_2s"
    cases = []
    lst = lambda f, ln, tag: L_(f, ln, tag)
    for hs, NN in ((2, 2), (2, 3), (2, 5), (3, 3), (3, 4), (3, 5)):
        roots_ = [lst(f, NN + 1, t) for f, t in ((lS, "l_s"), (lSi, "l_si"), (rS, "r_s"), (rSi, "r_si"))]
        VV = [lst(Vrh, NN + 1, "Vrh"), lst(Vlh, NN + 1, "Vlh")]
        lab = "N=%d, %d-site" % (NN, hs)
        bonds = range(1, NN)

        def sized(S):
            S.N = Poly.const(NN)
            return S
        # the null spaces of these sites are not empty
        ass = tuple(q_(Poly.const(p)) * D_(Poly.const(p)) - D_(Poly.const(p - 1)) - 1 for p in range(1, NN + 1)) + tuple(q_(Poly.const(p)) * D_(Poly.const(p - 1)) - D_(Poly.const(p)) - 1 for p in range(1, NN + 1))
        cases.append(Case(T, "calc_BB_Y_2s", lab, roots_ + VV, None, (),
                          elems=elements([(0, p, Yexp(p, hs, p + 2 <= NN, p > 1)) for p in bonds]), schema=sized(Gen(ham_sites=hs))))
        BBs = [(0, p, Ten((), atom("BB1", p))) for p in bonds] + [(1, p + 1, Ten((), atom("BB2", p))) for p in bonds]
        bad = []
        x = Case(T, "calc_BB_2s", lab, [lst(lambda p: Yexp(p, 2), NN + 1, "Y"), VV[1], VV[0], roots_[1], roots_[3]], None, (), elems=elements(BBs, True), schema=sized(Gen(ham_sites=hs)))
        x.axioms, x.bad = {kernel: expander(False, bad)}, bad
        cases.append(x)
        bad = []
        x = Case(SW, "calc_BB", lab, [], None, ass, elems=elements(BBs, True), schema=sized(Window(hs)), kw={"D_max": Poly.sym("Dm")})
        x.axioms, x.bad = dict(accessors(hs), **{kernel: expander(False, bad)}), bad
        cases.append(x)
    for c_ in cases:
        c_.unroll = 8
        run_case(prog, ctx, c_)
        report(prog, ctx, c_)


def uniform_expansion(prog, ctx):
    UT = "EvoMPS_TDVP_Uniform"
    k = Poly.sym("k")
    for hs, tp in ((2, False), (2, True), (3, False)):
        lab = "%d-site%s" % (hs, ", tensor product" if tp else "")
        ass = (L - 4, k, L - k - 1, Poly.sym("q") * Poly.sym("D") - Poly.sym("D") - 1)
        sch = lambda: Uni(ham_sites=hs, tp=tp, extra={"Vsh": lambda: L_(lambda p: Vrh(p, True), L, "Vsh"), "l_sqrt": lambda: L_(lS, L, "l_sqrt"),
                          "l_sqrt_i": lambda: L_(lSi, L, "l_sqrt_i"), "r_sqrt": lambda: L_(rS, L, "r_sqrt"), "r_sqrt_i": lambda: L_(rSi, L, "r_sqrt_i")})
        x = Case(UT, "calc_BB_Y_2s", lab, [L_(lambda p: Vlh(p, True), L, "Vlh")], None, ass, elems=elements([(0, k, Yexp(k, hs, modL=True, tp=tp))]), schema=sch(), modL=True)
        run_case(prog, ctx, x)
        bad = []
        x = Case(UT, "calc_B_2s", lab, [], None, ass, elems=elements([(0, k, Ten((), atom("BB1", k))), (1, k, Ten((), atom("BB2", k - 1)))], True), schema=sch(), modL=True)
        x.axioms, x.bad = {"tdvp_common.calc_BB_2s": expander(True, bad)}, bad
        run_case(prog, ctx, x)
        report(prog, ctx, x)


def report(prog, ctx, k):
    fn = prog.method(k.cls, k.meth)
    q = qualname(fn)
    for node, msg in getattr(k, "bad", []):
        if msg is None:
            ctx.undec("%s.%s" % (k.cls, k.meth), "operands of calc_BB_2s not determined")
        else:
            ctx.violation("expansion-operands", fn._mod.rel, q, q, msg, node.lineno)


def run(prog, ctx):
    cases = []
    for hs in (2, 3):
        ax = accessors(hs)
        for hand, extra in (("right", (n - c - 1,)), ("left", (c - n - 1,))):
            q, D, D1 = Poly.sym("q"), D_(n), D_(n - 1)
            ok = (q * D - D1 - 1) if hand == "right" else (q * D1 - D - 1)
            t = (x_right if hand == "right" else x_left)(n, hs, lambda *a: True)
            Vt = atom("Vr" if hand == "right" else "Vl", "s", n)
            b = prod(t, S("l", n - 1, True), S("r", n, True), cj(Vt) if hand == "right" else Vt)
            k = Case(SW, "calc_B_n", "%s of the centre, %d-site" % (hand, hs), [n], tA(n, terms=b), (n - 4, N - n - 4, c - 2, N - c - 1) + extra + (ok,), schema=Window(hs))
            k.axioms, k.geo = ax, OneQ()
            cases.append(k)
        k = Case(SW, "calc_B_centre", "%d-site" % hs, [], None, (c - 5, N - c - 5), schema=Window(hs),
                 elems=lambda I, s, v, hs=hs: [same(v.items[0] if isinstance(v, TupV) and len(v.items) == 2 else TOP, centre(hs), I, s)])
        k.axioms, k.geo = ax, OneQ()
        cases.append(k)
        nothing = lambda I, args, kw, st, node: [(NONE, st)]
        ax2 = accessors(hs)
        U = "tdvp_uniform.EvoMPS_TDVP_Uniform."
        ax2.update({U + "calc_C": nothing, U + "calc_K": nothing, "mps_uniform.EvoMPS_MPS_Uniform.calc_AA": nothing,
                    U + "calc_K_l": lambda I, args, kw, st, node: [(TupV([TupV([tKl(Poly.const(-1)), tKl(Poly.const(0))]), scalar(atom("hu"))]), st)]})
        for meth in ("calc_K", "calc_C"):
            for lab, NN, cc in (("N=4", 4, 2), ("N=3", 3, 1), ("N=3", 3, 2)):
                k = Case(SW, meth, "%d-site, %s, centre %d" % (hs, lab, cc), [], None, (), schema=Blocks(hs, Poly.const(cc)))
                k.schema.N, k.unroll = Poly.const(NN), 8
                k.elems = k.schema.energies if meth == "calc_K" else None
                k.axioms = ax2 if meth == "calc_K" else {x: y for x, y in ax2.items() if x.split(".")[-1] not in ("get_C", "get_AA", "get_AAA")}
                cases.append(k)
    for k in cases:
        run_case(prog, ctx, k)
    expansion(prog, ctx)
    uniform_expansion(prog, ctx)
