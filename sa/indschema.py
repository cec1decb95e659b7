"""Schemas whose derived attributes carry their *definition*: every assignment to
an entry is compared with it (given that the entries it is computed from hold
theirs), which makes the class invariants used everywhere else inductive."""
from .schema import L_, GenSchema, UniSchema
from .typesys import *
from .dom import *
from .alg import *


def ind(default, length, tag, exp, **kw):
    """exp(I, p, st) -> expected type | list of acceptable types | None (no definition)"""
    def f(i):
        return default(i)
    def chk(I, p, val, st):
        e = exp(I, p, st)
        if e is None:
            return None
        es = e if isinstance(e, list) else [e]
        rs = [matchval(val, x, I.geo) for x in es]
        for w in ("ok", "unknown"):
            if w in rs:
                return w
        return rs[0]
    f.ind = chk
    return Arr1(f, (), length, tag)


ZERO = "zero"


def iszero(val):
    return isinstance(val, (Ten, Alt)) and all(isinstance(t, Ten) and (t.zero or t.terms == {}) for t in alts(val)) or isinstance(val, Poly) and val.cval() == 0


def matchval(val, e, geo):
    if e is NONE:
        return "ok" if isinstance(val, Const) and val.v is None else ("unknown" if val is TOP else "not None")
    if e == ZERO:
        return "ok" if iszero(val) else ("unknown" if not isinstance(val, (Ten, Alt)) else "not zero")
    if iszero(val):
        return "is zero, expected %r" % (e,)
    if isinstance(val, Poly):
        return "unknown"
    return match(val, e, geo)


def A_(l, p):
    return atom("A", l, p)


def trans(l, p):
    return prod(A_(l, p), t_conj(A_(l, p)))


class Gen(GenSchema):
    """hand: 'right' or 'left' accumulators K; noterm: Hamiltonian terms are None"""

    def __init__(self, layer="s", ham_sites=2, hand="right", noterm=False, **kw):
        GenSchema.__init__(self, layer, ham_sites, **kw)
        self.hand, self.noterm = hand, noterm

    def a_gauge_fixing(self):
        return Const(self.hand)

    def a_canonical_form(self):
        return Const(self.hand)

    def a_ham(self):
        if self.noterm:
            return L_(lambda p: NONE, self.N + 1, "ham")
        return L_(self.ham_at, self.N + 1, "ham")

    def tC(self, p):
        c = (self.N - self.hs + 1 - aspoly(p)).cval()
        if self.noterm or c is not None and c < 0:
            return NONE
        return tAA(p, self.layer, self.hs, op=t_atom("ham", (p,)))

    def a_C(self):
        return ind(self.tC, self.N + 1, "C", lambda I, p, st: self.tC(p))

    def a_AA(self):
        return ind(lambda p: tAA(p, self.layer), self.N, "AA", lambda I, p, st: tAA(p, self.layer))

    def a_AAA(self):
        return ind(lambda p: tAA(p, self.layer, 3), self.N - 1, "AAA", lambda I, p, st: tAA(p, self.layer, 3) if self.hs == 3 else None)

    def a_l(self):
        s = self.layer
        return ind(lambda p: tl(p, s, s), self.N + 1, "l", lambda I, p, st: tl(p, s, s, prod(atom("l", p - 1), trans(s, p))))

    def a_r(self):
        s = self.layer
        return ind(lambda p: tr(p, s, s), self.N + 1, "r", lambda I, p, st: tr(p, s, s, prod(atom("r", p + 1), trans(s, p + 1))))

    def hterm(self, lo):
        t = atom("ham", lo)
        for i in range(self.hs):
            t = prod(t, trans(self.layer, lo + i))
        return t

    def a_K(self):
        s, hs = self.layer, self.hs
        if self.hand == "right":
            def exp(I, p, st):
                g = I.ge0(self.N - hs + 1 - p, st)
                K = tr(p - 1, s, s, prod(atom("K", p + 1), trans(s, p)))
                full = K if self.noterm else K.with_(terms=t_add(K.terms, prod(self.hterm(p), atom("r", p + hs - 1))))
                return full if g is True else ZERO if g is False else None
            return ind(lambda p: tr(p - 1, s, s, atom("K", p)), self.N + 2, "K", exp)
        def exp(I, p, st):
            g = I.ge0(p - hs, st)
            K = tl(p, s, s, prod(atom("Kl", p - 1), trans(s, p)) if I.ge0(p - 1 - hs, st) is not False else {})
            if self.noterm and K.terms == {}:
                return ZERO
            full = K if self.noterm else K.with_(terms=t_add(K.terms, prod(self.hterm(p - hs + 1), atom("l", p - hs))))
            return full if g is True else ZERO if g is False else None
        return ind(lambda p: tl(p, s, s, atom("Kl", p)), self.N + 2, "K", exp)

    def hexp(self, p):
        return Ten((), prod(atom("l", p - 1), self.hterm(p), atom("r", p + self.hs - 1)))

    def a_h_expect(self):
        # the left-handed recursion files the energy of a term under n - 1 (known quirk for three sites)
        return ind(lambda p: Ten((), None), self.N + 1, "h_expect",
                   lambda I, p, st: ZERO if self.noterm else self.hexp(p))


class Uni(UniSchema):
    def __init__(self, layer="s", ham_sites=2, tp=False, **kw):
        UniSchema.__init__(self, layer, ham_sites, tp, **kw)

    def a_ham(self):
        return top(Poly.sym("h"), self.hs, "ham")

    def a_ham_tp(self):
        if not self.tp:
            return NONE
        h = Poly.sym("h")
        return TupV([TupV([top(h, 1, "h0"), top(h, 1, "h1")])])

    def opatoms(self):
        return prod(t_atom("h0"), t_atom("h1")) if self.tp else t_atom("ham")

    def tC(self, p):
        p = aspoly(p)
        if self.tp:
            return TupV([TupV([tA(p, self.layer, terms=prod(A_(self.layer, p), t_atom("h0"))),
                               tA(p + 1, self.layer, terms=prod(A_(self.layer, p + 1), t_atom("h1")))], True)], True)
        return tAA(p, self.layer, self.hs, op=t_atom("ham"))

    def a_C(self):
        return ind(self.tC, self.L, "C", lambda I, p, st: None if self.tp else self.tC(p))

    def a_AA(self):
        return ind(lambda p: tAA(p, self.layer), self.L, "AA", lambda I, p, st: tAA(p, self.layer))

    def a_AAA(self):
        return ind(lambda p: tAA(p, self.layer, 3), self.L, "AAA", lambda I, p, st: tAA(p, self.layer, 3))

    def hterm(self, lo):
        t = self.opatoms()
        for i in range(self.hs):
            t = prod(t, trans(self.layer, lo + i))
        return t

    def a_l(self):
        s = self.layer
        return ind(lambda p: tl(p, s, s), self.L, "l", lambda I, p, st: [tl(p, s, s, prod(atom("l", p - 1), trans(s, p))), tl(p, s, s, None)][1])

    def a_r(self):
        s = self.layer
        return ind(lambda p: tr(p, s, s), self.L, "r", lambda I, p, st: tr(p, s, s, None))

    def a_K(self):
        s, hs = self.layer, self.hs
        def exp(I, p, st):
            if p.cval() is not None:
                return tr(p - 1, s, s, None)
            h = prod(self.hterm(p), atom("r", p + hs - 1))
            t = prod(atom("K", p + 1), trans(s, p))
            t = t_add(t, h)
            t = t_add(t, prod(h, atom("l", p - 1), atom("r", p - 1)), -1)
            return tr(p - 1, s, s, t)
        return ind(lambda p: tr(p - 1, s, s, atom("K", p)), self.L, "K", exp)

    def a_K_left(self):
        s, hs = self.layer, self.hs
        def exp(I, p, st):
            if p.cval() is not None:
                return tl(p, s, s, None)
            h = prod(self.hterm(p - hs + 1), atom("l", p - hs))
            t = prod(atom("Kl", p - 1), trans(s, p))
            t = t_add(t, h)
            t = t_add(t, prod(h, atom("r", p), atom("l", p)), -1)
            return tl(p, s, s, t)
        return ind(lambda p: tl(p, s, s, atom("Kl", p)), self.L, "K_left", exp)
