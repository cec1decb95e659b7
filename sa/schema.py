"""Type schemas of the state objects: what every attribute of an up-to-date
state is, as a function of the site (these are the class invariants)."""
from .typesys import *
from .dom import *
from .alg import *


def L_(fn, length, tag):
    return Arr1(fn, (), length, tag)


class Schema(object):
    """attribute table; name: layer name of the object's own tensors"""

    def __init__(self, layer="s", extra=None, consts=None):
        self.layer = layer
        self.extra = extra or {}
        self.consts = consts or {}

    def get(self, I, o, attr, st):
        if attr in self.consts:
            return self.consts[attr]
        if attr in self.extra:
            x = self.extra[attr]
            return x() if callable(x) else x
        f = getattr(self, "a_" + attr, None)
        return f() if f else None

    def check_attr(self, I, o, attr, v, st, node):
        return


class GenSchema(Schema):
    """finite chain: sites 1..N"""
    N = Poly.sym("N")

    def __init__(self, layer="s", ham_sites=2, **kw):
        Schema.__init__(self, layer, **kw)
        self.hs = ham_sites

    def a_N(self):
        return self.N

    def a_ham_sites(self):
        return Poly.const(self.hs)

    def a_D(self):
        y = "" if self.layer == "s" else "." + self.layer
        return L_(lambda p: Poly.sym(("D" + y, p)), self.N + 1, "D")

    def a_q(self):
        return L_(lambda p: Poly.sym(("q", p)), self.N + 1, "q")

    def a_A(self):
        return L_(lambda p: tA(p, self.layer), self.N + 1, "A")

    def a_l(self):
        return L_(lambda p: tl(p, self.layer, self.layer), self.N + 1, "l")

    def a_r(self):
        return L_(lambda p: tr(p, self.layer, self.layer), self.N + 1, "r")

    def a_AA(self):
        return L_(lambda p: tAA(p, self.layer), self.N + 1, "AA")

    def a_AAA(self):
        return L_(lambda p: tAA(p, self.layer, 3), self.N + 1, "AAA")

    def ham_at(self, p):
        return top(p, self.hs, "ham", (p,))

    def a_ham(self):
        return L_(self.ham_at, self.N + 1, "ham")

    def a_C(self):
        return L_(lambda p: tAA(p, self.layer, self.hs, op=t_atom("ham", (p,))), self.N + 1, "C")

    def a_K(self):
        return L_(lambda p: tr(p - 1, self.layer, self.layer, atom("K", p)), self.N + 2, "K")

    def a_K_l(self):
        return L_(lambda p: tl(p, self.layer, self.layer, atom("Kl", p)), self.N + 2, "K_l")


class UniSchema(Schema):
    """uniform block of length L; indices modulo L"""
    L = Poly.sym("L")

    def __init__(self, layer="s", ham_sites=2, tp=False, **kw):
        Schema.__init__(self, layer, **kw)
        self.hs, self.tp = ham_sites, tp

    def a_L(self):
        return self.L

    def a_ham_sites(self):
        return Poly.const(self.hs)

    def a_D(self):
        return Poly.sym("D" + ("" if self.layer == "s" else "." + self.layer))

    def a_q(self):
        return Poly.sym("q")

    def a_A(self):
        return L_(lambda p: tA(p, self.layer), self.L, "A")

    def a_l(self):
        return L_(lambda p: tl(p, self.layer, self.layer), self.L, "l")

    def a_r(self):
        return L_(lambda p: tr(p, self.layer, self.layer), self.L, "r")

    def a_AA(self):
        return L_(lambda p: tAA(p, self.layer), self.L, "AA")

    def a_AAA(self):
        return L_(lambda p: tAA(p, self.layer, 3), self.L, "AAA")

    def a_ham(self):
        return top(Poly.sym("h"), self.hs, "ham")       # translation invariant: see specs

    def a_ham_tp(self):
        return NONE

    def a_C(self):
        return L_(lambda p: tAA(p, self.layer, self.hs, op=t_atom("ham", ())), self.L, "C")

    def a_K(self):
        return L_(lambda p: tr(p - 1, self.layer, self.layer, atom("K", p)), self.L, "K")

    def a_K_left(self):
        return L_(lambda p: tl(p, self.layer, self.layer, atom("Kl", p)), self.L, "K_left")
