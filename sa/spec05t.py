"""C05, first half: what the operators given to the solvers compute.

Types the matvec of every operator class: in the central gauge (environments are identities, bond indices unitary) applied to a
site tensor / two-site tensor / bond matrix it must be the sum, term by term, of the Hamiltonian terms and blocks that act on it,
each index joined to the index it belongs to."""
import ast
from .alg import *
from .dom import *
from .typesys import P, atom, match
from .schema import GenSchema, L_
from .interp import Interp, State, Geo, Prune
from .axioms import package_axioms
from .spec02 import check_result, flush
from .repo import qualname

n, N = Poly.sym("n"), Poly.sym("N")


class Flat(Geo):
    """the two sides of the bond of the centre matrix have the same dimension"""
    def dim(self, space):
        return Geo.dim(self, space[:3] + ("",)) if space[0] == "U" else Geo.dim(self, space)


CUT = [None]


def U(p, plus=True, right=None):
    """bond leg; the bond of a centre matrix has two sides: left of the matrix (right legs of the tensors) and right of it"""
    p = aspoly(p)
    side = ""
    if CUT[0] is not None and (p - CUT[0]).cval() == 0:
        side = "right" if (plus if right is None else right) else ""
    return Leg(("U", "s", p, side), not plus, True)


def prod(*ts):
    r = t_const(1)
    for t in ts:
        r = t_mul(r, t)
    return r


def A(p):
    p = aspoly(p)
    return Ten((P(p), U(p - 1), U(p, False)), atom("A", "s", p))


def AA(p):
    p = aspoly(p)
    return Ten((P(p), P(p + 1), U(p - 1), U(p + 1, False)), prod(atom("A", "s", p), atom("A", "s", p + 1)))


def block(nm, p):
    p = aspoly(p)
    return Ten((U(p, True, False), U(p, False, False)), atom(nm, p))


def blockr(nm, p):
    """block right of bond p - 1"""
    p = aspoly(p)
    return Ten((U(p - 1, True, True), U(p - 1, False, True)), atom(nm, p))


def eyel(p):
    return Ten((U(p, True, False), U(p, False, False)), t_const(1))


def eyer(p):
    return Ten((U(p, True, True), U(p, False, True)), t_const(1))


class Centre(GenSchema):
    """state in central gauge"""
    def a_A(self):
        return L_(A, self.N + 1, "A")

    def a_AA(self):
        return L_(AA, self.N + 1, "AA")

    def a_l(self):
        return L_(eyel, self.N + 1, "l")

    def a_r(self):
        return L_(eyer, self.N + 1, "r")

    def a_K(self):
        return L_(lambda p: blockr("KR", p), self.N + 2, "K")

    def a_typ(self):
        return TOP


class Oper(GenSchema):
    def __init__(self, cls, at, hs, mps, local, lo, hi, mpo, two):
        GenSchema.__init__(self, "s", hs)
        self.cls = cls
        self.at, self.mps, self.local, self.lo, self.hi, self.mpo, self.two = at, mps, local, lo, hi, mpo, two

    def get(self, I, o, attr, st):
        at, two = self.at, self.two
        t = {"n": at, "mps": self.mps, "tdvp": self.mps, "tau": Poly.const(1), "calls": Poly.const(0), "ham_local": Const(self.local), "ham_MPO": Const(self.mpo),
             "ham_sites": Poly.const(self.hs), "ham": self.a_ham(), "KLnm1": block("KL", at - 1) if self.lo else NONE, "KRnp1": blockr("KR", at + 1) if self.hi else NONE,
             "KLn": block("KL", at), "KRnp2": blockr("KR", at + 2) if self.hi else NONE,
             "AAnm2": AA(at - 2), "AAnm1": AA(at - 1), "AAnp1": AA(at + 1), "AAnp2": AA(at + 2)}
        if attr == "Gshape":
            d = GenSchema.a_D(self)
            return TupV([Poly.sym(("D", aspoly(at)))] * 2)
        if attr in t:
            return t[attr]
        if attr in ("D", "q"):
            return GenSchema.get(self, I, o, attr, st)
        for m in self.cls.body:
            if isinstance(m, ast.FunctionDef) and m.name == attr:
                return Fn(m, m._mod, o, None, self.cls.name)
        return None


def pair(p):
    return prod(atom("A", "s", p), t_conj(atom("A", "s", p)))


def ten(kind, at):
    x = t_atom("x")
    if kind == "A":
        return Ten((P(at), U(at - 1), U(at, False)), x)
    if kind == "AA":
        return Ten((P(at), P(at + 1), U(at - 1), U(at + 1, False)), x)
    return Ten((U(at, True, False), U(at, False, True)), x)


def expected(kind, at, hs, lo, hi, low):
    """the terms of the effective Hamiltonian; lo, hi: sites that exist left and right of the centre"""
    first, last = {"A": (at, at), "AA": (at, at + 1), "G": (at + 1, at)}[kind]
    ts = {}
    for j in range(-hs + 1, 2 if kind == "AA" else 1):
        p = at + j                                  # term on p .. p + hs - 1
        end = p + hs - 1
        if kind == "G" and (j > 0 or (end - at).cval() < 1):
            continue
        if lo is not None and (p - (first - lo)).cval() < 0 or hi is not None and ((last + hi) - end).cval() < 0:
            continue
        t = prod(atom("ham", p), t_atom("x"))
        for i in range(hs):
            s = p + i
            if (s - first).cval() < 0 or (s - last).cval() > 0 or kind == "G":
                t = prod(t, pair(s))
        ts = t_add(ts, t)
    if lo is None or lo > 0 or kind == "G":
        ts = t_add(ts, prod(t_atom("x"), atom("KL", first - 1)))
    if hi is None or hi > 0 or kind == "G":
        ts = t_add(ts, prod(t_atom("x"), atom("KR", last + 1)))
    return ts


def run(prog, ctx):
    for mod, cls in operators(prog):
        kind = {"Vari_Opt_Single_Site_Op": "A", "Vari_Opt_Two_Site_Op": "AA", "Vari_Opt_SC_op": "G"}.get(cls.name.split("@")[0])
        fn = [f for f in cls.body if isinstance(f, ast.FunctionDef) and f.name == "matvec"]
        if not kind or not fn:
            continue
        for hs in (2, 3):
            for lab, at, assume, lo, hi in places(kind):
                one(prog, ctx, mod, cls, fn[0], kind, hs, lab, at, assume, lo, hi)
    split(prog, ctx)


def operators(prog):
    for m in prog.mods.values():
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef) and c.name.startswith("Vari_Opt"):
                yield m, c


def places(kind):
    """(label, site, assumptions, sites to the left, sites to the right)"""
    w = {"A": 0, "AA": 1, "G": 0}[kind]
    yield "bulk", n, (n - 5, N - n - 6), None, None
    for d in (0, 1) if kind != "G" else (1, 2):
        yield "site %d" % (d + 1 if kind != "G" else d), Poly.const(d + 1 if kind != "G" else d), (N - 7,), d, None
    for d in (0, 1) if kind != "G" else (1, 2):
        yield "%d from the end" % d, N - w - d, (N - 7,), None, d


def one(prog, ctx, mod, cls, fn, kind, hs, lab, at, assume, lo, hi):
    CUT[0] = at if kind == "G" else None
    I = Interp(prog, Flat(), package_axioms())
    st = State()
    st.assume = tuple(aspoly(x) for x in assume)
    mps = Obj("EvoMPS_TDVP_Generic", "mps", Centre("s", hs))
    me = Obj(cls.name, "self", Oper(cls, at, hs, mps, True, lo is None or lo > 0, hi is None or hi > 0, False, kind == "AA"))
    label = "%s.%s.matvec, %d-site terms, %s" % (mod.rel, cls.name, hs, lab)
    x = ten(kind, at)
    v = I.reshape(x, [Poly.const(-1)], fn)
    try:
        outs = I.call_fn(Fn(fn, fn._mod, me, None, cls.name), [v], {}, st, fn)
    except Prune:
        outs = []
    q = qualname(fn)
    ctx.analysed.add("%s:%s" % (fn._mod.rel, q))
    if not outs:
        ctx.undec(label, "no completed path")
    exp = v.with_(terms=expected(kind, at, hs, lo, hi, None))
    for r, s in outs:
        for res in check_result(I, s, r, exp):
            if res == "ok":
                ctx.count("operator results equal to the effective Hamiltonian")
            elif res == "unknown":
                ctx.undec(label, "result type not determined: %r" % (I.de(r, s),))
            else:
                ctx.violation("result-type", fn._mod.rel, q, q, "%s: %s" % (label, res), fn.lineno)
    flush(I, ctx)


def split(prog, ctx):
    """splitting a two-site tensor: each factor keeps its site index and its outer bond, and both share the new one"""
    for mod, f in [(m, f) for m, f in prog.all_functions() if getattr(f, "name", "") == "split_twosite"]:
        f._mod = mod
        I = Interp(prog, Flat(), package_axioms())
        CUT[0] = None
        st = State()
        st.assume = (n - 5, N - n - 5)
        v = AA(n)
        try:
            outs = I.call_fn(Fn(f, mod), [v, Poly.sym("Dmax"), Poly.sym("eps")], {}, st, f)
        except Prune:
            outs = []
        ctx.analysed.add("%s:%s" % (mod.rel, f.name))
        if not outs:
            ctx.undec("split_twosite", "no completed path")
        dims = set()
        for r, s in outs:
            r = I.de(r, s)
            its = [I.de(x, s) for x in r.items] if isinstance(r, TupV) else []
            if len(its) < 3 or not isinstance(its[0], Ten) or not isinstance(its[2], Ten) or len(its[0].axes) != 3 or len(its[2].axes) != 3:
                ctx.undec("split_twosite", "result type not determined: %r" % (r,))
                continue
            a, b = its[0].axes, its[2].axes
            bad = None
            for got, want, what in ((a[0], P(n), "site index of the left factor"), (a[1], U(n - 1), "left bond of the left factor"),
                                    (b[0], P(n + 1), "site index of the right factor"), (b[2], U(n + 1, False), "right bond of the right factor")):
                if isinstance(got, (Leg, Comp)) and got != want:
                    bad = "the %s is %r, expected %r" % (what, got, want)
                elif not isinstance(got, Leg):
                    bad = "the %s is %r, expected %r" % (what, got, want) if isinstance(got, Unk) and got.dim is not None and got.dim != I.geo.axdim(want) else bad
            da, db = I.geo.axdim(a[2]), I.geo.axdim(b[1])
            if not bad and da is not None and db is not None and I.dims_clash(da, db):
                bad = "the factors do not share a bond: %r and %r" % (a[2], b[1])
            if bad:
                ctx.violation("result-type", mod.rel, "evolve_split.split_twosite", "split", "split_twosite: " + bad, f.lineno)
            else:
                ctx.count("factors of a two-site tensor checked")
        flush(I, ctx)
