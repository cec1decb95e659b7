"""C01: observables are the matrix elements they are documented to be.

Every query is typed on an up-to-date state (class invariant of schema.py) for
symbolic sites; each possible result must consist of exactly the factors the
documented matrix element consists of, contracted index by index."""
from .typesys import *
from .interp import Interp, State, Prune
from .axioms import package_axioms
from .schema import GenSchema, UniSchema
from .spec02 import check_result, flush, qualname
from .dom import *

n, N, d, k = (Poly.sym(x) for x in ("n", "N", "d", "k"))


def geoL():
    g = Geo()
    g.modL = True
    return g


def sand(lo, hi, ops=(), layer="s", lname="l", rname="r", b=None):
    """factors of <l| A..A op A*..A* |r> on sites lo..hi (concrete width)"""
    lo = aspoly(lo)
    b = b or layer
    m = atom(lname, lo - 1)
    w = int((aspoly(hi) - lo).cval()) + 1
    for i in range(w):
        m = prod(m, atom("A", layer, lo + i), t_conj(atom("A", b, lo + i)))
    return prod(m, atom(rname, lo + w - 1), *ops)


class Case(object):
    def __init__(self, cls, meth, label, args, exp, assume=(), kw=None, elems=None, schema=None, modL=False, uniq=False, post=()):
        self.__dict__.update(locals())
        self.axioms = {}            # assumed results of methods that are not the subject
        self.geo = None
        self.unroll = 4


def scalar(terms):
    return Ten((), terms)


def mpo_end(t, first, last):
    """an MPO tensor whose outer index has dimension one at the ends of the MPO"""
    ax = list(t.axes)
    one = Unk(Poly.const(1))
    if first:
        ax[0] = one
    if last:
        ax[1] = one
    return t.with_(axes=tuple(ax))


def cases():
    out = []
    O, O1, O2 = t_atom("op"), t_atom("op1"), t_atom("op2")
    G = "EvoMPS_MPS_Generic"
    A = (n - 1, N - n)
    for nm, op in (("array", top(n, 1)), ("callable", OpFn(top(n, 1)))):
        out.append(Case(G, "expect_1s", nm, [op, n], scalar(sand(n, n, [O])), A))
    for nm, op in (("array", top(n, 2)), ("callable", OpFn(top(n, 2)))):
        out.append(Case(G, "expect_2s", nm, [op, n], scalar(sand(n, n + 1, [O])), (n - 1, N - n - 1)))
    out.append(Case(G, "expect_2s", "AA given", [top(n, 2), n, tAA(n)], scalar(sand(n, n + 1, [O])), (n - 1, N - n - 1)))
    for nm, op in (("array", top(n, 3)), ("callable", OpFn(top(n, 3)))):
        out.append(Case(G, "expect_3s", nm, [op, n], scalar(sand(n, n + 2, [O])), (n - 1, N - n - 2)))
    out.append(Case(G, "expect_3s", "AAA given", [top(n, 3), n, tAA(n, k=3)], scalar(sand(n, n + 2, [O])), (n - 1, N - n - 2)))
    dm = Ten([P(n), P(n, False)], sand(n, n))
    out.append(Case(G, "density_1s", "", [n], dm, A))
    D2 = Ten([Comp([P(n), P(n + 2)]), Comp([P(n, False), P(n + 2, False)])], None)
    for w in (1, 2, 3):
        D2 = Ten([Comp([P(n), P(n + w)]), Comp([P(n, False), P(n + w, False)])], sand(n, n + w))
        A2 = (n - 1, N - n - w)
        out.append(Case(G, "density_2s", "distance %d" % w, [n, n + w], D2, A2))
        for nm in ("array", "callable"):
            o1, o2 = top(n, 1, "op1"), top(n + w, 1, "op2")
            if nm == "callable":
                o1, o2 = OpFn(o1), OpFn(o2)
            e = scalar(sand(n, n + w, [O1, O2]))
            out.append(Case(G, "expect_1s_1s", "%s, distance %d" % (nm, w), [o1, o2, n, n + w], e, A2))
    for w in (1, 2, 3):
        mpo = TupV([mpo_end(tW(n + i), i == 0, i == w - 1) for i in range(w)], True)
        out.append(Case(G, "expect_MPO", "%d sites" % w, [mpo, n], scalar(sand(n, n + w - 1, [atom("W", n + i) for i in range(w)])), (n - 1, N - n - w + 1)))
    for w in (1, 2, 3):
        o1, o2 = top(n, 1, "op1"), top(n + w, 1, "op2")
        res = [sand(n, n, [prod(O1, O2)])] + [sand(n, n + i, [O1, O2]) for i in range(1, w + 1)]
        # (same-site product needs operators of one local dimension)
        out.append(Case(G, "expect_1s_1s", "all distances to %d" % w, [ANYOP.with_(terms=O1), ANYOP.with_(terms=O2), n, n + w, Const(True)],
                        TupV([scalar(x) for x in res]), (n - 1, N - n - w), uniq=True))
        out.append(Case(G, "expect_string_1s", "length %d" % w, [ANYOP, n, aspoly(w)],
                        TupV([scalar(sand(n, n + i, [t_atom("op")] * (i + 1))) for i in range(w)]), (n - 1, N - n - w + 1), uniq=True))
    oth = Obj(G, "other", GenSchema("o"))
    out.append(Case(G, "inner", "", [oth], None, (N - 1,)))
    out.append(Case(G, "schmidt_sq", "", [n], None, (n - 1, N - n - 1)))
    out.append(Case(G, "apply_op_1s", "array", [top(n, 1), n, Const(False)], None, A, post=[("A", n, tA(n, terms=prod(atom("A", "s", n), O)))]))
    out.append(Case(G, "apply_op_1s", "callable", [OpFn(top(n, 1)), n, Const(False)], None, A, post=[("A", n, tA(n, terms=prod(atom("A", "s", n), O)))]))
    out += uniform_cases()
    return out


ANYOP = Ten([Leg(("P", Poly.sym("h")), False, True), Leg(("P", Poly.sym("h")), True, True)], t_atom("op"))


def uniform_cases():
    out = []
    O, O1, O2 = t_atom("op"), t_atom("op1"), t_atom("op2")
    U = "EvoMPS_MPS_Uniform"
    def add(meth, lab, args, exp, **kw):
        out.append(Case(U, meth, lab, args, exp, (k, L - k - 1), modL=True, **kw))
    for nm in ("array", "callable"):
        w = (lambda t: OpFn(t)) if nm == "callable" else (lambda t: t)
        add("expect_1s", nm, [w(top(k, 1)), k], scalar(sand(k, k, [O])))
        add("expect_2s", nm, [w(top(k, 2)), k], scalar(sand(k, k + 1, [O])))
        add("expect_3s", nm, [w(top(k, 3)), k], scalar(sand(k, k + 2, [O])))
        for d in (1, 2, 3):
            add("expect_1s_1s", "%s, distance %d" % (nm, d), [w(top(k, 1, "op1")), w(top(k + d, 1, "op2")), Poly.const(d), k], scalar(sand(k, k + d, [O1, O2])))
        for d in (1, 2, 3):
            add("expect_string_1s", "%s, length %d" % (nm, d), [w(ANYOP), k, Poly.const(d)], TupV([scalar(sand(k, k + i, [O] * (i + 1))) for i in range(d)]))
    o1, o2 = t_atom("op0"), t_atom("op1")
    add("expect_2s_tp", "", [TupV([TupV([top(k, 1, "op0"), top(k + 1, 1, "op1")])]), k], scalar(sand(k, k + 1, [o1, o2])))
    add("schmidt_sq", "", [k], None)
    for nm in ("array", "callable"):
        w = (lambda t: OpFn(t)) if nm == "callable" else (lambda t: t)
        add("apply_op_1s", nm, [w(top(k, 1)), k, Const(False)], None, post=[("A", k, tA(k, terms=prod(atom("A", "s", k), O)))])
    add("density_1s", "", [k], Ten([P(k), P(k, False)], sand(k, k)))
    # operators that may sit on any site of the block
    a1, a2 = ANYOP.with_(terms=O1), ANYOP.with_(terms=O2)
    for d in (1, 2):
        add("expect_1s_1s", "all distances to %d" % d, [a1, a2, Poly.const(d), k, Const(True)],
            TupV([scalar(sand(k, k, [O1, O2]))] + [scalar(sand(k, k + i, [O1, O2])) for i in range(1, d + 1)]))
    return out


L = Poly.sym("L")


def run_case(prog, ctx, c):
    geo = c.geo or (geoL() if c.modL else Geo())
    if c.uniq:
        geo.bindh = True
    I = Interp(prog, geo, dict(package_axioms(), **c.axioms))
    I.unroll = c.unroll
    st = State()
    st.assume = tuple(aspoly(x) for x in c.assume)
    sch = c.schema or (UniSchema() if c.modL else GenSchema())
    me = Obj(c.cls, "self", sch)
    fn = prog.method(c.cls, c.meth)
    if fn is None:
        from .repo import AnalysisBroken
        raise AnalysisBroken("%s.%s vanished" % (c.cls, c.meth))
    lab = "%s.%s%s" % (c.cls, c.meth, " (%s)" % c.label if c.label else "")
    q = qualname(fn)
    ctx.analysed.add("%s:%s" % (fn._mod.rel, q))
    try:
        outs = I.call_fn(Fn(fn, fn._mod, me, None, fn._cls.name), c.args, c.kw or {}, st, fn)
    except Prune:
        outs = []
    if not outs:
        ctx.undec(lab, "no completed path")
    logged = set(I.indlog)
    for v, s in outs:
        for cc, w in list(s.cells.items()):
            if isinstance(w, Arr1) and w.writes and getattr(w.default, "ind", None) is not None \
                    and not any(k[2] == str(w.tag) for k in logged):       # initial values a loop may replace
                I.stack.append(fn)
                try:
                    I.check_ind(w, w.writes, s, fn)
                finally:
                    I.stack.pop()
        for attr, i, e in c.post:
            a = I.de(s.attrs.get(("self", attr)), s) if ("self", attr) in s.attrs else TOP
            r = match(I.de(I.arr_get(a, aspoly(i), s), s), e, geo) if isinstance(a, Arr1) else "unknown"
            if r == "ok":
                ctx.count("updated attributes with the specified type")
            elif r == "unknown":
                ctx.undec(lab, "type stored in %s not determined" % attr)
            else:
                ctx.violation("result-type", fn._mod.rel, q, q + (":" + c.label if c.label else ""), "%s stores in %s: %s" % (lab, attr, r), fn.lineno)
        if c.exp is None and not c.elems:
            continue
        for r in (c.elems(I, s, v) if c.elems else check_result(I, s, v, c.exp)):
            if r == "ok":
                ctx.count("results equal to the documented matrix element")
            elif r == "unknown":
                ctx.undec(lab, "result type not determined: %r" % (I.de(v, s),))
            else:
                ctx.violation("result-type", fn._mod.rel, q, q + (":" + c.label if c.label else ""), "%s: %s" % (lab, r), fn.lineno)
    flush(I, ctx)
    return outs


def run(prog, ctx):
    for c in cases():
        run_case(prog, ctx, c)
