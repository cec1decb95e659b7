"""Constructors of the leg types used by the specifications."""
from .alg import *
from .dom import *
from .interp import Geo


def P(n, plus=True):
    return Leg(("P", aspoly(n)), not plus, True)


def B(n, conj=False, up=True, layer="s", tag=""):
    return Leg(("B", layer, aspoly(n), tag), conj, up)


def W(n, plus=True):
    return Leg(("W", aspoly(n)), not plus, True)


def atom(nm, *args):
    return t_atom(nm, tuple(a if isinstance(a, str) else aspoly(a) for a in args))


def tA(n, layer="s", nm=None, terms=0, m1=-1):
    n = aspoly(n)
    return Ten((P(n), B(n + m1, layer=layer), B(n, up=False, layer=layer)), atom(nm or "A", *((layer, n) if nm is None else ())) if terms == 0 else terms)


def prod(*ts):
    r = t_const(1)
    for t in ts:
        r = t_mul(r, t)
    return r


def tAA(n, layer="s", k=2, terms=None, op=None):
    """merged tensor of k sites starting at n"""
    n = aspoly(n)
    tm = prod(*[atom("A", layer, n + i) for i in range(k)])
    if op is not None:
        tm = t_mul(tm, op)
    return Ten([P(n + i) for i in range(k)] + [B(n - 1, layer=layer), B(n + k - 1, up=False, layer=layer)], tm if terms is None else terms)


def tl(p, k="s", b="s", terms=0, tag=""):
    """left environment on bond p: (ket conj, bra)"""
    p = aspoly(p)
    return Ten((B(p, True, False, k, tag), B(p, False, False, b, tag)), atom("l", p) if terms == 0 else terms)


def tr(p, k="s", b="s", terms=0, tag=""):
    p = aspoly(p)
    return Ten((B(p, False, True, k, tag), B(p, True, True, b, tag)), atom("r", p) if terms == 0 else terms)


def top(n, k, nm="op", args=()):
    """k-site operator <row|op|column> on sites n..n+k-1"""
    n = aspoly(n)
    return Ten([P(n + i) for i in range(k)] + [P(n + i, False) for i in range(k)], t_atom(nm, tuple(args)))


def tW(n, nm="W"):
    n = aspoly(n)
    return Ten((W(n - 1), W(n, False), P(n), P(n, False)), atom(nm, n))


def match(val, exp, geo):
    """'ok' | 'unknown' | explanation"""
    if val is TOP or not isinstance(val, (Ten, Alt)):
        return "unknown"
    res = []
    for t in alts(val):
        res.append(match1(t, exp))
    if "ok" in res:
        return "ok"
    if "unknown" in res:
        return "unknown"
    return res[0]


def match1(t, exp):
    if not isinstance(t, Ten):
        return "unknown"
    if t.zero:
        return "unknown"
    if len(t.axes) != len(exp.axes):
        return "unknown" if t.kind == "eye" else "result has %d axes, expected %d" % (len(t.axes), len(exp.axes))
    unk = False
    for i, (a, b) in enumerate(zip(t.axes, exp.axes)):
        if isinstance(a, Unk) or isinstance(b, Unk):
            unk = True
        elif a != b:
            return "axis %d of the result is %r, expected %r" % (i, a, b)
    if [l for i, l in t.free if not isinstance(l, Unk)] and unbalanced(t):
        return "index %s (%r) of the result is summed without a partner" % unbalanced(t)
    if t.terms is not None and exp.terms is not None and t_key(t.terms) != t_key(exp.terms):
        return "result is %s, expected %s" % (t_repr(t.terms), t_repr(exp.terms))
    return "unknown" if unk or t.terms is None and exp.terms is not None else "ok"


def unbalanced(t):
    cnt = {}
    for i, l in t.free:
        cnt.setdefault(i, []).append(l)
    for i, ls in cnt.items():
        if len(ls) == 1 and not isinstance(ls[0], Unk):
            return (i[0], ls[0])
    return None
