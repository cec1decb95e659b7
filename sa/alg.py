"""Small exact algebra used by the abstract domains: integer polynomials over
symbols (sites, dimensions) and 'terms' (which factors a value is made of)."""
from fractions import Fraction


class Poly(object):
    """Polynomial with integer/rational coefficients over hashable symbols. Immutable."""
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def sym(s):
        return Poly({(s,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = aspoly(o)
        d = dict(self.d)
        for k, v in o.d.items():
            c = d.get(k, 0) + v
            if c:
                d[k] = c
            else:
                d.pop(k, None)
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-aspoly(o))

    def __mul__(self, o):
        o = aspoly(o)
        d = {}
        for k, v in self.d.items():
            for k2, v2 in o.d.items():
                m = tuple(sorted(k + k2, key=repr))
                c = d.get(m, 0) + v * v2
                if c:
                    d[m] = c
                else:
                    d.pop(m, None)
        return Poly(d)

    __radd__ = __add__
    __rmul__ = __mul__

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        """constant value or None"""
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def syms(self):
        s = set()
        for k in self.d:
            s.update(k)
        return s

    def subst(self, m):
        """m: dict symbol -> Poly.  Also substitutes inside tuple symbols."""
        r = Poly({})
        for k, v in self.d.items():
            t = Poly.const(v)
            for s in k:
                if s in m:
                    t = t * m[s]
                else:
                    t = t * Poly.sym(subst_sym(s, m))
            r = r + t
        return r

    def drop(self, s):
        """remove all monomials that contain symbol s"""
        return Poly({k: v for k, v in self.d.items() if s not in k})

    def linear_in(self, s):
        """coefficient of s if self is linear in s, else None"""
        c = 0
        for k, v in self.d.items():
            n = k.count(s)
            if n == 0:
                continue
            if n == 1 and len(k) == 1:
                c = v
            else:
                return None
        return c

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for k, v in sorted(self.d.items(), key=lambda x: (-len(x[0]), repr(x[0]))):
            m = "*".join(symname(s) for s in k)
            if not k:
                out.append("%+d" % v if v == int(v) else "%+s" % v)
            elif v == 1:
                out.append("+" + m)
            elif v == -1:
                out.append("-" + m)
            else:
                out.append("%+d*%s" % (v, m))
        s = "".join(out)
        return s[1:] if s.startswith("+") else s


def symname(s):
    if isinstance(s, str):
        return s.split("@")[0]
    if isinstance(s, tuple):
        return "%s(%s)" % (s[0], ",".join(symname(x) if not isinstance(x, Poly) else repr(x) for x in s[1:]))
    return str(s)


def subst_sym(s, m):
    if isinstance(s, tuple):
        return tuple(x.subst(m) if isinstance(x, Poly) else subst_sym(x, m) for x in s)
    return s


def aspoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    return Poly.sym(x)


# ---------------------------------------------------------------- terms
# terms: dict mono -> (re, im) Fractions ; mono: sorted tuple of atoms
# atom: (name, args tuple, conj, inv)
MAXTERMS = 48


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


ONE = (Fraction(1), Fraction(0))


def t_const(c):
    if isinstance(c, complex):
        v = (Fraction(c.real), Fraction(c.imag))
    else:
        v = (Fraction(c), Fraction(0))
    if v == (0, 0):
        return {}
    return {(): v}


def t_atom(name, args=(), conj=False):
    return {((name, tuple(args), conj, False),): ONE}


def akey(a):
    return (a[0] if isinstance(a[0], str) else repr(a[0]), repr(a[1:]))


def norm_mono(m):
    m = list(m)
    # cancel inverse pairs
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(m):
            b = (a[0], a[1], a[2], not a[3])
            if b in m:
                j = m.index(b)
                for x in sorted((i, j), reverse=True):
                    del m[x]
                changed = True
                break
    return tuple(sorted(m, key=akey))


def t_add(a, b, sign=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for k, v in b.items():
        v = (v[0] * sign, v[1] * sign)
        c = cadd(d.get(k, (0, 0)), v)
        if c == (0, 0):
            d.pop(k, None)
        else:
            d[k] = c
    return d if len(d) <= MAXTERMS else None


def t_mul(a, b):
    if a is None or b is None:
        return None
    if len(a) * len(b) > MAXTERMS:
        return None
    d = {}
    for k, v in a.items():
        for k2, v2 in b.items():
            m = norm_mono(k + k2) if (k and k2) else (k or k2)
            c = cadd(d.get(m, (0, 0)), cmul(v, v2))
            if c == (0, 0):
                d.pop(m, None)
            else:
                d[m] = c
    return d


def t_scale(a, c):
    return t_mul(a, t_const(c))


def t_inv(a):
    """inverse of a single term with no cancellation"""
    if a is None or len(a) != 1:
        return None
    (m, c), = a.items()
    n = c[0] * c[0] + c[1] * c[1]
    if n == 0:
        return None
    ci = (c[0] / n, -c[1] / n)
    return {tuple(sorted([(x[0], x[1], x[2], not x[3]) for x in m], key=akey)): ci}


HERM = set(["l", "r", "K", "Kl", "lS", "rS", "ham", "Hterm", "lI", "rI", "lS", "rS", "lSi", "rSi"])
REAL = set(["N", "L", "norm"])


def t_conj(a):
    if a is None:
        return None
    d = {}
    for k, v in a.items():
        m = tuple(sorted([(x[0], x[1], (x[2] if (x[0] in HERM or x[0] in REAL) else not x[2]), x[3]) for x in k], key=akey))
        d[m] = (v[0], -v[1])
    return d


def t_key(a):
    return None if a is None else frozenset(a.items())


def t_subst(a, m):
    if a is None:
        return None
    d = {}
    for k, v in a.items():
        mono = norm_mono([(x[0], tuple(y.subst(m) if isinstance(y, Poly) else y for y in x[1]), x[2], x[3]) for x in k])
        d[mono] = cadd(d.get(mono, (0, 0)), v)
    return d


def t_repr(a):
    if a is None:
        return "?"
    if not a:
        return "0"
    out = []
    for k, v in sorted(a.items(), key=repr):
        if v[1] == 0:
            c = str(v[0])
        else:
            c = "(%s%+sj)" % (v[0], v[1])
        fs = []
        for (n, args, cj, inv) in k:
            s = str(n) + ("[%s]" % ",".join(repr(x) if isinstance(x, Poly) else str(x) for x in args) if args else "")
            if cj:
                s += "*"
            if inv:
                s = "1/" + s
            fs.append(s)
        out.append(c + ("·" + "·".join(fs) if fs else ""))
    return " + ".join(out)
