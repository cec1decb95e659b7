"""Exact algebra of gauge transformations: non-commutative words of named matrices.

A matrix is a linear combination of words; a word is a product of factors
(symbol, conj, transpose, exponent).  1 x 1 matrices are commuting scalars.
Environments of a site tensor that is  X S_s Y  (same X, Y for all physical indices s)
reduce to an environment of S itself, and matrix factorisations give rewriting rules
for it.  Everything is decided by normal forms: no numbers are involved."""


class Sym(object):
    __slots__ = ("name", "shape", "herm", "unit", "diag", "id", "data")


class Algebra(object):
    def __init__(self):
        self.tab = {}
        self.rules = {}
        self.version = 0
        self.memo = {}
        self.ruled = {}
        self.idx = None

    def sym(self, name, shape=None, herm=False, unit=False, diag=False, data=None):
        s = self.tab.get(name)
        if s is None:
            s = Sym()
            s.name, s.shape, s.herm, s.unit, s.diag, s.data = name, shape, herm or diag, unit, diag, data
            s.id = len(self.tab)
            self.tab[name] = s
        return s

    # ------------------------------------------------------------ factors and words
    def fac(self, s, c=0, t=0, e=1):
        if s.diag:
            c = t = 0
        elif s.herm and t:
            c, t = 1 - c, 0
        if s.unit and e < 0:
            c, t, e = 1 - c, 1 - t, -e
        return (s, c, t, e)

    def word(self, fs):
        """reduced (monomial of scalars, word)"""
        mono, out = {}, []
        for s, c, t, e in fs:
            s, c, t, e = self.fac(s, c, t, e)
            if s.shape == (1, 1):
                self.madd(mono, s, c, e)
                continue
            while True:
                if not out:
                    out.append((s, c, t, e))
                    break
                p = out[-1]
                if p[0] is s and (p[1], p[2]) == (c, t):
                    out.pop()
                    e = p[3] + e
                    if abs(e) < 1e-12:
                        break
                    s, c, t, e = self.fac(s, c, t, e)
                    continue
                if p[0] is s and s.unit and p[1] != c and p[2] != t and p[3] == e == 1:
                    out.pop()
                    break
                if s.diag and p[0].diag and p[0].id > s.id:
                    # diagonal matrices commute
                    k = len(out)
                    while k and out[k - 1][0].diag and out[k - 1][0].id > s.id:
                        k -= 1
                    if k and out[k - 1][0] is s:
                        e2 = out[k - 1][3] + e
                        out[k - 1:k] = [] if abs(e2) < 1e-12 else [(s, 0, 0, e2)]
                    else:
                        out.insert(k, (s, c, t, e))
                    break
                out.append((s, c, t, e))
                break
        return mono, tuple(out)

    def madd(self, mono, s, c, e):
        if s.herm:
            c = 0
        if s.unit and c:
            c, e = 0, -e
        k = (s, c)
        mono[k] = mono.get(k, 0) + e
        if abs(mono[k]) < 1e-12:
            del mono[k]

    def mkey(self, mono):
        return tuple(sorted(((s.id, c, e, s) for (s, c), e in mono.items()), key=lambda x: x[:3]))

    # ------------------------------------------------------------ linear combinations
    def lc(self, fs=(), coef=1.0, mono=None):
        m, w = self.word(fs)
        if mono:
            for (s, c), e in mono.items():
                self.madd(m, s, c, e)
        return {(self.mkey(m), w): complex(coef)}

    def zero(self):
        return {}

    def one(self, coef=1.0):
        return self.lc((), coef)

    def clean(self, d):
        return {k: v for k, v in d.items() if abs(v) > 1e-12}

    def add(self, a, b, f=1.0):
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + f * v
        return self.clean(d)

    def mul(self, a, b):
        d = {}
        for (m1, w1), c1 in a.items():
            for (m2, w2), c2 in b.items():
                m, w = self.word(w1 + w2)
                for i, c, e, s in m1 + m2:
                    self.madd(m, s, c, e)
                k = (self.mkey(m), w)
                d[k] = d.get(k, 0) + c1 * c2
        return self.clean(d)

    def mapped(self, a, conj, trans):
        d = {}
        for (m, w), c in a.items():
            fs = [(s, fc ^ conj, ft ^ trans, e) for s, fc, ft, e in (reversed(w) if trans else w)]
            m2, w2 = self.word(fs)
            for i, mc, e, s in m:
                self.madd(m2, s, mc ^ conj, e)
            k = (self.mkey(m2), w2)
            d[k] = d.get(k, 0) + (c.conjugate() if conj else c)
        return self.clean(d)

    def dag(self, a):
        return self.mapped(a, 1, 1)

    def single(self, a):
        """(coef, mono, word) of a one-term combination"""
        if len(a) != 1:
            return None
        (m, w), c = next(iter(a.items()))
        return c, {(s, mc): e for i, mc, e, s in m}, w

    def power(self, a, p):
        """scalar power, or inverse / root of a single word"""
        t = self.single(a)
        if t is None:
            return None
        c, m, w = t
        if p == -1:
            fs = [(s, fc, ft, -e) for s, fc, ft, e in reversed(w)]
        elif not w:
            fs = []
        elif all(f[0].diag for f in w):
            fs = [(s, fc, ft, e * p) for s, fc, ft, e in w]
        else:
            return None
        return self.lc(fs, c ** p, {k: e * p for k, e in m.items()})

    def absval(self, a):
        t = self.single(a)
        if t is None or t[2]:
            return None
        c, m, w = t
        out = {}
        for (s, mc), e in m.items():
            if s.herm:
                self.madd(out, s, 0, e)
            else:
                self.madd(out, s, 0, e / 2.)
                self.madd(out, s, 1, e / 2.)
        return self.lc((), abs(c), out)

    def is_scalar(self, a):
        return all(not w for (m, w) in a)

    def is_real(self, a):
        return self.is_scalar(a) and self.key(a) == self.key(self.mapped(a, 1, 0))

    # ------------------------------------------------------------ normal forms
    def norm(self, a, depth=0):
        if depth > 40:
            return a
        out = {}
        for (m, w), c in a.items():
            m0, parts = {}, []
            for i, mc, e, s in m:
                r = self.repl(s, depth)
                p = None
                if r is not None:
                    x = self.mapped(r, mc, 0)
                    p = x if e == 1 else self.power(x, e)
                if p is None:
                    self.madd(m0, s, mc, e)
                else:
                    parts.append(p)
            acc = {(self.mkey(m0), ()): c}
            for p in parts:
                acc = self.mul(acc, p)
            for f in w:
                s, fc, ft, e = f
                r = self.repl(s, depth)
                if r is None:
                    acc = self.mul(acc, self.lc([f]))
                    continue
                x = self.mapped(r, fc, ft)
                if e != 1:
                    p = self.power(x, e) if e in (-1, 0.5, -0.5) else None
                    if p is None and e == 2:
                        p = self.mul(x, x)
                    if p is None:
                        acc = self.mul(acc, self.lc([f]))
                        continue
                    x = p
                acc = self.mul(acc, x)
            for k, v in acc.items():
                out[k] = out.get(k, 0) + v
        return self.clean(out)

    def repl(self, s, depth):
        """what symbol s stands for under the current rules (None: itself)"""
        k = (s.id, self.version)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = None
        if s.id in self.rules:
            r = self.norm(self.rules[s.id], depth + 1)
        elif s.name[0] in ("El", "Er"):
            d, b1, b2, rho = s.data
            rho2 = self.norm(rho, depth + 1)
            if len(rho2) == 1 and self.index(depth):
                # the same up to a scalar
                f, bare = self.bare(rho2)
                hit = self.index(depth).get((d, b1.id, b2.id, self.key(bare)))
                if hit is not None and hit[0] is not s:
                    r = self.norm(self.mul(f, self.mul(self.power(hit[2], -1), self.rules[hit[0].id])), depth + 1)
            if r is None and self.key(rho2) != self.key(rho):
                x = self.env(d, rho2, b1, b2)
                r = self.norm(x, depth + 1)
        elif s.name[0] == "F" and s.data is not None:
            r = self.refresh(s)
        self.memo[k] = r
        return r

    refresh = staticmethod(lambda s: None)

    def bare(self, a):
        """(scalar factor, word with factor one)"""
        (m, w), c = next(iter(a.items()))
        return {(m, ()): c}, {((), w): 1.0 + 0j}

    def index(self, depth):
        """current normal forms of the arguments of the ruled environments"""
        if self.idx is not None and self.idx[0] == self.version:
            return self.idx[1]
        self.idx = (self.version, {})
        out = {}
        for sid, s in self.ruled.items():
            if s.name[0] in ("El", "Er"):
                d, b1, b2, rho = s.data
                r2 = self.norm(rho, depth + 1)
                if len(r2) == 1:
                    f, bare = self.bare(r2)
                    out[(d, b1.id, b2.id, self.key(bare))] = (s, bare, f)
                    dg = self.dag(bare)
                    if b1 is b2 and self.key(dg) != self.key(bare):
                        pass
        self.idx = (self.version, out)
        self.memo = {}
        return out

    def rule(self, s, value):
        self.rules[s.id] = value
        self.ruled[s.id] = s
        self.version += 1
        self.memo = {}

    def key(self, a):
        return tuple(sorted(((tuple((i, c, round(e, 9)) for i, c, e, s in m), tuple((s.id, c, t, round(e, 9)) for s, c, t, e in w)),
                             (round(v.real, 9), round(v.imag, 9))) for (m, w), v in a.items()))

    def eq(self, a, b):
        return self.key(self.norm(a)) == self.key(self.norm(b))

    # ------------------------------------------------------------ environments
    def env(self, d, rho, b1, b2):
        """sum_s b1_s^+ rho b2_s ('El') or sum_s b1_s rho b2_s^+ ('Er') for base tensors b1, b2; linear in rho"""
        out = {}
        for (m, w), c in rho.items():
            one = {((), w): 1.0 + 0j}
            dg = self.dag(one)
            k1, k2 = self.key(one), self.key(dg)
            flip = False
            a1, a2 = b1, b2
            if b1 is b2 and k2 < k1:
                one, k1, flip = dg, k2, True
            elif b1.id > b2.id:
                # adjoint: (sum_s b1^+ rho b2)^+ = sum_s b2^+ rho^+ b1
                one, k1, flip = dg, k2, True
                a1, a2 = b2, b1
            sh = None
            if b1.shape is not None and b2.shape is not None:
                sh = (b1.shape[1], b2.shape[1]) if d == "El" else (b1.shape[0], b2.shape[0])
                if flip:
                    sh = sh[::-1]
            s = self.sym((d, a1.id, a2.id, k1), sh, herm=a1 is a2 and k1 == self.key(self.dag(one)), data=(d, a1, a2, one))
            x = self.lc([(s, 0, 0, 1)])
            if flip:
                x = self.dag(x)
            x = self.mul({(m, ()): c}, x)
            for k, v in x.items():
                out[k] = out.get(k, 0) + v
        return self.clean(out)

    def env_factored(self, d, rho, t1, t2):
        """t = (scalar combination, P, base, Q)"""
        f1, P1, b1, Q1 = t1
        f2, P2, b2, Q2 = t2
        if d == "El":
            inner = self.mul(self.mul(self.dag(P1), rho), P2)
            x = self.env(d, inner, b1, b2)
            x = self.mul(self.mul(self.dag(Q1), x), Q2)
            return self.mul(self.mul(self.mapped(f1, 1, 0), f2), x)
        inner = self.mul(self.mul(Q1, rho), self.dag(Q2))
        x = self.env(d, inner, b1, b2)
        x = self.mul(self.mul(P1, x), self.dag(P2))
        return self.mul(self.mul(f1, self.mapped(f2, 1, 0)), x)

    def solve_rule(self, M, value):
        """make M equal to value: rewrite one symbol of M"""
        t = self.single(self.norm(M))
        if t is None:
            return False
        c, m, w = t
        if not w:
            # scalar: rewrite one environment atom
            cand = [(s, mc, e) for (s, mc), e in m.items() if s.name[0] in ("El", "Er") and e == 1]
            if len(cand) != 1:
                return False
            s = cand[0][0]
            rest = dict(m)
            del rest[(s, cand[0][1])]
            inv = self.power(self.lc((), c, rest), -1)
            self.rule(s, self.norm(self.mul(inv, value)))
            return True
        pick = [i for i, f in enumerate(w) if f[0].name[0] in ("El", "Er", "env") and f[3] == 1]
        if not pick:
            pick = [i for i, f in enumerate(w) if f[0].name[0] != "site" and f[3] == 1 and f[0].herm]
        if not pick:
            return False
        i = pick[0]
        P = self.lc(w[:i])
        S = self.lc(w[i + 1:])
        x = self.mul(self.mul(self.power(P, -1), value), self.power(S, -1))
        x = self.mul(self.power(self.lc((), c, m), -1), x)
        s, fc, ft, e = w[i]
        x = self.mapped(x, fc, ft)
        self.rule(s, self.norm(x))
        return True
