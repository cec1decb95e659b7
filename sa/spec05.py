"""C05: sweeping integrators and variational sweeps.

The sweeps (take_step_split / vari_opt_ss_sweep of the generic class, evolve_split) are interpreted on small chains whose
site tensors and Hamiltonian terms are distinct unknowns.  Wherever they hand an operator to the exponential or eigenvalue
solver, the operator's own matvec is interpreted on the tensor handed in, and the expression is compared with the definition:
every Hamiltonian term exactly once, every site tensor in its present, canonical form, the step with its sign; what the solver
returns is a new unknown, which has to take its place in the chain without anything else of the state changing."""
from .repo import qualname
from .lab17 import Lab
from .rules17 import Ar, Bound, Lst, Undecided, Raised, Lib
from .rig17 import Chain, show, same_word
from .spec17 import Counter, install_open

# three levels per site: explicit sums over a level count 3 or 9 times, a term taken twice counts 2 times
SIZES = {2: ([1, 2, 1], [0, 3, 3]), 3: ([1, 2, 2, 1], [0, 3, 3, 3]), 4: ([1, 2, 4, 2, 1], [0, 3, 3, 3, 3]), 5: ([1, 2, 4, 3, 2, 1], [0, 3, 3, 3, 3, 3])}
LEVELS = (1, 3, 9, 27, 81)


class Coef(Counter):
    """like Counter, with complex coefficients"""
    def lc(self, lc):
        out = {}
        for (mono, w), c in lc.items():
            for s in ([f[0] for f in w] if w else [x[3] for x in mono]):
                self.add(out, self.sym(s), c)
        return out


def entries(g, res):
    """[(coefficient, per-entry expression snapshots)] of what a matvec returned"""
    if not isinstance(res, Ar):
        raise Undecided("the operator returns no array")
    if res.items is not None:
        return [(1, [("m", g.freeze(x.lc)) for x in flat(res)])]
    src = getattr(res, "rav", None)
    if src is not None:
        return entries(g, src)
    if res.lc is None:
        raise Undecided("the operator returns no expression")
    out = []
    for (mono, w), c in g.G.norm(res.lc).items():
        if mono or len(w) != 1 or w[0][1:] != (0, 0, 1):
            out.append((1, [("m", g.freeze({(mono, w): c}))]))
            continue
        s = w[0][0]
        if s.name[:1] == ("F",) and s.name[1] in ("reshape", "ravel"):
            a = s.data[1][0]
            out.append((c, list(leaves(a))))
        else:
            out.append((c, [("m", g.freeze({(mono, w): 1}))]))
    return out


def leaves(a):
    if a[0] == "t":
        for x in a[2]:
            for y in leaves(x):
                yield y
    elif a[0] == "l":
        for x in a[1]:
            for y in leaves(x):
                yield y
    else:
        yield a


def flat(a):
    if a.items is None:
        return [a]
    out = []
    for x in a.items:
        out += flat(x)
    return out


class Sweep(object):
    """what is recorded while a sweep is interpreted"""
    def __init__(self, lab, c, op, label, hs, use_local=True, mpo=False):
        self.lab, self.c, self.g, self.op, self.label, self.hs, self.local, self.mpo = lab, c, c.g, op, label, hs, use_local, mpo
        self.events, self.k = [], 0
        self.pending, self.net = None, []
        self.word = None            # [(base, link after it)] expected at the next event
        g = self.g
        g.intercept["gexpmv"] = self.expm
        fn = [f for m, f in lab.prog.all_functions() if getattr(f, "name", "") == "gexpmv"]
        g.nest = True
        self.names = [a.arg for a in fn[0].args.args] if fn else ["A", "v", "t"]
        g.intercept["eigsh"] = self.eig
        g.intercept["eigs"] = self.eig
        g.intercept["split_twosite"] = self.split
        g.intercept["matvec"] = lambda gi, f, a, k: gi.F("matvec", [a[0]], shape=a[0].shape)

    def viol(self, rule, construct, msg):
        if isinstance(self.op, str):
            return self.lab.viol(self.c, rule, self.op, construct, "%s: %s" % (self.label, msg))
        fn = self.op
        self.lab.ctx.violation(rule, fn._mod.path, qualname(fn), construct, "%s: %s" % (self.label, msg), fn.lineno)

    def split(self, g, f, args, kw):
        """a two-site tensor is split: an isometry, the matrix of its singular values, an isometry"""
        if self.pending is None:
            return Undecided
        n, dec, new = self.pending
        AA = args[0]
        if not isinstance(AA, Ar) or g.key(AA) != g.key(new):
            raise Undecided("what is split: %s" % (seen(g.snap(AA))))
        q1, q2, d0, d2 = AA.shape
        d1 = min(q1 * d0, q2 * d2, 3)
        a1, a2 = g.site(("E", self.k, 1), (q1, d0, d1)), g.site(("E", self.k, 2), (q2, d1, d2))
        G = g.mat(("Gnew", self.k), (d1, d1), diag=True)
        for d, t in (("El", a1), ("Er", a2)):
            v = g.env(d, g.eye(t.shape[1 if d == "El" else 2]), t, t)
            if not g.G.solve_rule(v.lc, g.G.one()):
                raise Undecided("isometry")
        dec = list(dec)
        dec[n - 1], dec[n] = g.decomp(a1), g.decomp(a2)
        self.word = self.links(dec, n, G.lc)
        self.pending = None
        return (a1, G, a2, Lst([], "arr"))

    # -------------------------------------------------------------- the solvers
    def solver(self, lop, v0, step, tau_ok=True):
        g = self.g
        x = getattr(v0, "rav", None) if isinstance(v0, Ar) else None
        if x is None:
            raise Undecided("start vector of the solver")
        fn = g.method(lop.cls, "matvec")
        res = g.callfn(fn, [v0], {}, lop)
        ev = self.event(x, lop, res, step)
        self.events.append(ev)
        self.k += 1
        if x.kind == "ten" or x.items is not None or len(x.shape) == 3:
            new = g.site(("E", self.k), x.shape)
        elif len(x.shape) == 2:
            new = g.mat(("Gnew", self.k), x.shape)
        else:
            new = g.F("AAnew", [self.k], shape=x.shape)
        self.expect(ev, new)
        return g.bm(new, "ravel", [], {}, None)

    def expm(self, g, f, args, kw):
        b = dict(zip(self.names, args))
        b.update(kw)
        if any(x not in b for x in self.names[:3]):
            raise Undecided("arguments of the exponential")
        v = self.solver(*[b[x] for x in self.names[:3]])
        n = self.returns
        return tuple([v, True, 1, False, 1, Lst([0.0, 0.0])][:n])

    def eig(self, g, f, args, kw):
        if kw.get("which") != "SA" or kw.get("k", 1) != 1:
            self.viol("not the lowest eigenvalue", "which", "the variational problem asks for the eigenvalues %s" % kw.get("which"))
        if kw.get("v0") is None:
            raise Undecided("no start vector")
        v = self.solver(args[0], kw["v0"], None)
        e = g.F("eigvecs", [self.k], shape=(v.shape[0], 1))
        e.column = v
        return (g.F("eigvals", [self.k], shape=(1,)), e)

    # -------------------------------------------------------------- the chain
    def current(self):
        return [self.g.decomp(self.c.A(n)) for n in range(1, self.c.N + 1)]

    def locate(self, x):
        """(kind, n): which centre the solver works on"""
        g, c = self.g, self.c
        if len(x.shape) == 3:
            for n in range(1, c.N + 1):
                if c.A(n) is x:
                    return "A", n
            b = g.decomp(x)[2]
            for n in range(1, c.N + 1):
                if g.decomp(c.A(n))[2] is b:
                    return "A", n
        elif len(x.shape) == 4:
            k = g.key(x)
            for n in range(1, c.N):
                if g.key(g.F("calc_AA", [c.A(n), c.A(n + 1)], shape=x.shape)) == k:
                    return "AA", n
        elif len(x.shape) == 2:
            return "G", None
        raise Undecided("which centre the solver is given: %s %s" % (x.shape, seen(self.g.snap(x))))

    def links(self, dec, at=None, G=None):
        """[base, link, base, ...] with the matrix G inserted right of site at"""
        A, g = self.g.G, self.g
        out = [A.norm(dec[0][1])]
        for n, d in enumerate(dec, 1):
            out.append(d[2])
            x = d[3]
            if n == at:
                x = A.mul(x, G)
            if n < len(dec):
                x = A.mul(x, dec[n][1])
            out.append(A.norm(x))
        return out

    def same_links(self, a, b):
        g = self.g
        for i, (x, y) in enumerate(zip(a, b)):
            if i % 2:
                if x is not y:
                    return "site %d" % (i // 2 + 1)
            elif not same_word(g, x, y, True):
                return "the bond right of site %d" % (i // 2) if i else "the left end"
        return None

    def event(self, x, lop, res, step):
        g, c = self.g, self.c
        dec = self.current()
        kind, n = self.locate(x)
        if kind == "G":
            gx = x.lc
            fits = [m for m in range(1, c.N) if self.word is not None and self.same_links(self.links(dec, m, gx), self.word) is None]
            if not fits:
                # the bond the operator was made for
                m = lop.f.get("n")
                n = m if isinstance(m, int) and 0 < m < c.N else 1
            else:
                n = fits[0]
            now = self.links(dec, n, gx)
        else:
            now = self.links(dec)
        where = {"A": "site %d", "AA": "sites %d and the next", "G": "bond %d"}[kind] % n
        if self.word is not None:
            bad = self.same_links(self.word, now)
            if bad:
                self.viol("the state changes between two steps", "centre", "before the step on %s the state is not what the previous step left (%s differs)" % (where, bad))
        # canonical form around the centre
        first, last = (n, n) if kind == "A" else (n, n + 1) if kind == "AA" else (n + 1, n)
        for m in range(1, c.N + 1):
            if first <= m <= last:
                continue
            d = "El" if m < first else "Er"
            t = c.A(m)
            v = g.env(d, g.eye(t.shape[1 if d == "El" else 2]), t, t)
            nv = g.G.norm(v.lc)
            if not (g.G.is_scalar(nv) and len(nv) == 1):
                self.viol("centre of the canonical form", "centre", "during the step on %s the tensor of site %d is not %s-orthonormal" % (where, m, "left" if d == "El" else "right"))
        self.back = False
        self.operator(kind, n, where, x, dec, res, step)
        if self.forward is None:
            self.net.append((kind, n, -1 if self.back else 1))
        return (kind, n, dec, x)

    def expect(self, ev, new):
        kind, n, dec, x = ev
        g = self.g
        if kind == "A":
            d = list(dec)
            d[n - 1] = g.decomp(new)
            self.word = self.links(d)
        elif kind == "G":
            self.word = self.links(dec, n, new.lc)
        else:
            self.word = None
            self.pending = (n, dec, new)

    # -------------------------------------------------------------- the operator
    def weights(self, name, what, want, kind, where, res, step):
        g = self.g
        cnt = Coef(g, name)
        sign = None
        if step is not None:
            sign = -0.5 * self.dtau
            if self.forward is not None and kind not in self.forward:
                sign = -sign
        for coef, items in entries(g, res):
            for it in items:
                d = {k: v * coef * (1 if sign is None else step / sign) for k, v in cnt.data(it).items()}
                r = {k: round(v.real) if abs(v - round(v.real)) < 1e-9 else v for k, v in d.items()}
                r = {k: 1 if v in LEVELS else -1 if -v in LEVELS else v for k, v in r.items()}
                if r == want:
                    self.lab.ctx.count("operator entries checked")
                    continue
                neg = {k: -v for k, v in r.items()}
                if neg == want and self.forward is None:
                    self.back = True
                    self.lab.ctx.count("operator entries checked")
                elif neg == want:
                    self.viol("direction of the step", "step", "the step on %s has the wrong sign" % where)
                elif set(r) == set(want) and len(set(map(str, r.values()))) == 1:
                    self.viol("length of the step", "step", "the step on %s is %s times the half step of the sweep" % (where, list(r.values())[0]))
                else:
                    miss = sorted(set(want) - set(r))
                    more = sorted(k for k in r if r[k] != 1 or k not in want)
                    self.viol("terms of the effective Hamiltonian", "H", "the operator of %s %s" % (where, "; ".join(
                        (["lacks the %s at %s" % (what, ", ".join(map(str, miss)))] if miss else []) + (["contains the %s at %s with weight %s" % (what, k, r[k]) for k in more]))))

    def operator(self, kind, n, where, x, dec, res, step):
        g, c = self.g, self.c
        ok = {d[2].id: (m, d) for m, d in enumerate(dec, 1)}
        xs = set()
        if kind == "A":
            xs.add(g.decomp(x)[2].id)
        terms = {m: 1 for m in range(1, c.N - self.hs + 2)} if self.local else {}
        self.weights("hterm", "term", terms, kind, where, res, step)
        self.weights("mpo", "operator matrix", {m: 1 for m in range(1, c.N + 1)} if self.mpo else {}, kind, where, res, step)
        for b, P, Q in tensors(g, res):
            if b.id in xs:
                continue
            if b.id not in ok:
                if b.name[:2] == ("site", "val"):
                    raise Undecided("tensor in the operator: %s" % seen(b.data))
                self.viol("stale tensor in the effective Hamiltonian", "blocks", "the operator of %s is built with a tensor that is no longer part of the state (%s)" % (where, nm(b)))
                continue
            m, d = ok[b.id]
            if P is None:
                continue
            good = same_word(g, P, d[1], True) and same_word(g, Q, d[3], True)
            if not good and kind == "G" and m == n + 1:
                good = same_word(g, P, g.G.mul(x.lc, d[1]), True) and same_word(g, Q, d[3], True)
            if not good:
                self.viol("tensor of another gauge in the effective Hamiltonian", "blocks", "the operator of %s is built with the tensor of site %d before its orthonormalisation (%s A %s instead of %s A %s)" % (where, m, show(g, P, 60), show(g, Q, 60), show(g, d[1], 60), show(g, d[3], 60)))
        st = stale(g, res)
        if st:
            self.viol("stale block in the effective Hamiltonian", "blocks", "the operator of %s uses %s from before the sweep (%s)" % (where, ", ".join(sorted(st)), seen(("l", (entries(g, res)[0][1][0],)))))


def nm(b):
    return ".".join(str(x) for x in b.name)[:40]


def stale(g, res):
    out, seen = set(), set()

    def sym(s):
        if s.id in seen:
            return
        seen.add(s.id)
        if s.name[0] == "old":
            out.add("%s[%s]" % (s.name[1], s.name[2]))
        elif s.name[:2] == ("F", "old"):
            a = s.data[1]
            out.add("%s[%s]" % (a[0][1], a[1][1] if len(a) > 1 else ""))
        walk(s.data)

    def walk(x):
        if hasattr(x, "id") and hasattr(x, "name"):
            sym(x)
        elif isinstance(x, dict):
            for k, v in x.items():
                walk(k)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    for _, items in entries(g, res):
        walk(items)
    return out


def tensors(g, res):
    """(base, P, Q) of the site tensors an expression is made of; P and Q are None where only the base is known"""
    out, seen = [], set()

    def sym(s):
        if s.id in seen:
            return
        seen.add(s.id)
        if s.name[0] == "slice":
            base(s.data[0])
        elif s.name[0] in ("El", "Er"):
            for b in (s.data[1], s.data[2]):
                base(b)
            walk(s.data[3])
        elif s.name[0] == "F":
            if s.name[1] not in ("adot", "adot_noconj", "norm"):
                walk(s.data[1])
        elif s.name[0] in ("Gnew", "old"):
            pass
        elif s.name[0] == "fac":
            pass            # the factor of an orthonormalisation
        else:
            walk(s.data)

    def base(b):
        if b.name[:2] == ("site", "val"):
            if b.id not in seen:
                seen.add(b.id)
                walk(b.data)
        else:
            out.append((b, None, None))

    def tens(t):
        pats = []
        for i, x in enumerate(t[2]):
            if x[0] != "m" or len(x[1]) != 1:
                return False
            (mono, w), c = x[1][0]
            hits = [j for j, f in enumerate(w) if f[0].name[0] == "slice"]
            if len(hits) != 1 or w[hits[0]][1:] != (0, 0, 1) or w[hits[0]][0].data[1] != i:
                return False
            pats.append((w[hits[0]][0].data[0], w[:hits[0]], w[hits[0] + 1:]))
        b = pats[0][0]
        if b.name[:2] == ("site", "val"):
            return False
        if any(p[0] is not b or p[1] != pats[0][1] or p[2] != pats[0][2] for p in pats):
            return False
        out.append((b, g.G.norm(g.G.lc(pats[0][1])), g.G.norm(g.G.lc(pats[0][2]))))
        return True

    def walk(x):
        if hasattr(x, "id") and hasattr(x, "name"):
            sym(x)
        elif isinstance(x, dict):
            for k, v in x.items():
                walk(k)
        elif isinstance(x, (tuple, list)):
            if len(x) == 3 and x[0] == "t" and tens(x):
                return
            for y in x:
                walk(y)
    for _, items in entries(g, res):
        walk(items)
    return out


# ------------------------------------------------------------------ the scenarios
def prepare(c, right=True):
    """the state the sweep starts from: right canonical, l of another state"""
    g = c.g
    for n in range(1, c.N + 1):
        t = c.A(n)
        v = g.env("Er", g.eye(t.shape[2]), t, t)
        if not g.G.solve_rule(v.lc, g.G.one()):
            raise Undecided("canonical form")
        c.o.f["r"].items[n] = g.eye(c.D[n])
    c.o.f["r"].items[0] = g.eye(1)
    if "K" in c.o.f:
        c.call("calc_C")
        c.call("calc_K")


def matrices(c):
    """a matrix-product operator of distinct unknowns"""
    w = [1] + [2 + n % 2 for n in range(c.N - 1)] + [1]
    return Lst([None] + [c.g.F("mpo", [n], shape=(w[n - 1], w[n], c.q[n], c.q[n])) for n in range(1, c.N + 1)])


def sweep_order(s, two, dmrg):
    N = s.c.N
    up, down = [], []
    if not two:
        for n in range(1, N + 1):
            up.append(("A", n))
            if n < N and not dmrg:
                up.append(("G", n))
        for n in range(N, 0, -1):
            down.append(("A", n))
            if n > 1 and not dmrg:
                down.append(("G", n - 1))
    else:
        for n in range(1, N):
            up.append(("AA", n))
            if n < N - 1 and not dmrg:
                up.append(("A", n + 1))
        for n in range(N - 1, 0, -1):
            down.append(("AA", n))
            if n > 1 and not dmrg:
                down.append(("A", n))
    return up + down


def text(ev):
    return " ".join({"A": "%d", "AA": "%d-", "G": "|%d"}[k] % n for k, n in ev) or "nothing"


def finish(s, order, times=1):
    have = [(e[0], e[1]) for e in s.events]
    if have != order * times:
        i = [x == y for x, y in zip(have + [None], order * times + [None])].index(False) if have[:len(order * times)] != order * times else len(order) * times
        s.viol("order of the sweep", "order", "the sweep works on %s instead of %s (step %d)" % (text(have[max(0, i - 2):i + 3]), text((order * times)[max(0, i - 2):i + 3]), i + 1))
    else:
        s.lab.ctx.count("sweeps in order")


def mixed(s, times):
    """one- and two-site steps in one sweep: every site is evolved once per half-sweep"""
    cover = dict((n, 0) for n in range(1, s.c.N + 1))
    for kind, n, sg in s.net:
        for m in ((n,) if kind == "A" else (n, n + 1) if kind == "AA" else ()):
            cover[m] += sg
    bad = sorted(n for n in cover if cover[n] != 2 * times)
    if bad:
        s.viol("site evolved more or less than once per half-sweep", "order", "%d sweeps evolve site %d by %d half steps (steps taken: %s)" % (times, bad[0], cover[bad[0]], text([x[:2] for x in s.net])))
    else:
        s.lab.ctx.count("sweeps in order")


def generic(lab, thorough):
    cls = "EvoMPS_TDVP_Generic"
    for hs in (2, 3):
        for N in (2, 3, 4) + ((5,) if thorough else ()):
            if N < hs:
                continue
            for dtau, loc, mpo in ((0.25, True, False), (0.25j, True, False), (None, True, False), (0.25, False, True), (0.25, True, True), (None, False, True)):
                if mpo and hs == 3:
                    continue
                def one(hs, N, dtau, loc, mpo):
                    label = "%s(%s%s%s), %d-site terms, N=%d" % ("vari_opt_ss_sweep" if dtau is None else "take_step_split", "" if dtau is None else "dtau=%s" % dtau,
                                                             ", HMPO" if mpo else "", "" if loc else ", no local terms", hs, N)
                    op = "take_step_split"

                    def body(c):
                        install_open(c.g)
                        prepare(c)
                        s = Sweep(lab, c, op, label, hs, loc, mpo)
                        s.returns, s.forward, s.dtau = 5, ("A",), dtau
                        kw = {"use_local_ham": loc}
                        if mpo:
                            kw["HMPO"] = matrices(c)
                        if dtau is None:
                            c.call("vari_opt_ss_sweep", **kw)
                        else:
                            c.call(op, dtau, print_progress=False, **kw)
                        finish(s, sweep_order(s, False, dtau is None))
                        ending(s)
                        kend(s)
                    lab.scen(label, lambda dec: Chain(lab.prog, cls, *SIZES[N], ham_sites=hs, decisions=dec, fields=(("canonical_form", "right"),)), body, 4, raised1(lab, op, label))
                one(hs, N, dtau, loc, mpo)


FAILS = ("IndexError", "AssertionError", "ValueError", "AttributeError", "TypeError", "ZeroDivisionError", "UnboundLocalError", "NameError")


def raised1(lab, op, label):
    def f(e, rig):
        if str(e).split(":")[0].split("(")[0].strip() in FAILS:
            lab.viol(rig, "the sweep fails", op, "raise", "%s: raises %s" % (label, e))
            return True
        return False
    return f


def raised2(lab, fn, label):
    def f(e, rig):
        if str(e).split(":")[0].split("(")[0].strip() in FAILS:
            lab.ctx.violation("the sweep fails", fn._mod.path, qualname(fn), "raise", "%s: raises %s" % (label, e), fn.lineno)
            return True
        return False
    return f


def ending(s):
    """after the sweep: what the last step left, right-canonical"""
    g, c = s.g, s.c
    dec = s.current()
    if s.word is not None:
        bad = s.same_links(s.word, s.links(dec))
        if bad:
            s.viol("the state changes after the last step", "centre", "at the end the state is not what the last step left (%s differs)" % bad)
    for n in range(2, c.N + 1):
        t = c.A(n)
        v = g.G.norm(g.env("Er", g.eye(t.shape[2]), t, t).lc)
        if not (g.G.is_scalar(v) and len(v) == 1):
            s.viol("canonical form after the sweep", "centre", "at the end the tensor of site %d is not right-orthonormal" % n)
    for n in range(1, c.N + 1):
        r = g.asar(c.lr("r", n))
        if r is None or r.lc is None or not g.G.eq(r.lc, g.G.one()):
            s.viol("environment after the sweep", "r", "r[%d] is not the identity at the end" % n)
        elif r.shape and r.shape[0] != c.o.f["D"].items[n]:
            s.viol("environment after the sweep", "r", "r[%d] has dimension %s and the bond %s" % (n, r.shape[0], c.o.f["D"].items[n]))
        if c.A(n).shape[1:] != (c.o.f["D"].items[n - 1], c.o.f["D"].items[n]):
            s.viol("bond dimensions after the sweep", "D", "D does not describe the tensor of site %d at the end" % n)


def kend(s):
    """the energy blocks of the final tensors"""
    g, c = s.g, s.c
    v = g.asar(c.o.f["K"].items[1])
    if v is None or v.lc is None:
        raise Undecided("K[1]")
    if not s.local:
        return
    want = {m: 1 for m in range(1, c.N - s.hs + 2)}
    got = Coef(g, "hterm").value(v)
    if got != want:
        s.viol("energy block after the sweep", "K", "K[1] contains the terms %s" % sorted(got))
    ok = set(g.decomp(c.A(n))[2].id for n in range(1, c.N + 1))
    for b, P, Q in tensors(g, v):
        if b.id not in ok:
            s.viol("energy block after the sweep", "K", "K[1] is built from a tensor that is no longer part of the state (%s)" % nm(b))
    h = g.asar(c.o.f["H_expect"])
    if h is None or h.lc is None or Coef(g, "hterm").value(h) != want or s.mpo and Coef(g, "mpo").value(h) != {m: 1 for m in range(1, c.N + 1)}:
        s.viol("energy after the sweep", "H_expect", "H_expect is not the energy in the blocks of the final state")


def free(lab, thorough):
    cls = "EvoMPS_MPS_Generic"
    fns = [f for m, f in lab.prog.all_functions() if getattr(f, "name", "") == "evolve_split"]
    if not fns:
        raise Undecided("evolve_split")
    fn = fns[0]
    for hs in (2, 3):
        for N in (3, 4, 5):
            for dmax in (2, 3, 4):
                def one(hs, N, dmax):
                    label = "evolve_split(two_site, switch_to_1site, D_max=%d), %d-site terms, N=%d" % (dmax, hs, N)

                    def body(c):
                        g = c.g
                        install_open(g)
                        c.hs = hs
                        ham = Lst([None] + [c.hterm(n) for n in range(1, N - hs + 2)])
                        prepare(c)
                        s = Sweep(lab, c, fn, label, hs)
                        s.returns, s.forward, s.dtau = 6, None, 0.25
                        g.callfn(fn, [c.o, ham, hs, 0.25, 2], {"print_progress": False, "two_site": True, "switch_to_1site": True, "D_max": dmax, "min_schmidt": 1e-9})
                        mixed(s, 2)
                        ending(s)
                    lab.scen(label, lambda dec: Chain(lab.prog, cls, [1] + [2] * (N - 1) + [1], [0] + [3] * N, ham_sites=hs, decisions=dec), body, 4, raised2(lab, fn, label))
                one(hs, N, dmax)
    for hs in (2, 3):
        for N in (2, 3, 4) + ((5,) if thorough else ()):
            if N < hs:
                continue
            for dtau in (0.25, 0.25j, None):
                for two, loc, mpo in ((False, True, False), (True, True, False), (False, False, True), (False, True, True)):
                    if mpo and hs == 3:
                        continue
                    def one(hs, N, dtau, two, loc, mpo):
                        label = "evolve_split(%s%s%s%s), %d-site terms, N=%d" % ("DMRG" if dtau is None else "dtau=%s" % dtau, ", two_site" if two else "",
                                                                             ", HMPO" if mpo else "", "" if loc else ", no local terms", hs, N)
                        op = "evolve_split"

                        def body(c):
                            g = c.g
                            install_open(g)
                            c.hs = hs
                            ham = Lst([None] + [c.hterm(n) for n in range(1, N - hs + 2)])
                            prepare(c)
                            s = Sweep(lab, c, fn, label, hs, loc, mpo)
                            s.returns, s.forward, s.dtau = 6, (("AA",) if two else ("A",)), dtau
                            kw = {"use_local_ham": loc, "HMPO": matrices(c) if mpo else None, "print_progress": False, "two_site": two, "DMRG": dtau is None}
                            if two:
                                kw.update(D_max=8, min_schmidt=1e-9)
                            g.callfn(fn, [c.o, ham, hs, 1.0 if dtau is None else dtau, 2], kw)
                            ending(s)
                            finish(s, sweep_order(s, two, dtau is None), 2)
                        lab.scen(label, lambda dec: Chain(lab.prog, "EvoMPS_TDVP_Generic" if mpo else cls, *SIZES[N], ham_sites=hs, decisions=dec), body, 4, raised2(lab, fn, label))
                    one(hs, N, dtau, two, loc, mpo)


def retained(lab):
    """split_twosite keeps the largest singular values that are not too small, at most D_max, and the vectors that belong to them"""
    fns = [(m, f) for m, f in lab.prog.all_functions() if getattr(f, "name", "") == "split_twosite"]
    for m, f in fns:
        f._mod = m

        def body(c, f=f, m=m):
            g = c.g
            S = [4.0, 2.0, 0.5, 0.25]
            g.intercept["svd"] = lambda gi, fn, a, k: (gi.F("svdU", [1], shape=(4, 4)), Lst(list(S), "arr"), gi.F("svdV", [1], shape=(6, 6)))
            g.intercept["diag"] = lambda gi, fn, a, k: a[0]
            bad = lambda what, msg: lab.ctx.violation("retained singular values", m.rel, "evolve_split.split_twosite", what, "split_twosite(%s): %s" % (lab_, msg), f.lineno)
            for dmax, eps in ((2, 0.0), (4, 1.0), (3, 0.3), (9, 0.1), (3, 3.0)):
                lab_ = "D_max=%d, min_schmidt=%s, singular values %s" % (dmax, eps, S)
                want = min(dmax, len([x for x in S if x >= eps]))
                r = g.callfn(f, [g.F("AA", [1], shape=(2, 3, 2, 2)), dmax, eps], {})
                if not isinstance(r, tuple) or len(r) != 4 or not isinstance(r[1], Lst) or not isinstance(r[3], Lst):
                    raise Undecided("result of split_twosite")
                s, rest = [x for x in r[1].items], [x for x in r[3].items]
                if s != S[:want]:
                    bad("s", "keeps %s instead of %s" % (s, S[:want]))
                if rest != S[want:]:
                    bad("rest", "reports %s as discarded instead of %s" % (rest, S[want:]))
                for x, nm_, full, ax in ((r[0], "svdU", 4, 1), (r[2], "svdV", 6, 0)):
                    k = kept(g, x, nm_, full, ax)
                    if k is None:
                        raise Undecided("vectors of split_twosite")
                    if k != list(range(full))[:want]:
                        bad(nm_, "keeps the singular vectors %s for the singular values %s" % (k, list(range(want))))
                lab.ctx.count("truncations checked")
        lab.scen("split_twosite", lambda dec: Chain(lab.prog, "EvoMPS_MPS_Generic", [1, 2, 2, 1], [0, 3, 3, 3], ham_sites=2, decisions=dec), body, 4)


def kept(g, x, name, full, ax):
    """which vectors an array made from name by reshapes, transpositions and one slicing contains"""
    have = list(range(full))
    while True:
        if not isinstance(x, Ar) or x.lc is None or len(x.lc) != 1:
            return None
        (mono, w), c = list(x.lc.items())[0]
        if mono or len(w) != 1 or w[0][1:] != (0, 0, 1) or w[0][0].name[:1] != ("F",):
            return None
        s = w[0][0]
        if s.name[1] == name:
            return have
        a = s.data[1]
        if s.name[1] == "part":
            ix = plain(a[1])
            if not isinstance(ix, list) or ax >= len(ix) and have != list(range(full)):
                return None
            for j, i in enumerate(ix):
                if not isinstance(i, list) or i[0] != "slice":
                    return None
                sl = slice(*i[1:])
                if j == ax:
                    have = have[sl]
                elif sl != slice(None, None, None):
                    return None
        elif s.name[1] not in ("reshape", "transpose"):
            return None
        if a[0][0] != "m":
            return None
        x = Ar("mat", dict(a[0][1]))


def plain(x):
    return [plain(y) for y in x[1]] if x[0] == "l" else x[1] if x[0] == "c" else x


def run(prog, ctx):
    from . import spec05t
    spec05t.run(prog, ctx)
    lab = Lab(prog, ctx, "sweep scenarios interpreted")
    lab.later()
    retained(lab)
    generic(lab, ctx.tier == "thorough")
    free(lab, ctx.tier == "thorough")
    lab.go()


def seen(x, depth=0):
    """a readable extract of an expression"""
    if hasattr(x, "name") and hasattr(x, "id"):
        if x.name[0] == "F":
            return "%s(%s)" % (x.name[1], ", ".join(seen(a, depth + 1) for a in x.data[1]) if depth < 6 else "..")
        return ".".join(map(str, x.name))[:30]
    if isinstance(x, tuple) and x and x[0] == "m":
        return " + ".join(" ".join(seen(f[0], depth) for f in w) or "1" for (mo, w), c in x[1]) or "0"
    if isinstance(x, tuple) and x and x[0] in ("t", "l"):
        return "[%s]" % seen(x[-1][0], depth) if x[-1] else "[]"
    return str(x)[:30]
