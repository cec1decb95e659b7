"""Objects of the chain, block and sandwich classes for the interpreters of rules17: built by
interpreting their own constructors, then given independent site tensors and deliberately stale
derived quantities."""
import ast
from .rules17 import GI, Ar, Lst, Obj, Lib, At, Undecided, Raised, dcopy
from .repo import qualname


class Chain(object):
    """EvoMPS_MPS_Generic / EvoMPS_TDVP_Generic with N sites"""
    def __init__(self, prog, cls, D, q, ham_sites=2, decisions=(), fields=(), ham_none=(), tp=False, extra=None):
        self.prog = prog
        self.N = N = len(D) - 1
        self.D, self.q, self.hs = list(D), list(q), ham_sites
        g = self.g = GI(prog, decisions)
        for nm in ("initialize_state", "randomize"):
            g.intercept[nm] = lambda s, f, a, k: None
        c = prog.classes[cls]
        self.cls = c[0] if isinstance(c, list) else c
        o = self.o = Obj(self.cls, "self", {})
        init = g.method(self.cls, "__init__")
        a = [N, Lst(list(D)), Lst(list(q))]
        self.tdvp = "ham" in [x.arg for x in init.args.args]
        self.ham = None
        if self.tdvp:
            self.ham = Lst([None] + [None if n in ham_none else self.hterm(n, tp) for n in range(1, N - ham_sites + 2)])
            a.append(self.ham)
        kw = {}
        if self.tdvp:
            kw["ham_sites"] = ham_sites
        if extra:
            kw.update(extra(self))
        kw = {k: v for k, v in kw.items() if k in [x.arg for x in init.args.args]}
        g.callfn(init, a, kw, o)
        for k, v in fields:
            o.f[k] = v
        g.intercept = {}
        self.fill()

    def hterm(self, n, tp=False):
        q = tuple(self.q[n:n + self.hs])
        if tp:
            return Lst([Lst([self.g.F("hterm", [n, i, s], shape=(self.q[n + s],) * 2) for s in range(self.hs)]) for i in range(2)])
        return self.g.F("hterm", [n], shape=q + q)

    def fill(self):
        """independent site tensors; everything derived becomes stale"""
        o, g = self.o, self.g
        self.bases = [None]
        for n in range(1, self.N + 1):
            t = o.f["A"].items[n]
            sh = (self.q[n], self.D[n - 1], self.D[n])
            t.become(g.site(("A", n), sh))
            self.bases.append(g.decomp(t)[2])
        self.stale()

    def stale(self):
        o, g = self.o, self.g
        for nm in ("l", "r"):
            for n in range(self.N + 1):
                if (nm == "l" and n == 0) or (nm == "r" and n == self.N):
                    continue
                sh = (self.D[n],) * 2
                o.f[nm].items[n] = g.mat(("old", nm, n), sh)
        for nm in ("K", "C", "AA", "AAA", "h_expect", "eta_sq", "etaBB_sq"):
            v = o.f.get(nm)
            if isinstance(v, Lst):
                for n in range(len(v.items)):
                    v.items[n] = g.F("old", [nm, n], shape=() if nm[0] in "he" else v.items[n].shape if isinstance(v.items[n], Ar) else None)
        for nm in ("H_expect", "eta", "etaBB"):
            if nm in o.f:
                o.f[nm] = g.F("old", [nm], shape=())

    def call(self, name, *a, **k):
        fn = self.g.method(self.cls, name)
        if fn is None:
            raise Undecided("no method %s" % name)
        self.g.steps = 0
        return self.g.callfn(fn, list(a), dict(k), self.o)

    def A(self, n):
        return self.o.f["A"].items[n]

    # ------------------------------------------------------------ what should be there
    def lr(self, which, n):
        return self.o.f[which].items[n]

    def want_l(self, n):
        if n == 0:
            return self.g.eye(self.D[0])
        return self.g.env("El", self.lr("l", n - 1), self.A(n), self.A(n))

    def want_r(self, n):
        if n == self.N:
            return self.g.eye(self.D[-1])
        return self.g.env("Er", self.lr("r", n + 1), self.A(n + 1), self.A(n + 1))


def kernels(g, lc, out=None, seen=None):
    """names of the opaque kernels a normal form depends on (through their definitions too)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    for (mono, w), c in (lc or {}).items():
        for s in [f[0] for f in w] + [x[3] for x in mono]:
            sym_kernels(g, s, out, seen)
    return out


def sym_kernels(g, s, out, seen):
    if s.id in seen:
        return
    seen.add(s.id)
    if s.name and s.name[0] == "F":
        out.add(s.name[1])
    elif s.name and s.name[0] in ("old", "fac"):
        out.add(s.name[0])
    _walk(g, s.data, out, seen)


def _walk(g, x, out, seen):
    if isinstance(x, (tuple, list)):
        for y in x:
            _walk(g, y, out, seen)
    elif isinstance(x, dict):
        for k, v in x.items():
            _walk(g, k, out, seen)
            _walk(g, v, out, seen)
    elif hasattr(x, "id") and hasattr(x, "name"):
        sym_kernels(g, x, out, seen)


def foreign(g, b, known):
    """the tensor is none of the originals: undecided when an uninterpreted operation produced it"""
    k = kernels_of(g, b) - {"fac", "old"}
    if k:
        raise Undecided("tensor computed by %s" % sorted(k))


def kernels_of(g, s):
    out = set()
    sym_kernels(g, s, out, set())
    return out


def same_word(g, a, b, any_=False):
    """equal up to a scalar factor (made of inner products, unless any will do)"""
    a, b = g.G.norm(a), g.G.norm(b)
    if len(a) != 1 or len(b) != 1:
        return False
    (m1, w1), (m2, w2) = next(iter(a)), next(iter(b))
    k = lambda w: [(f[0].id,) + tuple(f[1:]) for f in w]
    names = set(x[3].name[1] if x[3].name[0] == "F" else x[3].name[0] for x in m1 + m2)
    return k(w1) == k(w2) and (any_ or names <= set(["adot", "adot_noconj"]))


def state_change(g, bases, tensors):
    """(problem or None, overall scalar) of a chain of site tensors against the original bases:
    X_1 B_1 Y_1 X_2 B_2 Y_2 ... must be  scalar * B_1 B_2 ..."""
    G = g.G
    tot = G.one()
    dec = []
    for n, t in tensors:
        f, P, b, Q = g.decomp(t)
        if b is not bases[n]:
            foreign(g, b, bases)
            if b.name[:2] == ("site", "val") or b not in [x for x in bases if x is not None]:
                return ("site %d is no longer a gauge transformation of the original tensor" % n), None
            return ("site %d holds a transformation of the tensor of site %d" % (n, [i for i, x in enumerate(bases) if x is b][0])), None
        dec.append((n, P, Q))
        tot = G.mul(tot, f)
    seq = [("before site %d" % dec[0][0], dec[0][1])]
    for (n1, P1, Q1), (n2, P2, Q2) in zip(dec, dec[1:]):
        seq.append(("between sites %d and %d" % (n1, n2), G.mul(Q1, P2)))
    seq.append(("after site %d" % dec[-1][0], dec[-1][2]))
    for w, x in seq:
        x = G.norm(x)
        if not G.is_scalar(x) or len(x) != 1:
            return "the matrices inserted %s do not cancel (%s)" % (w, show(g, x)), None
        tot = G.mul(tot, x)
    return None, G.norm(tot)


def show(g, lc, cap=160):
    out = []
    for (m, w), c in lc.items():
        fs = ["%s%s%s%s" % (nm(s), "*" if cj else "", "T" if t else "", "" if e == 1 else "^%g" % e) for s, cj, t, e in w]
        fs = ["%s%s%s" % (nm(s), "*" if cj else "", "" if e == 1 else "^%g" % e) for i, cj, e, s in m] + fs
        out.append(("" if abs(c - 1) < 1e-9 else "%g" % c.real if abs(c.imag) < 1e-12 else str(c)) + (" ".join(fs) or "1"))
    s = " + ".join(out) or "0"
    return s if len(s) <= cap else s[:cap] + "..."


def nm(s):
    n = s.name
    if n[0] == "fac":
        return "%s%d[%d]" % (n[1], n[2], s.id)
    if n[0] in ("El", "Er"):
        return "%s[%d]" % (n[0], s.id)
    if n[0] == "F":
        return "%s(..)[%d]" % (n[1], s.id)
    if n[0] == "slice":
        return "A#%d_%d" % (n[1], n[2])
    return ".".join(str(x) for x in n)[:40]


def explore(run, cap=24):
    """run(decisions) -> interpreter; every combination of the undecided conditions, depth first"""
    todo, n = [()], 0
    while todo and n < cap:
        dec = todo.pop()
        n += 1
        g = run(list(dec))
        used = g.dec[:g.used] if g is not None else []
        for i in range(len(dec), len(used)):
            if used[i]:
                todo.append(tuple(used[:i]) + (False,))
    return n


class Block(object):
    """EvoMPS_MPS_Uniform / EvoMPS_TDVP_Uniform with L sites per block"""
    def __init__(self, prog, cls, D, q, L, ham_sites=2, decisions=(), fields=(), tp=False, name="self", G=None, environments=True):
        self.prog = prog
        self.D, self.q, self.L, self.hs, self.nm = D, q, L, ham_sites, name
        g = self.g = G or GI(prog, decisions)
        c = prog.classes[cls]
        self.cls = c[0] if isinstance(c, list) else c
        o = self.o = Obj(self.cls, name, {})
        init = g.method(self.cls, "__init__")
        self.tdvp = "ham" in [x.arg for x in init.args.args]
        args = [D, q]
        kw = {"L": L, "do_update": False}
        if self.tdvp:
            self.ham = g.F("hterm", [0], shape=(q,) * (2 * ham_sites))
            args.append(self.ham)
            kw["ham_sites"] = ham_sites
        old = dict(g.intercept)
        g.intercept["randomize"] = lambda s, f, a, k: None
        g.callfn(init, args, kw, o)
        g.intercept = old
        if self.tdvp and tp:
            o.f["ham_tp"] = Lst([Lst([g.F("hterm", [0, i, s], shape=(q, q)) for s in range(2)]) for i in range(2)])
        for k, v in fields:
            o.f[k] = v
        self.install()
        self.bases = []
        for k in range(L):
            t = o.f["A"].items[k]
            t.become(g.site((name, "A", k), (q, D, D)))
            self.bases.append(g.decomp(t)[2])
        self.stale()
        if environments:
            self.environments()

    def install(self):
        g = self.g

        def fixed(gi, f, args, kw):
            self_ = f.self_
            o = self_
            kw = dict(kw)
            names = [x.arg for x in f.fn.args.args][1:]
            kw.update(zip(names, args))
            rescale = kw.get("rescale", True)
            if kw.get("A1") is not None or kw.get("A2") is not None:
                return Undecided
            left = kw.get("calc_l", False)
            A = o.f["A"].items
            if f.fn.name == "_calc_lr_brute":
                A[0].become(gi.bin(ast.Mult(), A[0], self.scale(gi, A)))
                return (self.fix(gi, o, True), self.fix(gi, o, False))
            if rescale:
                sc = self.scale(gi, A)
                for a in A:
                    a.become(gi.bin(ast.Mult(), a, sc))
            x = self.fix(gi, o, left)
            return (x, True, 1, 1, 20) if "ARPACK" in f.fn.name else (x, True, 1)
        for nm in ("_calc_lr_brute", "_calc_lr_ARPACK", "_calc_lr"):
            g.intercept[nm] = fixed

    def scale(self, gi, A):
        key = ("scale",) + tuple(gi.key(a) for a in A)
        s = gi.G.sym(key, (1, 1))
        return Ar("scal", gi.G.lc([(s, 0, 0, 1)]), shape=())

    def fix(self, gi, o, left):
        """dominant eigenvector of the block of current tensors: a hermitian matrix the block maps to itself"""
        A = o.f["A"].items
        key = ("env", "l" if left else "r") + tuple(gi.key(a) for a in A)
        G = gi.G
        D = A[0].shape[1]
        new = key not in G.tab
        if new:
            # the matrix found by the previous solve, when it still is the fixed point of the current block
            cur = o.f["l" if left else "r"].items
            cur = gi.asar(cur[len(A) - 1]) if len(cur) == len(A) else None
            if cur is not None and cur.kind == "mat" and cur.lc is not None and cur.shape == (D, D) and "old" not in kernels(gi, gi.G.norm(cur.lc)):
                x = cur
                for a in (A if left else list(reversed(A))):
                    x = gi.env("El" if left else "Er", x, a, a)
                if gi.G.eq(x.lc, cur.lc) or same_word(gi, x.lc, cur.lc):
                    return cur.copy()
        s = G.sym(key, (D, D), herm=True)
        v = Ar("mat", G.lc([(s, 0, 0, 1)]), shape=(D, D))
        if new:
            x = v
            seq = A if left else list(reversed(A))
            for a in seq:
                x = gi.env("El" if left else "Er", x, a, a)
            G.solve_rule(x.lc, v.lc)
        return v

    def environments(self):
        """l and r of the current tensors"""
        o, g, L = self.o, self.g, self.L
        A = o.f["A"].items
        l, r = o.f["l"].items, o.f["r"].items
        l[L - 1] = self.fix(g, o, True)
        r[L - 1] = self.fix(g, o, False)
        for k in range(L - 1):
            l[k] = g.env("El", l[k - 1], A[k], A[k])
        for k in range(L - 1, 0, -1):
            r[k - 1] = g.env("Er", r[k], A[k], A[k])

    def stale(self):
        o, g = self.o, self.g
        for nm in ("l", "r"):
            for k in range(self.L):
                o.f[nm].items[k] = g.mat(("old", self.nm, nm, k), (self.D, self.D))
        for nm in ("lL_before_CF", "rL_before_CF"):
            o.f[nm] = g.mat(("old", self.nm, nm), (self.D, self.D))
        for nm in ("K", "C", "AA", "AAA", "K_left", "eta_sq", "etaBB_sq", "Vsh", "l_sqrt", "l_sqrt_i", "r_sqrt", "r_sqrt_i"):
            v = o.f.get(nm)
            if isinstance(v, Lst):
                for k in range(len(v.items)):
                    x = v.items[k]
                    v.items[k] = g.F("old", [self.nm, nm, k], shape=() if nm[0] == "e" else x.shape if isinstance(x, Ar) else None)
        for nm in ("h_expect", "eta", "etaBB"):
            if nm in o.f:
                o.f[nm] = g.F("old", [self.nm, nm], shape=())

    def call(self, name, *a, **k):
        fn = self.g.method(self.cls, name)
        if fn is None:
            raise Undecided("no method %s" % name)
        self.g.steps = 0
        return self.g.callfn(fn, list(a), dict(k), self.o)

    def A(self, k):
        return self.o.f["A"].items[k % self.L]

    def lr(self, which, k):
        return self.o.f[which].items[k % self.L]

    def want_l(self, k):
        return self.g.env("El", self.lr("l", k - 1), self.A(k), self.A(k))

    def want_r(self, k):
        return self.g.env("Er", self.lr("r", k + 1), self.A(k + 1), self.A(k + 1))


def block_change(g, bases, tensors):
    """gauge change of a periodic block: the matrices inserted on every bond, the closing one included, must cancel"""
    G = g.G
    tot = G.one()
    dec = []
    for k, t in enumerate(tensors):
        f, P, b, Q = g.decomp(t)
        if b is not bases[k]:
            foreign(g, b, bases)
            if b not in bases:
                return "site %d is no longer a gauge transformation of the original tensor" % k, None
            return "site %d holds a transformation of the tensor of site %d" % (k, bases.index(b)), None
        dec.append((P, Q))
        tot = G.mul(tot, f)
    L = len(dec)
    for k in range(L):
        x = G.norm(G.mul(dec[k][1], dec[(k + 1) % L][0]))
        if not G.is_scalar(x) or len(x) != 1:
            return "the matrices inserted between sites %d and %d do not cancel (%s)" % (k, (k + 1) % L, show(g, x)), None
        tot = G.mul(tot, x)
    return None, G.norm(tot)


class Sand(object):
    """EvoMPS_MPS_Sandwich / EvoMPS_TDVP_Sandwich: a window of N sites between two uniform blocks"""
    def __init__(self, prog, cls, N, q, L, D=2, ham_sites=2, decisions=(), fields=(), Dw=None, nc=None, right=False):
        self.prog, self.N, self.L, self.hs = prog, N, L, ham_sites
        tdvp = "TDVP" in cls
        ucls = "EvoMPS_TDVP_Uniform" if tdvp else "EvoMPS_MPS_Uniform"
        b = Block(prog, ucls, D, q, L, ham_sites=ham_sites, decisions=decisions, name="bulk", environments=False)
        g = self.g = b.g
        c = prog.classes[cls]
        self.cls = c[0] if isinstance(c, list) else c
        self.tdvp = tdvp
        o = self.o = Obj(self.cls, "self", {})
        saved = dict(g.intercept)
        g.intercept["calc_B"] = lambda s, f, a, k: None
        init = g.method(self.cls, "__init__")
        g.callfn(init, [N, b.o], {"update_bulks": False}, o)
        g.intercept = saved
        self.blocks = {}
        for side in ("uni_l", "uni_r"):
            u = Block.__new__(Block)
            u.prog, u.D, u.q, u.L, u.hs, u.nm, u.g, u.cls, u.tdvp, u.o = prog, D, q, L, ham_sites, side, g, b.cls, tdvp, o.f[side]
            u.o.role = side
            u.o.f["sanity_checks"] = False
            u.bases = []
            for k in range(L):
                t = u.o.f["A"].items[k]
                t.become(g.site((side, "A", k), (q, D, D)))
                u.bases.append(g.decomp(t)[2])
            u.stale()
            u.environments()
            if tdvp:
                u.o.f["ham"] = g.F("hterm", [side], shape=(q,) * (2 * ham_sites))
            self.blocks[side] = u
        if nc is not None:
            o.f["N_centre"] = nc
        Ds = list(Dw) if Dw is not None else [D] * (N + 1)
        o.f["sanity_checks"] = False
        o.f["D"] = Lst(Ds + [D], "arr")
        self.D, self.q = Ds + [D], [q] * (N + 2)
        for k, v in fields:
            o.f[k] = v
        g.callfn(g.method(self.cls, "_init_arrays"), [], {}, o)
        if tdvp:
            o.f["ham"] = Lst([g.F("hterm", [n if ham_sites == 2 else "w"], shape=(q,) * (2 * ham_sites)) for n in range(N + 1)])
        self.fill()

    def fill(self):
        o, g = self.o, self.g
        self.bases = [None]
        for n in range(1, self.N + 1):
            t = o.f["A"].items[n]
            t.become(g.site(("A", n), (self.q[n], self.D[n - 1], self.D[n])))
            self.bases.append(g.decomp(t)[2])
        self.stale()

    def stale(self, blocks=False):
        o, g = self.o, self.g
        for nm in ("l", "r"):
            for n in range(self.N + 2):
                o.f[nm].items[n] = g.mat(("old", nm, n), (self.D[n],) * 2)
        for nm in ("K", "K_l", "_C", "_AA", "_AAA", "h_expect", "eta_sq"):
            v = o.f.get(nm)
            if isinstance(v, Lst):
                for n in range(len(v.items)):
                    x = v.items[n]
                    v.items[n] = g.F("old", [nm, n], shape=() if nm[0] in "he" else x.shape if isinstance(x, Ar) else None)
        for nm in ("dH_expect", "eta"):
            if nm in o.f:
                o.f[nm] = g.F("old", [nm], shape=())
        if blocks:
            for u in self.blocks.values():
                u.stale()

    call = Chain.call
    A = Chain.A

    def sync(self):
        """the blocks after an operation (an operation may have replaced the objects)"""
        for side, u in self.blocks.items():
            u.o = self.o.f[side]

    def tensors(self):
        self.sync()
        out = [("uni_l.A[%d]" % k, self.blocks["uni_l"].A(k), self.blocks["uni_l"].bases[k]) for k in range(self.L)]
        out += [("A[%d]" % n, self.A(n), self.bases[n]) for n in range(1, self.N + 1)]
        out += [("uni_r.A[%d]" % k, self.blocks["uni_r"].A(k), self.blocks["uni_r"].bases[k]) for k in range(self.L)]
        return out

    def change(self):
        """(problem or None) of block, window, block against the original tensors: the bonds of the window, its two
        outer bonds and all bonds of both blocks, the closing ones included"""
        g, G = self.g, self.g.G
        dec = []
        all_bases = [b for _, _, b in self.tensors()]
        for nm, t, base in self.tensors():
            f, P, b, Q = g.decomp(t)
            if b is not base:
                foreign(g, b, all_bases)
                return "%s is no longer a gauge transformation of the original tensor" % nm
            dec.append((nm, P, Q))
        L, N = self.L, self.N
        pairs = [(i, i + 1) for i in range(len(dec) - 1)] + [(L - 1, 0), (len(dec) - 1, L + N)]
        for i, j in pairs:
            x = G.norm(G.mul(dec[i][2], dec[j][1]))
            if not G.is_scalar(x) or len(x) != 1:
                return "the matrices inserted between %s and %s do not cancel (%s)" % (dec[i][0], dec[j][0], show(g, x))
        return None

    def lr(self, which, n):
        return self.o.f[which].items[n]

    def want_l(self, n):
        ul = self.blocks["uni_l"]
        if n == 0:
            return self.g.asar(ul.o.f["l"].items[self.L - 1])
        a = self.A(n) if n <= self.N else self.blocks["uni_r"].A(0)
        return self.g.env("El", self.lr("l", n - 1), a, a)

    def want_r(self, n):
        ur = self.blocks["uni_r"]
        if n == self.N:
            return self.g.asar(ur.o.f["r"].items[self.L - 1])
        if n == self.N + 1:
            return self.g.asar(ur.o.f["r"].items[0])
        return self.g.env("Er", self.lr("r", n + 1), self.A(n + 1), self.A(n + 1))
