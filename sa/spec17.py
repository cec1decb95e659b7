"""C17: every loop of a whole-state operation covers its sites, bonds and Hamiltonian terms exactly once.

The operations are interpreted on small lattices whose site tensors, Hamiltonian terms and tangent tensors are
distinct unknowns; the resulting expressions are counted: how often does which unknown take part in which entry."""
from .lab17 import Lab
from .rules17 import Ar, Bound, Lst, Undecided
from .rig17 import Chain, Block, Sand, kernels
from .spec04 import DIMS
from .spec07 import ends, install_ppinv

FEW = {2: ([1, 2, 1], [0, 2, 2]), 3: ([1, 2, 2, 1], [0, 2, 2, 2]), 4: ([1, 2, 3, 2, 1], [0, 2, 2, 2, 2]), 5: ([1, 2, 3, 3, 2, 1], [0, 2, 2, 2, 2, 2]),
       6: ([1, 2, 3, 4, 3, 2, 1], [0] + [2] * 6)}


class Counter(object):
    """how often the unknown F(name, [index]) takes part in an expression, counted with the coefficients of sums;
    scalar factors of matrix terms do not count"""
    def __init__(self, g, name):
        self.g, self.name, self.memo = g, name, {}

    def add(self, out, x, c=1):
        for k, v in x.items():
            out[k] = out.get(k, 0) + c * v
            if abs(out[k]) < 1e-9:
                del out[k]
        return out

    def value(self, v):
        out = {}
        if isinstance(v, Ar):
            if v.items is not None:
                return self.value(Lst(v.items))
            if v.lc is None:
                raise Undecided("no expression")
            return self.lc(self.g.G.norm(v.lc))
        if isinstance(v, (Lst, list, tuple)):
            for x in (v.items if isinstance(v, Lst) else v):
                self.add(out, self.value(x))
        return out

    def lc(self, lc):
        out = {}
        for (mono, w), c in lc.items():
            for s in ([f[0] for f in w] if w else [x[3] for x in mono]):
                self.add(out, self.sym(s), c.real if abs(c.imag) < 1e-12 else 1)
        return out

    def sym(self, s):
        if s.id in self.memo:
            return self.memo[s.id]
        self.memo[s.id] = {}
        d = s.data
        if s.name[0] == "site" and s.name[1] == self.name:
            out = {s.name[-1]: 1}
        elif s.name[0] == "F" and s.name[1] == self.name:
            a = d[1][0]
            out = {a[1] if a[0] == "c" else str(a): 1}
        elif s.name[0] == "F":
            out = {}
            for x in d[1]:
                self.add(out, self.data(x))
        else:
            out = self.data(d)
        self.memo[s.id] = out
        return out

    def data(self, x):
        out = {}
        if isinstance(x, dict):
            return self.lc(x)
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "m" and isinstance(x[1], tuple):
            return self.lc(dict((k, complex(*c) if isinstance(c, tuple) else c) for k, c in x[1]))
        if isinstance(x, (tuple, list)):
            for y in x:
                self.add(out, self.data(y))
        elif hasattr(x, "id") and hasattr(x, "name"):
            self.add(out, self.sym(x))
        return out


def support(g, v):
    """the unknowns (kernel names with first index, base tensors) an expression contains at all"""
    seen, out = set(), set()

    def go(x):
        if hasattr(x, "id") and hasattr(x, "name"):
            if x.id in seen:
                return
            seen.add(x.id)
            if x.name[0] == "F" and x.data[1] and x.data[1][0][0] == "c":
                out.add((x.data[0], x.data[1][0][1]))
            elif x.name[0] == "F":
                out.add((x.data[0], None))
            elif x.name[0] == "site":
                out.add(tuple(x.name) if x.name[1] != "B" or not isinstance(x.name[-1], str) else ("B", x.name[-1]))
            go(x.data)
        elif isinstance(x, dict):
            for k, y in x.items():
                go(k)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    if isinstance(v, Ar):
        if v.items is not None:
            for y in v.items:
                out |= support(g, y)
        elif v.lc is not None:
            go(g.G.norm(v.lc))
    elif isinstance(v, Lst):
        for y in v.items:
            out |= support(g, y)
    return out


def sites(s, role="A"):
    """the site numbers of the original tensors in a support"""
    out = set()
    for x in s:
        if x[0] == "site" and role in x:
            out.add(x[-1])
    return out


def raised(lab, op, label):
    def f(e, rig):
        if "IndexError" in str(e):
            lab.viol(rig, "index outside of the lattice", op, "index", "%s: raises %s" % (label, e))
            return True
        if "AssertionError" in str(e):
            lab.viol(rig, "the operation finds its own work incomplete", op, "assert", "%s: an assertion of the operation fails" % label)
            return True
        return False
    return f


def check(lab, rig, op, label, what, have, want, rule, construct):
    r = lambda d: {k: (int(round(v)) if abs(v - round(v)) < 1e-9 else v) for k, v in d.items()} if isinstance(d, dict) else d
    if r(have) == r(want):
        lab.ctx.count("coverage obligations met")
        return
    lab.viol(rig, rule, op, construct, "%s: %s contains %s instead of %s" % (label, what, fmt(r(have)), fmt(r(want))))


def fmt(d):
    if isinstance(d, dict):
        return ", ".join("%s" % k if v == 1 else "%s (%s times)" % (k, v) for k, v in sorted(d.items(), key=str)) or "none"
    if isinstance(d, (set, frozenset)):
        return ", ".join(map(str, sorted(d, key=str))) or "none"
    return str(d)


def terms(c, skip=()):
    """every stored C becomes an unknown of its own"""
    for n in range(1, c.N - c.hs + 2):
        c.o.f["C"].items[n] = None if n in skip else c.g.F("C", [n], shape=tuple(c.q[n:n + c.hs]) + (c.D[n - 1], c.D[n - 1 + c.hs]))


def is_old(g, v):
    if v is None:
        return True
    if isinstance(v, Ar) and v.items is not None:
        return False
    return isinstance(v, Ar) and v.lc is not None and any(x[0].name[:1] == ("old",) or x[0].name[:2] == ("F", "old") for (m, w) in v.lc for x in [(f[0],) for f in w] + [(y[3],) for y in m])


# ------------------------------------------------------------------ open chains
def chain_env(lab, thorough):
    for cls in ("EvoMPS_MPS_Generic",):
        for N in (2, 3, 4, 5) + ((6,) if thorough else ()):
            for w in ("l", "r"):
                first, last = (1, N) if w == "l" else (0, N - 1)
                for lo in [-1] + list(range(first, last + 1)):
                    for hi in [-1] + list(range(max(lo, first), last + 1)):
                        def one(N, w, lo, hi, first, last):
                            op = "calc_" + w
                            label = "%s.%s(n_low=%d, n_high=%d), N=%d" % (cls, op, lo, hi, N)

                            def body(c):
                                g = c.g
                                for n in range(c.N + 1):
                                    c.o.f["l"].items[n] = c.want_l(n)
                                for n in range(c.N, -1, -1):
                                    c.o.f["r"].items[n] = c.want_r(n)
                                good = [x for x in c.o.f[w].items]
                                rng = range(lo if lo >= first else first, (hi if hi >= 0 else last) + 1)
                                for n in rng:
                                    c.o.f[w].items[n] = g.mat(("old", w, n), (c.D[n],) * 2)
                                # whatever lies outside of the range is given, and stays
                                c.call(op, n_low=lo, n_high=hi)
                                for n in range(N + 1):
                                    have = g.asar(c.lr(w, n))
                                    if have is None or have.lc is None:
                                        raise Undecided("not a matrix")
                                    if g.G.eq(have.lc, g.asar(good[n]).lc):
                                        lab.ctx.count("coverage obligations met")
                                    else:
                                        lab.viol(c, "environment not covered", op, "%s[n]" % w, "%s: %s[%d] %s" % (label, w, n, "is not recomputed" if is_old(g, have) else
                                                 "is not the environment of its bond" if n in rng else "lies outside of the range and changes"))
                            lab.scen(label, lambda dec: Chain(lab.prog, cls, *FEW[N], decisions=dec), body, 4, raised(lab, op, label))
                        one(N, w, lo, hi, first, last)


def chain_canonical(lab, thorough):
    for cls in ("EvoMPS_MPS_Generic",):
        for N in (2, 3, 4, 5) + ((6,) if thorough else ()):
            for op, unit, diag in (("restore_RCF", "r", "l"), ("restore_LCF", "l", "r")):
                for uq in (True, False):
                    def one(N, op, unit, diag, uq):
                        label = "%s.%s(use_QR=%s), N=%d" % (cls, op, uq, N)

                        def body(c):
                            g = c.g
                            c.call("calc_l")
                            c.call("calc_r")
                            c.call(op, use_QR=uq)
                            for n in range(N + 1):
                                u, d = g.asar(c.lr(unit, n)), g.asar(c.lr(diag, n))
                                for x, what, wd in ((u, "the identity", unit), (d, "diagonal", diag)):
                                    if x is None or x.lc is None:
                                        lab.ctx.undec("%s %s[%d]" % (label, wd, n), "not a matrix")
                                        continue
                                    lc = g.G.norm(x.lc)
                                    if what == "the identity":
                                        ok = len(lc) == 1 and not any(wd_ for (m, wd_) in lc)
                                    else:
                                        ok = all(all(f[0].diag for f in w) for (m, w) in lc)
                                    k = kernels(g, lc) - {"fac", "old"}
                                    if ok:
                                        lab.ctx.count("coverage obligations met")
                                    elif k:
                                        lab.ctx.undec("%s %s[%d]" % (label, wd, n), "contains %s" % sorted(k))
                                    else:
                                        lab.viol(c, "bond not brought to canonical form", op, "%s[n]" % wd, "%s: %s[%d] is not %s" % (label, wd, n, what))
                        lab.scen(label, lambda dec: Chain(lab.prog, cls, *FEW[N], decisions=dec), body, 4, raised(lab, op, label))
                    one(N, op, unit, diag, uq)


def chain_blocks(lab, thorough):
    cls = "EvoMPS_TDVP_Generic"
    Ns = (2, 3, 4, 5) + ((6,) if thorough else ())
    for hs in (2, 3):
        for N in [n for n in Ns if n >= hs]:
            top = N - hs + 1
            # ---- C
            for lo in [-1] + list(range(1, top + 1)):
                for hi in [-1] + list(range(max(lo, 1), top + 1)):
                    for skip in ((), (1,), (top,)):
                        def one(hs, N, top, lo, hi, skip):
                            label = "%s.calc_C(n_low=%d, n_high=%d), %d-site terms%s, N=%d" % (cls, lo, hi, hs, ", no term at %d" % skip if skip else "", N)

                            def body(c):
                                g = c.g
                                c.call("calc_C", n_low=lo, n_high=hi)
                                rng = range(max(lo, 1), (hi if hi >= 1 else top) + 1)
                                for n in range(1, top + 1):
                                    v = c.o.f["C"].items[n]
                                    if n not in rng:
                                        check(lab, c, "calc_C", label, "C[%d]" % n, "old" if is_old(g, v) else "a new value", "old", "term outside of the requested range", "C[n]")
                                        continue
                                    if n in skip:
                                        if v is not None:
                                            check(lab, c, "calc_C", label, "C[%d]" % n, "a value", "None", "Hamiltonian terms of a block", "C[n]")
                                        continue
                                    check(lab, c, "calc_C", label, "C[%d]" % n, Counter(g, "hterm").value(v), {n: 1}, "Hamiltonian terms of a block", "C[n]")
                                    check(lab, c, "calc_C", label, "C[%d]" % n, sites(support(g, v)), set(range(n, n + hs)), "sites of a block", "C[n]")
                            lab.scen(label, lambda dec: Chain(lab.prog, cls, *FEW[N], ham_sites=hs, decisions=dec, ham_none=skip), body, 4, raised(lab, "calc_C", label))
                        one(hs, N, top, lo, hi, skip)
            # ---- K
            for left in (False, True):
                first = hs if left else 1
                for lo in [-1] + list(range(first, N + 1)):
                    for hi in [-1] + list(range(max(lo, first), N + 1)):
                        for skip in ((), (1,), (top,)) if lo == hi == -1 else ((),):
                            def one(hs, N, top, left, first, lo, hi, skip):
                                op = "calc_K_l" if left else "calc_K"
                                label = "%s.%s(n_low=%d, n_high=%d), %d-site terms%s, N=%d" % (cls, op, lo, hi, hs, ", no term at %d" % skip if skip else "", N)

                                def body(c):
                                    g = c.g
                                    install_open(g)
                                    ends(c, 0)
                                    terms(c, skip)
                                    if left:
                                        for n in range(1, N + 1):
                                            c.o.f["K"].items[n] = g.F("old", ["K", n], shape=(c.D[n],) * 2)
                                    c.call(op, n_low=lo, n_high=hi)
                                    a, b = (lo if lo >= first else first), (hi if hi >= 1 else N)
                                    K, cnt = c.o.f["K"].items, Counter(g, "C")
                                    for n in range(1, N + 1):
                                        if a <= n <= b:
                                            # the terms met between the end of the range and here
                                            want = range(max(a - hs + 1, 1), n - hs + 2) if left else range(n, min(b, top) + 1)
                                            check(lab, c, op, label, "K[%d]" % n, cnt.value(K[n]), {m: 1 for m in want if m not in skip}, "Hamiltonian terms of a block", "K[n]")
                                        elif left and n < hs:
                                            # no term ends here
                                            if lo == -1:
                                                check(lab, c, op, label, "K[%d]" % n, "old" if is_old(g, K[n]) else "", "", "block not initialised", "K[n]")
                                        else:
                                            check(lab, c, op, label, "K[%d]" % n, "old" if is_old(g, K[n]) else "a new value", "old", "block outside of the requested range", "K[n]")
                                    h = c.o.f["h_expect"].items
                                    for m in range(1, top + 1):
                                        at = m + hs - 1 if left else m
                                        if a <= at <= b and m not in skip:
                                            check(lab, c, op, label, "h_expect[%d]" % m, cnt.value(g.asar(h[m])), {m: 1}, "energy of a term", "h_expect[n]")
                                        elif a <= at <= b:
                                            check(lab, c, op, label, "h_expect[%d]" % m, cnt.value(g.asar(h[m])), {}, "energy of a term", "h_expect[n]")
                                    if lo == hi == -1:
                                        check(lab, c, op, label, "H_expect", cnt.value(g.asar(c.o.f["H_expect"])), {m: 1 for m in range(1, top + 1) if m not in skip},
                                              "total energy", "H_expect")
                                lab.scen(label, lambda dec: Chain(lab.prog, cls, *FEW[N], ham_sites=hs, decisions=dec), body, 4, raised(lab, op, label))
                            one(hs, N, top, left, first, lo, hi, skip)


def install_open(g):
    """the kernels that add one term to a block are looked into"""
    def op(gi, f, args, kw):
        if isinstance(f, Bound):
            return Undecided
        return gi.callfn(f, args, kw)
    for nm in ("calc_K", "calc_K_tp", "calc_K_l", "calc_K_l_tp", "calc_K_3s", "calc_K_3s_l"):
        old = g.intercept.get(nm)

        def both(gi, f, args, kw, old=old):
            if isinstance(f, Bound):
                return old(gi, f, args, kw) if old is not None else Undecided
            return op(gi, f, args, kw)
        g.intercept[nm] = both


def chain_steps(lab, thorough):
    cls = "EvoMPS_TDVP_Generic"
    Ns = (2, 3, 4, 5) + ((6,) if thorough else ())
    for hs in (2, 3):
        for N in [n for n in Ns if n >= hs]:
            for gf in ("right", "left"):
                for st, kw in (("take_step", {}), ("take_step", dict(save_memory=True)), ("take_step", dict(B=True)), ("take_step_RK4", {}), ("take_step_RK4", dict(B_i=True))):
                    def one(hs, N, gf, st, kw):
                        label = "%s.%s(%s), %s gauge, %d-site terms, N=%d" % (cls, st, ", ".join("%s=%s" % x for x in kw.items()), gf, hs, N)

                        def body(c):
                            g = c.g
                            stage = {n: 0 for n in range(1, N + 1)}
                            late = set()

                            def bn(gi, f, a, k):
                                n = a[0] if a else k["n"]
                                stage[n] = stage.get(n, 0) + 1
                                if "RK4" in st:
                                    # the state of this stage: every site moved along its tangent tensor of the previous one
                                    for m in range(1, N + 1):
                                        s = set(x for x in support(gi, c.A(m)) if x[0] == "B" and x[1] is not None)
                                        j = stage[n] - 1 + (1 if "B_i" in kw else 0)
                                        want = set() if j == 0 else set([("B", "%d.%d" % (m, j))])
                                        check(lab, c, st, label, "site %d at stage %d, when the tangent tensor of site %d is computed," % (m, j + 1, n), s, want,
                                              "stage of the step", "A[n]")
                                j = stage[n] + (1 if "B_i" in kw else 0)
                                o = gi.site(("B", "%d.%d" % (n, j)), (c.q[n], c.D[n - 1], c.D[n]))
                                if k.get("set_eta", True):
                                    c.o.f["eta_sq"].items[n] = gi.F("eta", [n], shape=())
                                    late.update([n] if j > 1 else [])
                                return o
                            g.intercept["calc_B_n"] = bn
                            k2 = dict(kw)
                            if k2.get("B") or k2.get("B_i"):
                                k2[list(k2)[0]] = Lst([None] + [g.site(("B", "%d.1" % n), (c.q[n], c.D[n - 1], c.D[n])) for n in range(1, N + 1)])
                            g.intercept["update"] = lambda gi, f, a, k: None
                            c.call(st, g.F("dtau", [0], shape=()), **k2)
                            cnt = Counter(g, "B")
                            for n in range(1, N + 1):
                                t = c.A(n)
                                if t.items is None:
                                    raise Undecided("site tensor has no slices")
                                w = {"%d.1" % n: -1.0} if "RK4" not in st else {"%d.%d" % (n, j): -x for j, x in ((1, 1 / 6.), (2, 1 / 3.), (3, 1 / 3.), (4, 1 / 6.))}
                                for i in t.items[:1]:
                                    have = cnt.value(i)
                                    check(lab, c, st, label, "site %d" % n, set(have), set(w), "tangent tensor of a site", "A[n]")
                                check(lab, c, st, label, "site %d" % n, sites(support(g, t)), set([n]), "state of a site", "A[n]")
                            check(lab, c, st, label, "the reported size of the tangent vector, recomputed at a later stage for the sites", late, set(), "eta", "eta_sq")
                            if "B" not in kw and "B_i" not in kw:
                                e = c.o.f["eta"]
                                if isinstance(e, Ar):
                                    check(lab, c, st, label, "eta", Counter(g, "eta").value(e), {n: 1 for n in range(1, N + 1)}, "sum over sites", "eta")
                        lab.scen(label, lambda dec: Chain(lab.prog, cls, *FEW[N], ham_sites=hs, decisions=dec, fields=[("gauge_fixing", gf)]), body, 4, raised(lab, st, label))
                    one(hs, N, gf, st, kw)

                def mem(hs, N, gf):
                    label = "%s.take_step(save_memory=True), %s gauge, %d-site terms, N=%d" % (cls, gf, hs, N)

                    def body(c):
                        g = c.g
                        ends(c, 0)
                        c.call("calc_C")
                        c.call("calc_K" if gf == "right" else "calc_K_l")
                        keep = [None] + [c.A(n).copy() for n in range(1, N + 1)]
                        out = []
                        for sm in (False, True):
                            for n in range(1, N + 1):
                                c.o.f["A"].items[n] = keep[n].copy()
                            c.call("take_step", g.F("dtau", [0], shape=()), save_memory=sm)
                            out.append([g.skey(g.nsnap(g.snap(c.A(n)))) for n in range(1, N + 1)])
                        for n, (x, y) in enumerate(zip(*out)):
                            if x == y:
                                lab.ctx.count("coverage obligations met")
                            else:
                                lab.viol(c, "order of the sweep", "take_step", "save_memory", "%s: the new tensor of site %d is not the one of the step that keeps all tangent tensors: "
                                         "it was computed after a site it depends on had been changed" % (label, n + 1))
                    lab.scen(label, lambda dec: Chain(lab.prog, cls, *DIMS[N] if N in DIMS else FEW[N], ham_sites=hs, decisions=dec, fields=[("gauge_fixing", gf)]), body, 4, raised(lab, "take_step", label))
                mem(hs, N, gf)


def chain_states(lab, thorough):
    cls = "EvoMPS_MPS_Generic"
    for N in (2, 3, 4, 5) + ((6,) if thorough else ()):
        ops = [("set_state_product", None), ("set_state_from_tensors", None), ("randomize", None), ("add_noise", None)] + [("apply_op_1s", n) for n in range(1, N + 1)] + \
              [("apply_op_MPO", (a, b)) for a in range(1, N + 1) for b in range(a, N + 1)]
        for op, x in ops:
            def one(N, op, x):
                label = "%s.%s%s, N=%d" % (cls, op, "" if x is None else " at %s" % (x,), N)

                def body(c):
                    g = c.g
                    old = [None] + [g.skey(g.nsnap(g.snap(c.A(n)))) for n in range(1, N + 1)]
                    a = []
                    if op == "set_state_product":
                        a = [Lst([g.F("psi", [n + 1], shape=(c.q[n + 1],)) for n in range(N)])]
                    elif op == "set_state_from_tensors":
                        a = [Lst([None] + [g.site(("B", n), (c.q[n], c.D[n - 1], c.D[n])) for n in range(1, N + 1)])]
                    elif op == "apply_op_1s":
                        a = [g.F("op", [0], shape=(2, 2)), x]
                    elif op == "apply_op_MPO":
                        lo, hi = x
                        a = [Lst([g.F("mpo", [n], shape=(1 if n == lo else 2, 1 if n == hi else 2, 2, 2)) for n in range(lo, hi + 1)]), lo]
                    c.call(op, *a, do_update=False)
                    for n in range(1, N + 1):
                        t = c.A(n)
                        s = support(g, t)
                        same = g.skey(g.nsnap(g.snap(t))) == old[n]
                        if op == "set_state_product":
                            check(lab, c, op, label, "site %d" % n, set(y for y in s if y[0] == "psi"), set([("psi", n)]), "site not covered", "A[n]")
                        elif op == "set_state_from_tensors":
                            check(lab, c, op, label, "site %d" % n, sites(s, "B"), set([n]), "site not covered", "A[n]")
                            check(lab, c, op, label, "site %d" % n, sites(s, "A"), set(), "site not covered", "A[n]")
                        elif op == "randomize":
                            check(lab, c, op, label, "site %d" % n, "its old tensor" if same else "a new tensor", "a new tensor", "site not covered", "A[n]")
                        elif op == "add_noise":
                            check(lab, c, op, label, "site %d" % n, "its old tensor" if same else "a new tensor", "a new tensor", "site not covered", "A[n]")
                            check(lab, c, op, label, "site %d" % n, sites(s), set([n]), "site not covered", "A[n]")
                        elif op == "apply_op_1s":
                            check(lab, c, op, label, "site %d" % n, same, n != x, "operator on another site", "A[n]")
                        else:
                            lo, hi = x
                            check(lab, c, op, label, "site %d" % n, set(y for y in s if y[0] == "mpo"), set([("mpo", n)]) if lo <= n <= hi else set(), "operator on another site", "A[n]")
                            check(lab, c, op, label, "site %d" % n, sites(s), set([n]), "site not covered", "A[n]")
                lab.scen(label, lambda dec: Chain(lab.prog, cls, *FEW[N], decisions=dec), body, 4, raised(lab, op, label))
            one(N, op, x)


# ------------------------------------------------------------------ uniform blocks
def block_terms(b):
    for k in range(b.L):
        b.o.f["C"].items[k] = b.g.F("C", [k], shape=(b.q,) * b.hs + (b.D, b.D))


def blocks(lab, thorough):
    cls = "EvoMPS_TDVP_Uniform"
    Ls = (1, 2, 3, 4) + ((5, 6) if thorough else ())
    for hs, tp in ((2, False), (2, True), (3, False)):
        for L in Ls:
            def c_(hs, tp, L):
                label = "%s.calc_C, %d-site terms%s, L=%d" % (cls, hs, " (product form)" if tp else "", L)

                def body(b):
                    b.call("calc_AA")
                    b.call("calc_C")
                    for k in range(L):
                        v = b.o.f["C"].items[k]
                        n = Counter(b.g, "hterm").value(v)
                        check(lab, b, "calc_C", label, "C[%d]" % k, set(n), set([0]), "Hamiltonian terms of a block", "C[k]")
                        check(lab, b, "calc_C", label, "C[%d]" % k, set(x for x in sites(support(b.g, v))), set((k + i) % L for i in range(hs)), "sites of a block", "C[k]")
                lab.scen(label, lambda dec: Block(lab.prog, cls, 2, 2, L, ham_sites=hs, decisions=dec, tp=tp), body, 4, raised(lab, "calc_C", label))
            c_(hs, tp, L)

            for left in (False, True):
                def k_(hs, tp, L, left):
                    op = "calc_K_l" if left else "calc_K"
                    label = "%s.%s, %d-site terms%s, L=%d" % (cls, op, hs, " (product form)" if tp else "", L)

                    def body(b):
                        g = b.g
                        install_ppinv(b)
                        install_open(g)
                        block_terms(b)
                        b.o.f["K0_init"] = None
                        out = b.call(op)
                        cnt = Counter(g, "C")
                        K = b.o.f["K_left" if left else "K"].items
                        for k in range(L):
                            want = {j: 1 for j in range(L)}
                            steps = [(i - hs + 1) % L for i in range(k + 1)] if left and k < L - 1 else [] if left else [j for j in range(k, L)] if k else []
                            for j in steps:
                                want[j] += 1
                            check(lab, b, op, label, "%s[%d]" % ("K_left" if left else "K", k), cnt.value(K[k]), want, "Hamiltonian terms of a block", "K[k]")
                        h = out[1] if left else b.o.f["h_expect"]
                        check(lab, b, op, label, "h_expect * L", {k: v * L for k, v in cnt.value(g.asar(h)).items()}, {j: 1 for j in range(L)}, "energy of the block", "h_expect")
                    lab.scen(label, lambda dec: Block(lab.prog, cls, 2, 2, L, ham_sites=hs, decisions=dec, tp=tp), body, 4, raised(lab, op, label))
                k_(hs, tp, L, left)
    for L in Ls:
        for hs in (2, 3):
            for st, kw in (("take_step", {}), ("take_step", dict(B=True)), ("take_step_RK4", {}), ("take_step_RK4", dict(B_i=True))):
                def s_(L, hs, st, kw):
                    label = "%s.%s(%s), %d-site terms, L=%d" % (cls, st, ", ".join("%s=%s" % x for x in kw.items()), hs, L)

                    def body(b):
                        g = b.g
                        stage = [0]

                        def tang(gi, f, a, k):
                            stage[0] += 1
                            j = stage[0] + (1 if "B_i" in kw else 0)
                            if "RK4" in st:
                                for m in range(L):
                                    s = set(x for x in support(gi, b.A(m)) if x[0] == "B")
                                    check(lab, b, st, label, "site %d at stage %d" % (m, j), s, set() if j == 1 else set([("B", "%d.%d" % (m, j - 1))]), "stage of the step", "A[k]")
                            return Lst([gi.site(("B", "%d.%d" % (m, j)), (2, 2, 2)) for m in range(L)])
                        g.intercept["calc_B"] = tang
                        for nm in ("update", "calc_lr", "calc_C", "calc_K", "calc_AA", "restore_CF"):
                            g.intercept[nm] = lambda gi, f, a, k: None
                        k2 = dict(kw)
                        if k2:
                            k2[list(k2)[0]] = Lst([g.site(("B", "%d.1" % m), (2, 2, 2)) for m in range(L)])
                        b.call(st, g.F("dtau", [0], shape=()), **k2)
                        for m in range(L):
                            t = b.A(m)
                            s = support(g, t)
                            check(lab, b, st, label, "site %d" % m, set(x[1] for x in s if x[0] == "B"), set("%d.%d" % (m, j) for j in ((1, 2, 3, 4) if "RK4" in st else (1,))),
                                  "tangent tensor of a site", "A[k]")
                            check(lab, b, st, label, "site %d" % m, sites(s), set([m]), "state of a site", "A[k]")
                    lab.scen(label, lambda dec: Block(lab.prog, cls, 2, 2, L, ham_sites=hs, decisions=dec), body, 4, raised(lab, st, label))
                s_(L, hs, st, kw)
        for op, a in [("randomize", ()), ("add_noise", ()), ("expand_D", (4,)), ("set_q", (3,)), ("convert_to_TI_blocked", ())] + [("apply_op_1s", (k,)) for k in range(L)]:
            def o_(L, op, a):
                label = "EvoMPS_MPS_Uniform.%s%s, L=%d" % (op, a or "", L)

                def body(b):
                    g = b.g
                    old = [g.skey(g.nsnap(g.snap(b.A(k)))) for k in range(L)]
                    args = list(a) if op != "apply_op_1s" else [g.F("op", [0], shape=(2, 2))] + list(a)
                    b.call(op, *args, **({} if op in ("expand_D", "set_q") else dict(do_update=False)))
                    if op == "convert_to_TI_blocked":
                        t = g.asar(b.o.f["A"].items[0])
                        if t is None:
                            raise Undecided("no tensor")
                        check(lab, b, op, label, "the blocked tensor", sites(support(g, t)), set(range(L)), "site not covered", "A[0]")
                        if t.items is not None:
                            for x in t.items:
                                for (m, w), c in g.G.norm(x.lc).items():
                                    idx = [f[0] for f in w]
                                    names = [y.name for y in idx]
                                    if all(z[0] == "slice" for z in names):
                                        by = {bb.id: i for i, bb in enumerate(b.bases)}
                                        check(lab, b, op, label, "each product", str([by.get(z[1]) for z in names]), str(list(range(L))), "order of the sites", "A[0]")
                        return
                    for k in range(L):
                        t = b.A(k)
                        s = support(g, t)
                        same = g.skey(g.nsnap(g.snap(t))) == old[k]
                        if op == "apply_op_1s":
                            check(lab, b, op, label, "site %d" % k, same, k != a[0], "operator on another site", "A[k]")
                        else:
                            check(lab, b, op, label, "site %d" % k, "its old tensor" if same else "a new tensor", "a new tensor", "site not covered", "A[k]")
                            if op != "randomize":
                                check(lab, b, op, label, "site %d" % k, sites(s), set([k]), "site not covered", "A[k]")
                lab.scen(label, lambda dec: Block(lab.prog, "EvoMPS_MPS_Uniform", 2, 2, L, decisions=dec), body, 4, raised(lab, op, label))
            o_(L, op, a)


# ------------------------------------------------------------------ windows
def windows(lab, thorough):
    cls = "EvoMPS_TDVP_Sandwich"
    for hs in (2, 3):
        for L in (1, 2, 3):
            for N in (3, 4, 5) + ((6,) if thorough else ()):
                for nc in [None] + ([x for x in range(1, N + 1) if x >= hs - 1 and x != N // 2] if thorough or L == 1 else []):
                    def k_(hs, L, N, nc):
                        label = "%s.calc_K, %d-site terms, N=%d, N_centre=%s, L=%d" % (cls, hs, N, nc if nc is not None else "default", L)

                        def body(c):
                            g = c.g
                            centre = c.o.f["N_centre"]
                            ends(c, 1)
                            install_open(g)
                            gr = g.intercept.get("calc_K_l")
                            for n in range(2 - hs, N + 1):
                                c.o.f["_C"].items[n + 1] = g.F("C", [n], shape=(2,) * hs + (2, 2))

                            def uk(gi, f, a, k, left=False):
                                o = f.self_ if isinstance(f, Bound) else None
                                if o is None or o.cls is c.cls or o is c.o:
                                    return gr(gi, f, a, k) if left else g.plainK(gi, f, a, k)
                                K = Lst([gi.F("Kuni" + ("_l" if left else ""), [o.role, j], shape=(2, 2)) for j in range(L)])
                                h = gi.F("huni", [o.role, left], shape=())
                                if left:
                                    return (K, h)
                                o.f["K"] = K
                                o.f["h_expect"] = h
                            g.plainK = g.intercept["calc_K"]
                            g.intercept["calc_K"] = uk
                            g.intercept["calc_K_l"] = lambda gi, f, a, k: uk(gi, f, a, k, True)
                            c.call("calc_K")
                            cnt = Counter(g, "C")
                            K, Kl = c.o.f["K"].items, c.o.f["K_l"].items
                            lo = 2 - hs
                            for n in range(centre - hs + 2, N + 1):
                                check(lab, c, "calc_K", label, "K[%d]" % n, cnt.value(K[n]), {m: 1 for m in range(n, N + 1)}, "Hamiltonian terms of a block", "K[n]")
                            for n in range(1, centre + 1):
                                check(lab, c, "calc_K", label, "K_l[%d]" % n, cnt.value(Kl[n]), {m: 1 for m in range(lo, n - hs + 2)}, "Hamiltonian terms of a block", "K_l[n]")
                            for n, (x, side) in (("%d" % (N + 1), (K[N + 1], "uni_r")), ("0", (Kl[0], "uni_l"))):
                                s = set(y for y in support(g, g.asar(x)) if y[0].startswith("Kuni"))
                                check(lab, c, "calc_K", label, "outermost block %s" % n, s, set([("Kuni" + ("_l" if side == "uni_l" else ""), side)]) if s else s, "bulk block", "K[%s]" % ("N+1" if side == "uni_r" else "0"))
                            h = c.o.f["h_expect"].items
                            tot = {}
                            for i, x in enumerate(h):
                                v = cnt.value(g.asar(x)) if x is not None else {}
                                m = i if i <= N else i - len(h)
                                if m >= lo:
                                    check(lab, c, "calc_K", label, "h_expect[%d]" % m, v, {m: 1}, "energy of a term", "h_expect[n]")
                                cnt.add(tot, v)
                            check(lab, c, "calc_K", label, "h_expect", tot, {m: 1 for m in range(lo, N + 1)}, "energy of the terms", "h_expect")
                            d = g.asar(c.o.f["dH_expect"])
                            check(lab, c, "calc_K", label, "dH_expect", {k: v for k, v in cnt.value(d).items()}, {m: 1 for m in range(lo, N + 1)}, "total energy", "dH_expect")
                            sub = 0
                            for (mono, w), co in g.G.norm(d.lc).items():
                                if any(y[3].name[:2] == ("F", "huni") for y in mono):
                                    sub += co.real
                            check(lab, c, "calc_K", label, "dH_expect: the number of bulk energies taken off", -sub, N + hs - 1, "total energy", "bulk energy")
                        lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, ham_sites=hs, decisions=dec, fields=[("N_centre", nc)] if nc is not None else ()), body, 4, raised(lab, "calc_K", label))
                    k_(hs, L, N, nc)

                def c_(hs, L, N):
                    label = "%s.calc_C, %d-site terms, N=%d, L=%d" % (cls, hs, N, L)

                    def body(c):
                        g = c.g
                        for n in range(len(c.o.f["ham"].items)):
                            c.o.f["ham"].items[n] = g.F("hterm", [n], shape=(2,) * (2 * hs))
                        c.call("calc_C")
                        for n in range(2 - hs, N + 1):
                            v = c.o.f["_C"].items[n + 1]
                            check(lab, c, "calc_C", label, "the term at %d" % n, Counter(g, "hterm").value(v), {n if n >= 0 else "uni_l": 1}, "Hamiltonian terms of a block", "_C")
                            want = set()
                            for m in range(n, n + hs):
                                want.add(("site", "A", m) if 1 <= m <= N else ("site", "uni_l", "A", (m - 1) % L) if m < 1 else ("site", "uni_r", "A", (m - N - 1) % L))
                            check(lab, c, "calc_C", label, "the term at %d" % n, set(x for x in support(g, v) if x[0] == "site"), want, "sites of a block", "_C")
                    lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, ham_sites=hs, decisions=dec), body, 4, raised(lab, "calc_C", label))
                c_(hs, L, N)
                for st, kw in (("take_step", {}), ("take_step", dict(B=True)), ("take_step_RK4", {}), ("take_step_RK4", dict(B_i=True))):
                    def s_(hs, L, N, st, kw):
                        label = "%s.%s(%s), %d-site terms, N=%d, L=%d" % (cls, st, ", ".join("%s=%s" % x for x in kw.items()), hs, N, L)

                        def body(c):
                            g = c.g
                            stage = {}

                            def bn(gi, f, a, k):
                                n = (a[0] if a else k["n"]) if f.fn.name != "calc_B_centre" else c.o.f["N_centre"]
                                stage[n] = stage.get(n, 0) + 1
                                j = stage[n] + (1 if "B_i" in kw else 0)
                                if "RK4" in st:
                                    for m in range(1, N + 1):
                                        s = set(x for x in support(gi, c.A(m)) if x[0] == "B")
                                        check(lab, c, st, label, "site %d at stage %d, when the tangent tensor of site %d is computed," % (m, j, n), s,
                                              set() if j == 1 else set([("B", "%d.%d" % (m, j - 1))]), "stage of the step", "A[n]")
                                return gi.site(("B", "%d.%d" % (n, j)), (2, 2, 2))
                            g.intercept["calc_B_n"] = bn
                            g.intercept["calc_B_centre"] = bn
                            for nm in ("update", "calc_lr", "calc_C", "calc_K", "calc_l", "calc_r"):
                                g.intercept[nm] = lambda gi, f, a, k: None
                            k2 = dict(kw)
                            if k2:
                                k2[list(k2)[0]] = Lst([None] + [g.site(("B", "%d.1" % n), (2, 2, 2)) for n in range(1, N + 1)])
                            c.call(st, g.F("dtau", [0], shape=()), **k2)
                            for n in range(1, N + 1):
                                s = support(g, c.A(n))
                                check(lab, c, st, label, "site %d" % n, set(x[1] for x in s if x[0] == "B"), set("%d.%d" % (n, j) for j in ((1, 2, 3, 4) if "RK4" in st else (1,))),
                                      "tangent tensor of a site", "A[n]")
                                check(lab, c, st, label, "site %d" % n, sites(s), set([n]), "state of a site", "A[n]")
                        lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, ham_sites=hs, decisions=dec), body, 4, raised(lab, st, label))
                    s_(hs, L, N, st, kw)
                for op, m in (("grow_left", 1), ("grow_left", 2), ("grow_right", 1), ("grow_right", 2)):
                    def g_(hs, L, N, op, m):
                        label = "%s.%s(%d), %d-site terms, N=%d, L=%d" % (cls, op, m, hs, N, L)

                        def body(c):
                            g, o = c.g, c.o
                            for n in range(N + 1):
                                o.f["ham"].items[n] = g.F("hterm", [n], shape=(2,) * (2 * hs))
                            ul, ur = ([x.copy() for x in o.f[u].f["A"].items] for u in ("uni_l", "uni_r"))
                            was = [None] + [c.A(n) for n in range(1, N + 1)]
                            c.call(op, m)
                            M = m * L
                            check(lab, c, op, label, "N", o.f["N"], N + M, "size of the window", "N")
                            A = o.f["A"].items
                            for n in range(1, N + M + 1):
                                if op == "grow_left":
                                    w = ("uni_l", (n - 1) % L) if n <= M else ("", n - M)
                                else:
                                    w = ("", n) if n <= N else ("uni_r", (n - N - 1) % L)
                                base = c.bases[w[1]] if w[0] == "" else c.blocks[w[0]].bases[w[1]]
                                have = support(g, A[n])
                                check(lab, c, op, label, "site %d" % n, set(x for x in have if x[0] == "site"), set([tuple(base.name)]), "site of the grown window", "A[n]")
                            for f, ln in (("D", N + M + 2), ("q", N + M + 2)):
                                check(lab, c, op, label, "len(%s)" % f, len(list(g.iter(o.f[f]))), ln, "records of the grown window", f)
                            H = list(g.iter(o.f["ham"]))
                            for n in range(N + M + 1):
                                if n >= len(H):
                                    check(lab, c, op, label, "the number of terms", len(H), N + M + 1, "Hamiltonian of the grown window", "ham")
                                    break
                                w = (("uni_l" if n < M else n - M) if op == "grow_left" else (n if n <= N else "uni_r"))
                                check(lab, c, op, label, "ham[%d]" % n, Counter(g, "hterm").value(H[n]), {w: 1}, "Hamiltonian of the grown window", "ham")
                        lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, ham_sites=hs, decisions=dec), body, 4, raised(lab, op, label))
                    g_(hs, L, N, op, m)


def run(prog, ctx):
    lab = Lab(prog, ctx, "operations interpreted")
    thorough = ctx.tier == "thorough"
    lab.later()
    chain_env(lab, thorough)
    chain_canonical(lab, thorough)
    chain_blocks(lab, thorough)
    chain_steps(lab, thorough)
    chain_states(lab, thorough)
    blocks(lab, thorough)
    windows(lab, thorough)
    lab.go()
