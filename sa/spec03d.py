"""C03 on the open chain: the generator a dissipative step hands to the tangent-vector machinery.

The step is evaluated on unknown Hamiltonian terms and Lindblad operators; the terms in force when the tangent vectors are computed must be, on every
site, -i h + sum over the operators L of that site of (-L^+ L / 2 + (conj<L> + W/dt) L), each operator with its own complex Wiener increment of variance dt."""
import ast
from .lab17 import Lab
from .rig17 import Chain
from .rules17 import Ar, Lst, Undecided
from .rig17 import show

CLS = "EvoMPS_TDVP_Generic_Dissipative"
CASES = [(2, 3, [1, 2]), (2, 3, [1, 1]), (2, 4, [3, 1, 2, 1]), (3, 4, [1, 2]), (3, 4, [2, 2, 1])]


def pick(args, kw, names, defaults):
    out = dict(zip(names, defaults))
    for k, v in zip(names, args):
        out[k] = v
    for k, v in kw.items():
        if k not in out:
            raise Undecided("argument of a random draw")
        out[k] = v
    return [out[k] for k in names]


def draws(g, size, make):
    """a scalar for no size, a list for one dimension"""
    if size is None:
        return make()
    if isinstance(size, (Lst, tuple, list)):
        ds = list(g.iter(size))
    else:
        ds = [size]
    if len(ds) != 1 or not isinstance(ds[0], int):
        raise Undecided("size of a random draw")
    return Lst([make() for _ in range(ds[0])], "arr")


def one(lab, hs, N, sites, gf, absent, dims):
    label = "%d-site terms, N=%d, Lindblad operators at %s%s, %s gauge" % (hs, N, sites, ", Hamiltonian term %d absent" % absent if absent else "", gf)
    q = list(dims[1])

    def dim(p):
        r = 1
        for i in range(hs):
            r *= q[p + i]
        return r

    def body(c):
        g, o = c.g, c.o
        mul = lambda a, b: g.bin(ast.Mult(), a, b)
        add = lambda a, b: g.bin(ast.Add(), a, b)
        div = lambda a, b: g.bin(ast.Div(), a, b)
        dt = g.F("dt", [0], shape=())
        Ls = [g.F("L", [j], shape=(dim(s), dim(s))) for j, s in enumerate(sites)]
        o.f["linds"] = Lst([(s, L) for s, L in zip(sites, Ls)])
        ham = [None if p == absent else g.F("hterm", [p], shape=(dim(p), dim(p))) for p in range(1, N - hs + 2)]
        items = o.f["ham"].items
        for p in range(len(items)):
            items[p] = ham[p - 1] if 1 <= p <= len(ham) else None
        nz = [0]

        def unit():
            nz[0] += 1
            return g.F("gauss", [nz[0]], shape=())

        def normal(gi, f, a, k):
            loc, scale, size = pick(a, k, ("loc", "scale", "size"), (0.0, 1.0, None))
            return draws(gi, size, lambda: add(loc, mul(scale, unit())) if not (isinstance(loc, (int, float)) and loc == 0) else mul(scale, unit()))

        def std(gi, f, a, k):
            size, = pick(a, k, ("size",), (None,))
            return draws(gi, size, unit)

        def mean(gi, f, a, k):
            op, n = pick(a, k, ("op", "n", "AA" if hs == 2 else "AAA"), (None, None, None))[:2]
            return gi.F("mean", [op, n], shape=())
        log, seen = [], []

        def blocks(nm):
            def f(gi, f_, a, k):
                log.append((nm, [None if x is None else gi.asar(x).copy() for x in o.f["ham"].items]))
                return None
            return f

        def step(gi, f, a, k):
            names = [x.arg for x in f.fn.args.args][1:]
            t = dict(zip(names, a))
            t.update(k)
            seen.append((t.get("dtau"), [None if x is None else gi.asar(x).copy() for x in o.f["ham"].items], list(log)))
            return None
        I = g.intercept
        I["normal"], I["randn"], I["standard_normal"] = normal, std, std
        I["expect_2s"] = I["expect_3s"] = mean
        I["reshape"] = lambda gi, f, a, k: a[0]
        for nm in ("calc_C", "calc_K", "calc_K_l"):
            I[nm] = blocks(nm)
        I["take_step"] = step
        c.call("take_step_dissipative", dt)
        if len(seen) != 1:
            lab.ctx.undec("take_step_dissipative", "%s: the step is not taken by one call of take_step" % label)
            return
        tau, H, before = seen[0]
        G = g.G

        def same(a, b):
            a, b = g.asar(a), g.asar(b)
            if a is None or b is None or a.items is not None or b.items is not None:
                return None
            return not G.norm(G.add(G.norm(a.lc), G.norm(b.lc), -1))

        def opaque(v):
            v = g.asar(v)
            return v is None or v.items is not None or any(x.name and x.name[0] == "F" and str(x.name[1]).startswith("op ") for m, w in v.lc for x in [y[3] for y in m] + [z[0] for z in w])
        s = same(tau, mul(-1, dt))
        if s is None:
            lab.ctx.undec("take_step_dissipative", "%s: step size not determined" % label)
        elif not s:
            lab.viol(c, "dissipative-generator", "take_step_dissipative", "step size", "%s: the drift and diffusion terms are integrated over %s, expected -dt" % (label, show(g, g.asar(tau).lc)))
        root = g.bin(ast.Pow(), dt, 0.5)
        step_ = G.norm(div(root, dt).lc)
        (rate, _), = step_          # the scalar dt^(-1/2)
        used, bad = {}, False
        for p in range(1, len(ham) + 1):
            mine = [j for j, s_ in enumerate(sites) if s_ == p]
            if not mine and ham[p - 1] is None and H[p] is None:
                continue
            if H[p] is None:
                lab.viol(c, "dissipative-generator", "take_step_dissipative", "effective Hamiltonian", "%s: no term of site %d is in force during the step" % (label, p))
                bad = True
                continue
            have = g.asar(H[p])
            if have is None or have.items is not None:
                lab.ctx.undec("take_step_dissipative", "%s: effective Hamiltonian not determined" % label)
                return
            noise, rest = {}, {}
            for (m, w), co in G.norm(have.lc).items():
                gs = [x for x in m if tuple(x[3].name[:2]) == ("F", "gauss")]
                if gs:
                    noise.setdefault(w, []).append((gs, tuple(x for x in m if x not in gs), co))
                else:
                    rest[(m, w)] = co
            e = None if ham[p - 1] is None else mul(-1j, ham[p - 1])
            for j in mine:
                L = Ls[j]
                m = g.mapped(g.F("mean", [L, p], shape=()), True, False)
                x = add(mul(-0.5, g.dot(g.mapped(L, True, True), L)), mul(m, L))
                e = x if e is None else add(e, x)
            d = G.norm(G.add(rest, G.norm(e.lc) if e is not None else {}, -1))
            d = {k: v for k, v in d.items() if abs(v) > 1e-12}
            if d:
                if opaque(have):
                    lab.ctx.undec("take_step_dissipative", "%s: effective Hamiltonian not determined" % label)
                    return
                bad = True
                lab.viol(c, "dissipative-generator", "take_step_dissipative", "effective Hamiltonian", "%s: the term of site %d in force during the step is, apart from noise, %s, expected %s"
                         % (label, p, show(g, rest), show(g, e.lc) if e is not None else "0"))
                continue
            ws = {}
            for j in mine:
                (mw, co), = G.norm(Ls[j].lc).items()
                ws[mw[1]] = j
            why = None
            if set(noise) != set(ws):
                why = "noise terms multiply %d operators, expected one for each of %d" % (len(noise), len(ws))
            else:
                for w, xs in noise.items():
                    if len(xs) != 2 or any(len(gs) != 1 or gs[0][1] not in (0, 1) or gs[0][2] != 1 or m != rate for gs, m, co in xs):
                        why = "the noise of an operator is not dt**(-1/2) times one complex increment"
                        break
                    (a, _, ca), (b, _, cb) = xs
                    if a[0][3] is b[0][3] or abs(abs(ca) ** 2 - 0.5) > 1e-9 or abs(abs(cb) ** 2 - 0.5) > 1e-9 or abs((ca * cb.conjugate()).real) > 1e-9:
                        why = "the increment is not a complex Wiener increment of variance dt"
                        break
                    for y in (a[0][3], b[0][3]):
                        if y in used:
                            why = "two operators share a random increment"
                        used[y] = w
            if why:
                bad = True
                lab.viol(c, "dissipative-generator", "take_step_dissipative", "noise", "%s: site %d: %s" % (label, p, why))
        if not bad:
            lab.ctx.count("dissipative generators equal to their definition")
        # the blocks the tangent vectors are computed from belong to this generator
        K = "calc_K" if gf == "right" else "calc_K_l"
        for nm in ("calc_C", K):
            at = [h for n_, h in before if n_ == nm]
            if not at or any((x is None) != (y is None) or x is not None and not same(x, y) for x, y in zip(at[-1], H)):
                lab.viol(c, "dissipative-generator", "take_step_dissipative", nm, "%s: the step is taken without %s() for the effective Hamiltonian" % (label, nm))
        order_ = [n_ for n_, h in before if n_ in ("calc_C", K)]
        if "calc_C" in order_ and K in order_ and len(order_) - 1 - order_[::-1].index("calc_C") > len(order_) - 1 - order_[::-1].index(K):
            lab.viol(c, "dissipative-generator", "take_step_dissipative", K, "%s: %s() runs before calc_C()" % (label, K))
        lab.note_calls(c)
    lab.scen(label, lambda dec: Chain(lab.prog, CLS, *dims, ham_sites=hs, decisions=dec, fields=[("gauge_fixing", gf), ("canonical_form", gf)],
                                      extra=lambda c: dict(linds=Lst([]))), body, 4)


def run(prog, ctx):
    if CLS not in prog.classes:
        return
    lab = Lab(prog, ctx, "C03")
    from .spec07 import DIMS
    for hs, N, sites in CASES:
        for gf in ("right", "left"):
            for absent in (0, sites[0]):
                one(lab, hs, N, sites, gf, absent, DIMS[N])
