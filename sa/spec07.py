"""C07: after an update (or an operation that ends with one) every derived quantity is that of the current tensors.

For each history the derived fields found afterwards are compared, as exact expressions in the final site tensors,
with what the class's own calc_* methods produce when every field is overwritten with a stale marker first."""
import ast
from .lab17 import Lab
from .rules17 import Ar, Bound, Lst, Mask, Undecided
from .rig17 import Chain, Block, Sand, sym_kernels, same_word
from .spec04 import DIMS

CHAIN = ("l", "r", "AA", "AAA", "C", "K", "h_expect", "H_expect")
SAND = ("l", "r", "_AA", "_AAA", "_C", "K", "K_l", "h_expect", "dH_expect")
BLOCK = ("l", "r", "AA", "AAA", "C", "K", "h_expect")


def names(g, v, out=None):
    """kernels and stale markers a stored value depends on"""
    out = set() if out is None else out
    if isinstance(v, Ar):
        for x in (v.items if v.items is not None else ()):
            names(g, x, out)
        if v.items is None and v.lc is not None:
            for (mono, w), c in g.G.norm(v.lc).items():
                for s in [f[0] for f in w] + [x[3] for x in mono]:
                    sym_kernels(g, s, out, set())
    elif isinstance(v, Lst):
        for x in v.items:
            names(g, x, out)
    return out


def bare(g, v):
    """the value is a stale marker itself (a field the operation does not compute)"""
    if isinstance(v, Ar) and v.items is None and v.lc is not None:
        for (mono, w), c in g.G.norm(v.lc).items():
            x = [f[0] for f in w] + [y[3] for y in mono]
            return len(x) == 1 and (x[0].name[:1] == ("old",) or x[0].name[:2] == ("F", "old"))
    return False


def contents(rig, fields, o=None, pre=""):
    g, out = rig.g, {}
    o = o if o is not None else rig.o
    for f in fields:
        if f not in o.f:
            continue
        v = o.f[f]
        for k, x in ([((pre + f, i), x) for i, x in enumerate(v.items)] if isinstance(v, Lst) else [((pre + f, None), v)]):
            try:
                nm = names(g, x)
                if "old" in nm and not bare(g, x):
                    nm = nm | set(["from old"])
                out[k] = (g.skey(g.nsnap(g.snap(x))), nm)
            except Undecided:
                out[k] = (None, set(["?"]))
    return out


GIVEN = set(["fac", "hterm", "B", "psi", "op", "mpo", "dtau", "PPinv", "adot", "adot_noconj", "trace", "old", "normal", "random", "randn", "zeros"])


STALE = set(["old", "empty", "uninitialised"])


def opaque(lab, ns):
    """library operations the algebra has no rule for take part: equality cannot be decided"""
    if not hasattr(lab, "own"):
        lab.own = set(fn.name for _, fn in lab.prog.all_functions() if hasattr(fn, "name") and isinstance(getattr(fn, "_parent", None), ast.Module))
    return ns - lab.own - GIVEN


def compare(lab, rig, op, label, have, want, only=None):
    for k, (w, wn) in sorted(want.items(), key=str):
        if only is not None and k[0] not in only:
            continue        # outside of the range the class computes
        h, hn = have.get(k, (None, set(["?"])))
        f = k[0] if k[1] is None else "%s[%d]" % k
        if "from old" in wn and h == w:
            lab.viol(rig, "computed from a stale quantity", op, k[0], "%s: %s is computed from values the operation has not recomputed" % (label, f))
            continue
        if "old" in wn or "empty" in wn or w is None:
            continue        # outside of the range the class computes
        if h == w:
            lab.ctx.count("derived quantities equal to those of the final tensors")
        elif "?" in hn:
            lab.ctx.undec("%s: %s" % (label, f), "not comparable")
        elif hn & STALE or not (hn - wn - {"fac"}) and not opaque(lab, wn):
            lab.viol(rig, "stale derived quantity", op, k[0],
                     "%s: %s is not that of the current tensors%s" % (label, f, " (it still holds the value from before the operation)" if hn & STALE else ""))
        else:
            lab.ctx.undec("%s: %s" % (label, f), "contains %s" % sorted(hn - wn))


# ------------------------------------------------------------------ open chains
def ends(c, more):
    """the environments of the current tensors"""
    for n in range(c.N + 1 + more):
        c.o.f["l"].items[n] = c.want_l(n)
    for n in range(c.N + more, -1, -1):
        c.o.f["r"].items[n] = c.want_r(n)


def refresh_chain(c):
    c.D = list(c.g.iter(c.o.f["D"]))
    c.q = list(c.g.iter(c.o.f["q"]))
    c.stale()
    ends(c, 0)
    if c.tdvp:
        c.call("calc_C")
        c.call("calc_K" if c.o.f.get("gauge_fixing", "right") == "right" else "calc_K_l")


def args_chain(c, a):
    g, N = c.g, c.N
    out = []
    for x in a:
        if x == "psi":
            x = Lst([g.F("psi", [n], shape=(c.q[n + 1],)) for n in range(N)])
        elif x == "As":
            x = Lst([None] + [g.site(("B", n), (c.q[n], c.D[n - 1], c.D[n])) for n in range(1, N + 1)])
        elif x == "op":
            x = g.F("op", [0], shape=(c.q[2],) * 2)
        elif x == "mpo":
            x = Lst([g.F("mpo", [i], shape=(1 if i == 0 else 2, 1 if i == N - 1 else 2, c.q[i + 1], c.q[i + 1])) for i in range(N)])
        elif x == "newD":
            x = Lst([min(d, 2) for d in c.D])
        elif x == "dtau":
            x = g.F("dtau", [0], shape=())
        out.append(x)
    return out


def chains(lab, thorough):
    ops = [("update", (), {}), ("update", (), dict(restore_CF=False)), ("update", (), dict(restore_CF=False, normalize=False)), ("update", (), dict(auto_truncate=True)),
           ("truncate", ("newD",), {}), ("auto_truncate", (), {}), ("set_state_product", ("psi",), {}), ("set_state_from_tensors", ("As",), {}),
           ("randomize", (), {}), ("add_noise", (), {}), ("apply_op_1s", ("op", 2), {}), ("apply_op_MPO", ("mpo", 1), {}), ("simple_renorm", (), {}),
           ("new;update", (), {}), ("new;update", (), dict(restore_CF=False)), ("new;update", (), dict(restore_CF=False, normalize=False)),
           ("auto_truncate!", (), {}), ("update!", (), dict(auto_truncate=True))]
    for cls, hs, N, gf in ([("EvoMPS_MPS_Generic", 2, 3, "right"), ("EvoMPS_MPS_Generic", 2, 4, "left")] +
                           [("EvoMPS_TDVP_Generic", h, n, s) for h, n in ((2, 3), (2, 4), (3, 4)) for s in ("right", "left")] +
                           ([("EvoMPS_TDVP_Generic", h, 5, s) for h in (2, 3) for s in ("right", "left")] if thorough else [])):
        for op, a, k in ops:
            for first in (True, False):
                if not first and not (op == "update" and "auto_truncate" not in k):
                    continue
                def one(cls, hs, N, gf, op, a, k, first):
                    label = "%s%s(%s), %s gauge, %d-site terms, N=%d" % ("" if not first else "update(); ", op, ", ".join(list(map(str, a)) + ["%s=%s" % x for x in k.items()]), gf, hs, N)

                    def body(c):
                        install_freeze(c, lambda: [("chain", c.o, c.bases)])
                        if first:
                            c.call("update")
                        for nm in op.rstrip("!").split(";"):
                            Mask.kept = {max(c.D): max(c.D) - 1} if op[-1] == "!" else {}
                            try:
                                c.call(nm, *(args_chain(c, a) if nm != "new" else ()), **k)
                            finally:
                                Mask.kept = {}
                        if op[-1] == "!" and list(c.g.iter(c.o.f["D"])) == c.D:
                            raise Undecided("nothing was truncated")
                        have = contents(c, CHAIN)
                        refresh_chain(c)
                        compare(lab, c, nm, cls + ": " + label, have, contents(c, CHAIN), only=("l", "r") if nm == "simple_renorm" else None)
                        lab.note_calls(c)
                    lab.scen(label, lambda dec: Chain(lab.prog, cls, *DIMS[N], ham_sites=hs, decisions=dec, fields=[("gauge_fixing", gf), ("canonical_form", gf)]), body, cap=4)
                one(cls, hs, N, gf, op, a, k, first)
    # histories with a step in between
    for gf, hs, N in (("right", 2, 3), ("left", 2, 3), ("right", 3, 4), ("left", 3, 4)):
        for st, kw in (("take_step", {}), ("take_step", dict(restore_CF=False)), ("take_step_RK4", {})):
            def one(gf, hs, N, st, kw):
                label = "update(); " + st + "(dtau); update(%s), %s gauge, %d-site terms, N=%d" % (", ".join("%s=%s" % x for x in kw.items()), gf, hs, N)

                def body(c):
                    install_freeze(c, lambda: [("chain", c.o, c.bases)])
                    c.call("update")
                    c.g.intercept["calc_B_n"] = lambda s, f, a, k: s.F("B", [a[0]], shape=(c.q[a[0]], c.D[a[0] - 1], c.D[a[0]]))
                    c.call(st, c.g.F("dtau", [0], shape=()))
                    c.call("update", **kw)
                    have = contents(c, CHAIN)
                    refresh_chain(c)
                    compare(lab, c, "update", "EvoMPS_TDVP_Generic: " + label, have, contents(c, CHAIN))
                lab.scen(label, lambda dec: Chain(lab.prog, "EvoMPS_TDVP_Generic", *DIMS[N], ham_sites=hs, decisions=dec, fields=[("gauge_fixing", gf), ("canonical_form", gf)]), body, cap=4)
            one(gf, hs, N, st, kw)


def dissipative(lab, thorough):
    cls = "EvoMPS_TDVP_Generic_Dissipative"
    if cls not in lab.prog.classes:
        return
    for hs, N, gf in ((2, 3, "right"), (2, 3, "left"), (3, 4, "right")):
        for kw in ({}, dict(restore_CF=False)):
            def one(hs, N, gf, kw):
                label = "update(%s), %s gauge, %d-site terms, N=%d" % (", ".join("%s=%s" % x for x in kw.items()), gf, hs, N)

                def body(c):
                    c.call("update", **kw)
                    have = contents(c, CHAIN)
                    refresh_chain(c)
                    # the blocks of the energy are rebuilt by every dissipative step with its own effective Hamiltonian
                    compare(lab, c, "update", cls + ": " + label, have, contents(c, CHAIN), only=("l", "r", "AA", "AAA", "C"))
                    lab.note_calls(c)
                lab.scen(label, lambda dec: Chain(lab.prog, cls, *DIMS[N], ham_sites=hs, decisions=dec, fields=[("gauge_fixing", gf), ("canonical_form", gf)],
                                                  extra=lambda c: dict(linds=Lst([]))), body, cap=4)
            one(hs, N, gf, kw)


def install_freeze(rig, objs):
    """an update starts from tensors that are unknowns: nothing it leaves behind may rest on how they came about"""
    g = rig.g
    n = [0]

    def enter(gi, f, args, kw):
        for role, o, own in objs():
            if o is not f.self_:
                continue
            v = o.f["A"]
            for i, t in enumerate(v.items):
                t = gi.asar(t) if t is not None else None
                if t is None or t.shape is None or len(t.shape) != 3:
                    continue
                b = gi.decomp(t)[2]
                if b not in own:
                    n[0] += 1
                    t.become(gi.site(("new", role, i, n[0]), t.shape))
                    own.append(gi.decomp(t)[2])
        return Undecided
    g.intercept["update"] = enter
    rig.freeze = enter
    plain = rig.call

    def call(name, *a, **k):
        if name == "new":
            # tensors assigned by the user
            for role, o, own in objs():
                del own[:]
                enter(g, Bound(None, o), a, k)
            return None
        if name == "update":
            enter(g, Bound(None, rig.o), a, k)
        return plain(name, *a, **k)
    rig.call = call


# ------------------------------------------------------------------ uniform blocks
def refresh_block(b, left=False):
    """everything but the fixed points (a numerical solve) recomputed from them"""
    g = b.g
    o = b.o
    b.L = o.f["L"]
    b.D, b.q = o.f["D"], o.f["q"]
    b.stale()
    b.environments()
    if b.tdvp:
        b.call("calc_C")
        b.call("calc_K")
    else:
        b.call("calc_AA")


def args_block(b, a):
    g = b.g
    m = {"op": lambda: g.F("op", [0], shape=(b.q,) * 2), "dtau": lambda: g.F("dtau", [0], shape=())}
    return [m[x]() if x in m else x for x in a]


def block_same(lab, b, op, label, before):
    """environments up to a common factor of each of l and r; everything else recomputed from the ones found"""
    g = b.g
    o = b.o
    have = contents(b, BLOCK)
    lr = {w: [x.copy() if isinstance(x, Ar) else g.asar(x) for x in o.f[w].items] for w in ("l", "r")}
    L = o.f["L"]
    b.L, b.D, b.q = L, o.f["D"], o.f["q"]
    for w in ("l", "r"):
        for k in range(L):
            x = b.lr(w, k)
            y = b.want_l(k) if w == "l" else b.want_r(k)
            v = g.asar(x)
            if v is None or v.lc is None or y is None:
                lab.ctx.undec("%s: %s[%d]" % (label, w, k), "not a matrix")
                continue
            if g.G.eq(v.lc, y.lc) or same_word(g, v.lc, y.lc, True):
                lab.ctx.count("derived quantities equal to those of the final tensors")
                continue
            hn, wn = names(g, v), names(g, y)
            if "old" in hn or not g.G.is_scalar(g.G.norm(v.lc)) and have[(w, k)][0] is not None and have[(w, k)][0] == before.get((w, k), (None,))[0]:
                lab.viol(b, "stale derived quantity", op, w, "%s: %s[%d] is not the environment of the current tensors%s" %
                         (label, w, k, " (it still holds the value from before the operation)" if "old" in hn else ""))
            else:
                lab.ctx.undec("%s: %s[%d]" % (label, w, k), "contains %s" % sorted(hn - wn))
    b.stale()
    for w in ("l", "r"):
        o.f[w].items[:] = lr[w]
    if b.tdvp:
        b.call("calc_C")
        b.call("calc_K")
    else:
        b.call("calc_AA")
    # the merged tensors of plain states are read by nothing but the operations that compute them first
    compare(lab, b, op, label, have, contents(b, BLOCK), only=None if b.tdvp else ("l", "r"))


def install_ppinv(b):
    def pp(gi, f, args, kw):
        kw = dict(kw)
        names_ = [x.arg for x in f.fn.args.args][1:]
        kw.update(zip(names_, args))
        o = f.self_
        A = o.f["A"].items
        out = kw.get("out")
        if any(kw.get(z) is not None for z in ("A1", "A2", "rL", "rL", "pseudo")):
            return Undecided
        r = gi.F("PPinv", [kw["x"], kw.get("p", 0), bool(kw.get("left", False))] + list(A) + [o.f["l"].items[-1], o.f["r"].items[-1]], shape=gi.asar(kw["x"]).shape)
        if isinstance(out, Ar):
            out.become(r)
            return out
        return r
    b.g.intercept["calc_PPinv"] = pp


def blocks(lab, thorough):
    ops = [("update", (), {}), ("update", (), dict(restore_CF=False)), ("update", (), dict(auto_truncate=True)), ("update", (), dict(auto_truncate=True, restore_CF_after_trunc=False)),
           ("truncate", (1,), {}), ("auto_truncate", (), {}), ("randomize", (), {}), ("add_noise", (), {}), ("apply_op_1s", ("op",), {}), ("apply_op_1s", ("op", 1), {}),
           ("convert_to_TI_blocked", (), {}), ("expand_D;update", (4,), {}), ("set_q;update", (3,), {}),
           ("new;update", (), {}), ("new;update", (), dict(restore_CF=False)),
           ("take_step;update", ("dtau",), {}), ("take_step_RK4;update", ("dtau",), {})]
    for cls, hs, L in ([("EvoMPS_MPS_Uniform", 2, 1), ("EvoMPS_MPS_Uniform", 2, 2)] + [("EvoMPS_TDVP_Uniform", h, L) for h, L in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2))]):
        for sg in (True, False):
            for op, a, k in ops:
                if op == "apply_op_1s" and a[1:] and L == 1:
                    continue
                if op == "convert_to_TI_blocked" and L == 1 or "step" in op and "TDVP" not in cls:
                    continue
                def one(cls, hs, L, sg, op, a, k):
                    label = "%s: update(); %s(%s), symm_gauge=%s, %d-site terms, L=%d" % (cls, op, ", ".join(list(map(str, a)) + ["%s=%s" % x for x in k.items()]), sg, hs, L)

                    def body(b):
                        install_ppinv(b)
                        install_freeze(b, lambda: [("block", b.o, b.bases)])
                        b.call("update")
                        before = contents(b, ("l", "r"))
                        nm = op.split(";")[0]
                        b.g.intercept["calc_B"] = lambda g, f, a, k: Lst([g.F("B", [i], shape=b.o.f["A"].items[i].shape) for i in range(L)])
                        b.call(nm, *args_block(b, a), **(k if nm != "new" else {}))
                        if ";" in op:
                            b.call("update", **(k if nm == "new" else {}))
                        block_same(lab, b, op.split(";")[-1], label, before)
                        lab.note_calls(b)
                    lab.scen(label, lambda dec: Block(lab.prog, cls, 2, 2, L, ham_sites=hs, decisions=dec, fields=[("symm_gauge", sg)]), body, cap=4)
                one(cls, hs, L, sg, op, a, k)


# ------------------------------------------------------------------ windows
def refresh_sand(c):
    c.sync()
    c.stale()
    ends(c, 1)
    if c.tdvp:
        c.call("calc_C")
        c.call("calc_K")


def windows(lab, thorough):
    ops = [("update", (), {}), ("update", (), dict(restore_CF=False)), ("update", (), dict(restore_CF=False, normalize=False)), ("restore_CF", (), {}),
           ("calc_l", (), {}), ("calc_r", (), {}), ("simple_renorm", (), {}), ("apply_op_1s", ("op", 1), {}), ("apply_op_1s", ("op", 3), {}),
           ("take_step;update", ("dtau",), {}), ("take_step_RK4;update", ("dtau",), {}), ("grow_left;update", (1,), {}), ("grow_right;update", (1,), {}),
           ("new;update", (), {}), ("new;update", (), dict(restore_CF=False)), ("new;update", (), dict(restore_CF=False, normalize=False))]
    for cls, hs, N, L in (("EvoMPS_MPS_Sandwich", 2, 4, 1), ("EvoMPS_MPS_Sandwich", 2, 4, 2), ("EvoMPS_TDVP_Sandwich", 2, 4, 1), ("EvoMPS_TDVP_Sandwich", 2, 4, 2), ("EvoMPS_TDVP_Sandwich", 3, 4, 1), ("EvoMPS_TDVP_Sandwich", 2, 3, 1)):
        for op, a, k in ops:
            if "step" in op and "TDVP" not in cls:
                continue
            def one(cls, hs, N, L, op, a, k):
                label = "%s: update(); %s(%s), %d-site terms, N=%d, L=%d" % (cls, op, ", ".join(list(map(str, a)) + ["%s=%s" % x for x in k.items()]), hs, N, L)

                def body(c):
                    for u in c.blocks.values():
                        install_ppinv(u)
                    install_freeze(c, lambda: [("window", c.o, c.bases)])
                    if op in ("calc_l", "calc_r", "simple_renorm", "restore_CF"):
                        c.call("calc_l")
                        c.call("calc_r")
                    else:
                        c.call("update")
                    g = c.g
                    g.intercept["calc_B_n"] = lambda s, f, a, k: s.F("B", [a[0]], shape=(c.q[a[0]], c.D[a[0] - 1], c.D[a[0]]))
                    g.intercept["calc_B_centre"] = lambda s, f, a, k: s.F("B", ["centre"], shape=(c.q[1],) + (c.D[c.o.f["N_centre"]],) * 2)
                    args = [g.F("op", [0], shape=(c.q[1],) * 2) if x == "op" else g.F("dtau", [0], shape=()) if x == "dtau" else x for x in a]
                    new = op.startswith("new;")
                    c.call(op.split(";")[0], *args, **({} if new else k))
                    if "grow" in op:
                        c.N = c.o.f["N"]
                        c.D, c.q = list(g.iter(c.o.f["D"])), list(g.iter(c.o.f["q"]))
                    if ";" in op:
                        c.call("update", **(k if new else {}))
                    only = ("l", "r") if op.split(";")[0] in ("calc_l", "calc_r", "simple_renorm", "restore_CF") or not c.tdvp else None
                    have = contents(c, SAND)
                    lr = {w: [x.copy() if isinstance(x, Ar) else x for x in c.o.f[w].items] for w in ("l", "r")}
                    refresh_sand(c)
                    want = contents(c, SAND)
                    for w in ("l", "r"):
                        for n, (x, y) in enumerate(zip(lr[w], c.o.f[w].items)):
                            x, y = [g.asar(z) if z is not None else None for z in (x, y)]
                            if x is None or y is None or x.lc is None or y.lc is None or have[(w, n)] == want[(w, n)]:
                                continue
                            if "old" not in names(g, x) and "restore_CF" not in k and "calc" not in op and same_word(g, x.lc, y.lc, True):
                                # the scale of the state is the business of the canonical form
                                have[(w, n)] = want[(w, n)]
                    if c.tdvp and only is None:
                        c.stale()
                        for w in ("l", "r"):
                            c.o.f[w].items[:] = lr[w]
                        c.call("calc_C")
                        c.call("calc_K")
                        fresh = contents(c, SAND)
                        want.update((f, x) for f, x in fresh.items() if f[0] not in ("l", "r"))
                    compare(lab, c, op.split(";")[-1], label, have, want, only=only)
                    lab.note_calls(c)
                lab.scen(label, lambda dec: Sand(lab.prog, cls, N, 2, L, ham_sites=hs, decisions=dec), body, cap=4)
            one(cls, hs, N, L, op, a, k)


def run(prog, ctx):
    lab = Lab(prog, ctx, "histories interpreted")
    thorough = ctx.tier == "thorough"
    lab.later()
    chains(lab, thorough)
    dissipative(lab, thorough)
    blocks(lab, thorough)
    windows(lab, thorough)
    lab.go()
