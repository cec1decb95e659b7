"""C02: types of the transfer-map and local contraction primitives."""
from .typesys import *
from .interp import Interp, State, Prune
from .axioms import package_axioms
from .repo import qualname

n = Poly.sym("n")


def opt(exp, args):
    return (exp, args)


def table():
    k, b = "k", "b"
    A1, A2 = tA(n, k), tA(n, b)
    lx, rx = tl(n - 1, k, b, atom("x")), tr(n, k, b, atom("x"))
    aA = lambda s, l="k": atom("A", l, s)
    cj = t_conj
    T = {}
    def add(mod, f, args, out, tag=""):
        T[(mod, f, tag)] = (args, out)
    X = atom("x")
    O = t_atom("op")
    # merged tensors
    add("core_common", "calc_AA", [tA(n, k), tA(n + 1, k)], tAA(n, k))
    add("core_common", "calc_AAA", [tA(n, k), tA(n + 1, k), tA(n + 2, k)], tAA(n, k, 3))
    add("core_common", "calc_AAA_AA", [tAA(n, k), tA(n + 2, k)], tAA(n, k, 3))
    add("core_common", "calc_AAA_AAr", [tA(n, k), tAA(n + 1, k)], tAA(n, k, 3))
    # one site
    l_out = lambda m, *ts: tl(m, k, b, prod(*ts))
    r_out = lambda m, *ts: tr(m, k, b, prod(*ts))
    add("core_common", "eps_l_noop", [lx, A1, A2], l_out(n, X, cj(aA(n)), aA(n, b)))
    add("core_common", "eps_r_noop", [rx, A1, A2], r_out(n - 1, X, aA(n), cj(aA(n, b))))
    zl = Ten([Unk(d) for d in (geo.axdim(B(n, layer=k)), geo.axdim(B(n, layer=b)))], {}, (), True)
    zr = Ten([Unk(d) for d in (geo.axdim(B(n - 1, layer=k)), geo.axdim(B(n - 1, layer=b)))], {}, (), True)
    add("core_common", "eps_l_noop_inplace", [lx, A1, A2, ("cell", zl)], l_out(n, X, cj(aA(n)), aA(n, b)))
    add("core_common", "eps_r_noop_inplace", [rx, A1, A2, ("cell", zr)], r_out(n - 1, X, aA(n), cj(aA(n, b))))
    add("core_common", "eps_l_op_1s", [lx, A1, A2, top(n, 1)], l_out(n, X, cj(aA(n)), aA(n, b), cj(O)))
    add("core_common", "eps_r_op_1s", [rx, A1, A2, top(n, 1)], r_out(n - 1, X, aA(n), cj(aA(n, b)), O))
    mx = lambda p, conj, up: Ten((W(p), B(p, conj, up, k), B(p, not conj, up, b)), X)
    w = atom("W", n)
    add("core_common", "eps_l_op_MPO", [Ten((W(n - 1), B(n - 1, True, False, k), B(n - 1, False, False, b)), X), A1, A2, tW(n)],
        Ten((W(n), B(n, True, False, k), B(n, False, False, b)), prod(X, cj(aA(n)), aA(n, b), cj(w))))
    add("core_common", "eps_r_op_MPO", [Ten((W(n), B(n, False, True, k), B(n, True, True, b)), X), A1, A2, tW(n)],
        Ten((W(n - 1), B(n - 1, False, True, k), B(n - 1, True, True, b)), prod(X, aA(n), cj(aA(n, b)), w)))
    # two sites
    rx2 = tr(n + 1, k, b, X)
    K2, B2 = prod(aA(n), aA(n + 1)), prod(aA(n, b), aA(n + 1, b))
    add("core_common", "eps_r_op_2s_A", [rx2, tA(n, k), tA(n + 1, k), tA(n, b), tA(n + 1, b), top(n, 2)], r_out(n - 1, X, K2, cj(B2), O))
    add("core_common", "eps_r_op_2s_AA12", [rx2, tAA(n, k), tA(n, b), tA(n + 1, b), top(n, 2)], r_out(n - 1, X, K2, cj(B2), O))
    add("core_common", "eps_r_op_2s_AA_func_op", [rx2, tAA(n, k), tAA(n, b), OpFn(top(n, 2))], r_out(n - 1, X, K2, cj(B2), O))
    C12 = tAA(n, k, 2, op=O)
    C34 = tAA(n, b, 2, op=O)
    add("core_common", "eps_r_op_2s_C12", [rx2, C12, tA(n, b), tA(n + 1, b)], r_out(n - 1, X, K2, cj(B2), O))
    add("core_common", "eps_r_op_2s_C34", [rx2, tA(n, k), tA(n + 1, k), C34], r_out(n - 1, X, K2, cj(B2), cj(O)))
    add("core_common", "calc_C_func_op", [OpFn(top(n, 2)), tA(n, k), tA(n + 1, k)], C12)
    add("core_common", "calc_C_func_op_AA", [OpFn(top(n, 2)), tAA(n, k)], C12)
    lx2 = tl(n - 1, k, b, X)
    tc = "tdvp_common"
    add(tc, "eps_r_op_2s_AA12_C34", [rx2, tAA(n, k), C34], r_out(n - 1, X, K2, cj(B2), cj(O)))
    add(tc, "eps_r_op_2s_C12_AA34", [rx2, C12, tAA(n, b)], r_out(n - 1, X, K2, cj(B2), O))
    add(tc, "eps_l_op_2s_AA12_C34", [lx2, tAA(n, k), C34], l_out(n + 1, X, cj(K2), B2, O))
    add(tc, "eps_l_op_2s_A1_A2_C34", [lx2, tA(n, k), tA(n + 1, k), C34], l_out(n + 1, X, cj(K2), B2, O))
    K3, B3 = prod(K2, aA(n + 2)), prod(B2, aA(n + 2, b))
    C123, C456 = tAA(n, k, 3, op=O), tAA(n, b, 3, op=O)
    add(tc, "eps_r_op_3s_C123_AAA456", [tr(n + 2, k, b, X), C123, tAA(n, b, 3)], r_out(n - 1, X, K3, cj(B3), O))
    add(tc, "eps_l_op_3s_AAA123_C456", [lx2, tAA(n, k, 3), C456], l_out(n + 2, X, cj(K3), B3, O))
    for f in ("calc_C_mat_op_AA", "calc_C_mat_op_AA_tensordot"):
        add(tc, f, [top(n, 2), tAA(n, k)], C12)
    for f in ("calc_C_3s_mat_op_AAA", "calc_C_3s_mat_op_AAA_tensordot"):
        add(tc, f, [top(n, 3), tAA(n, k, 3)], C123)
    for f in ("calc_C_conj_mat_op_AA", "calc_C_conj_mat_op_AA_tensordot"):
        add(tc, f, [top(n, 2), tAA(n, k)], tAA(n, k, 2, op=cj(O)))
    # tensor-product operators: list of (op on n, op on n+1)
    O0, O1 = t_atom("op0"), t_atom("op1")
    optp = TupV([TupV([top(n, 1, "op0"), top(n + 1, 1, "op1")])])
    Ctp = TupV([TupV([tA(n, k, terms=prod(aA(n), O0)), tA(n + 1, k, terms=prod(aA(n + 1), O1))])])
    Ctpb = TupV([TupV([tA(n, b, terms=prod(aA(n, b), O0)), tA(n + 1, b, terms=prod(aA(n + 1, b), O1))])])
    add(tc, "calc_C_mat_op_tp", [optp, tA(n, k), tA(n + 1, k)], tAA(n, k, 2, op=prod(O0, O1)))
    add(tc, "calc_C_tp", [optp, tA(n, k), tA(n + 1, k)], Ctp)
    add(tc, "eps_l_op_2s_C34_tp", [lx2, tA(n, k), tA(n + 1, k), Ctpb], l_out(n + 1, X, cj(K2), B2, O0, O1))
    add(tc, "eps_r_op_2s_C12_tp", [rx2, Ctp, tA(n, b), tA(n + 1, b)], r_out(n - 1, X, K2, cj(B2), O0, O1))
    # apply_MPO_local
    MA = Ten([P(n), Comp([B(n - 1, layer=k), W(n - 1)]), Comp([B(n, up=False, layer=k), W(n, False)])], prod(aA(n), w))
    add(tc, "apply_MPO_local", [tW(n), tA(n, k)], MA)
    return T


geo = Geo()


def expected_items(exp):
    return [x for it in exp.items for x in it.items] if isinstance(exp, TupV) else [exp]


def check_result(I, st, v, exp):
    """list of ('ok'|'unknown'|msg)"""
    v = I.de(v, st)
    if isinstance(exp, TupV):
        if isinstance(v, Arr1) and v.length is not None and v.length.cval() is not None:
            v = TupV([I.de(I.arr_get(v, Poly.const(i), st), st) for i in range(int(v.length.cval()))])
        if not isinstance(v, TupV):
            return ["unknown"]
        if len(v.items) != len(exp.items):
            return ["result has %d components, expected %d" % (len(v.items), len(exp.items))]
        out = []
        for a, e in zip(v.items, exp.items):
            out.extend(check_result(I, st, a, e))
        return out
    if exp is None:
        return ["ok"]
    return [match(v, exp, I.geo)]


def mkarg(I, st, a):
    if isinstance(a, tuple) and a and a[0] == "cell":
        return I.cell(st, a[1])
    return a


def run_entry(I, fn, args, exp, ctx, label, kw=None, hook=None, assume=()):
    """types one function with the given argument types and compares the result"""
    from .dom import Fn
    st = State()
    st.assume = tuple(assume)
    a = [mkarg(I, st, x) for x in args]
    node = fn
    try:
        I.steps = 0
        outs = I.call_fn(Fn(fn, fn._mod), a, kw or {}, st, node)
    except Prune:
        outs = []
    q = qualname(fn)
    ctx.analysed.add("%s:%s" % (fn._mod.rel, q))
    res = []
    for v, s in outs:
        res.extend(check_result(I, s, v, exp))
    if not outs:
        ctx.undec(label, "no completed path")
    for r in res:
        if r == "ok":
            ctx.count("results with the specified type")
        elif r == "unknown":
            ctx.undec(label, "result type not determined")
        else:
            ctx.violation("result-type", fn._mod.rel, q, q, "%s: %s" % (label, r), fn.lineno)
    return outs


def flush(I, ctx, rules=None):
    for (f, q, rule, text), v in I.violations.items():
        if rules is not None and rule not in rules:
            continue
        ctx.violation(rule, f, q, text, v["msg"] + "  [path %s]" % v["path"], v["line"])
    for (f, q, tag), d in I.indlog.items():
        for key, (r, line) in d.items():
            if r == "ok":
                ctx.count("entries equal to their definition")
            elif r == "unknown":
                ctx.undec("%s %s[%s]" % (q, tag, key), "assigned type not determined")
            elif rules is None or "definition" in rules:
                # indices of loop variables are not part of the finding's identity
                ctx.violation("definition", f, q, tag, "%s[%s]: %s" % (tag, key.split("@")[0], r), line)
    ctx.count("index pairings checked", len(I.sites))
    for k in I.sites:
        ctx.sample("%s:%d:%d" % k)
    for k in I.undecided:
        ctx.undec("%s:%d:%d" % k, "index type unknown")


def run(prog, ctx):
    T = table()
    for (mod, f, tag), (args, exp) in T.items():
        fn = prog.func(mod, f)
        I = Interp(prog, geo, package_axioms())
        run_entry(I, fn, args, exp, ctx, f + (":" + tag if tag else ""))
        flush(I, ctx)
