"""C08: queries are pure; C09: caller data is neither modified nor shared."""
import ast, json, os, re, sys
from .repo import qualname
from .effects import Effects
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

STATES = ["EvoMPS_MPS_Generic", "EvoMPS_MPS_Uniform", "EvoMPS_MPS_Sandwich", "EvoMPS_TDVP_Generic", "EvoMPS_TDVP_Uniform", "EvoMPS_TDVP_Sandwich",
          "EvoMPS_TDVP_Generic_Dissipative"]
QUERY = re.compile(r"^(expect_|density_|correlation_|overlap|fidelity_|get_[A-Za-z]+$|_B_overlap)|^(entropy|schmidt_sq|inner|basis_occupancy|calc_E_gap|check_RCF|"
                   r"compute_projection_error|export_state|save_state|maxD_is_less_than|_are_bond_dims_synced|_get_tangent_lr|_get_dense_transfer_op_block|"
                   r"_calc_E_largest_eigenvalues|_get_EOP|get_B_from_x|calc_PPinv)$")
# documented outputs of those: the caller's own output buffer
QOUT = {("get_B_from_x", "out"), ("calc_PPinv", "out")}


def engine(prog):
    sys.setrecursionlimit(20000)
    return Effects(prog)


def short(path):
    s = path[1]
    for x in path[2:]:
        s += x
    return s


def c08(prog, ctx):
    E = engine(prog)
    seen = set()
    for c in STATES:
        if c not in prog.classes:
            continue
        names = []
        for k in prog.mro(c):
            for nm, f in k._methods.items():
                if nm not in names and prog.method(c, nm) is f:
                    names.append(nm)
        for nm in sorted(names):
            f = prog.method(c, nm)
            deco = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
            if not (QUERY.search(nm) or "property" in deco) or nm.endswith("_test"):
                continue
            if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in f.decorator_list):
                continue
            S = E.summary(f, c)
            ctx.count("queries analysed per class")
            ctx.analysed.add(f._mod.name + ":" + qualname(f))
            bad = [e for e in S.events.values() if (nm, e.path[1]) not in QOUT]
            ctx.count("queries without effects", 0 if bad else 1)
            if S.partial:
                ctx.undec(c + "." + nm, "recursion cut")
            for e in bad:
                k = (f, e.path, e.kind)
                if k in seen:
                    continue
                seen.add(k)
                ctx.violation("query-effect", f._mod.relpath if hasattr(f._mod, "relpath") else f._mod.name, qualname(f), short(e.path),
                              "%s.%s() %s %s (in %s, line %s)" % (c, nm, "rebinds" if e.kind == "rebind" else "writes into", short(e.path), qualname(e.fn),
                                                                  getattr(e.node, "lineno", "?")), getattr(e.node, "lineno", None))
    for k, n in sorted(E.unknown_calls.items()):
        ctx.undec("call " + str(k), "receiver unknown, assumed without effect (%d sites)" % n)


# documented (or module-internal) output arguments, per function and parameter
OUT = {
 "core_common:eps_l_noop_inplace": {"out"}, "core_common:eps_r_noop_inplace": {"out"},
 "matmul:dot_inplace": {"out"}, "matmul:H": {"out"}, "matmul:randomize_cmplx": {"x"}, "matmul:mmul_diag": {"out"},
 "mps_uniform:EvoMPS_MPS_Uniform._calc_lr_ARPACK": {"x", "tmp", "A1"}, "mps_uniform:EvoMPS_MPS_Uniform._calc_lr": {"x", "tmp", "A1"},
 "mps_uniform_excite:Excite_H_Op.calc_BHB": {"M_prev", "y_pi_prev"}, "mps_uniform_excite:Excite_H_Op_tp.calc_BHB": {"M_prev", "y_pi_prev"},
 "mps_uniform_pinv:pinv_1mE": {"out"}, "sexpmv:gexpmv": {"w"},
 "split_step:evolve_split": {"mps"},
 "tdvp_common:restore_RCF_r_seq": {"A", "r"}, "tdvp_common:restore_RCF_l_seq": {"A", "l"}, "tdvp_common:restore_RCF_r": {"A"}, "tdvp_common:restore_RCF_l": {"A"},
 "tdvp_common:restore_LCF_l_seq": {"A", "l"}, "tdvp_common:restore_LCF_r_seq": {"A", "r"}, "tdvp_common:restore_LCF_l": {"A"}, "tdvp_common:restore_LCF_r": {"A"},
 "tdvp_uniform:EvoMPS_TDVP_Uniform.calc_PPinv": {"out"}, "tdvp_uniform:EvoMPS_TDVP_Uniform.get_B_from_x": {"out"},
 "mps_gen:correct_bond_dim_open_chain": {"D"},
}
# operations that evolve the state object they are given
EVOLVES = {"sys", "s", "x0"}
# caches of another state that the excitation ansatz fills in
DONOR = {".Vsh", ".ham", ".l_sqrt", ".l_sqrt_i", ".r_sqrt", ".r_sqrt_i"}


def out_ok(key, fname, cls, e):
    root = e.path[1]
    if root in OUT.get(key, ()):
        return True
    if fname.startswith("apply_ham") and root == "res":
        return True
    if root == "donor" and len(e.path) > 2 and e.path[2] in DONOR:
        return True
    return False


SHARE_SKIP = {".ham", ".ham_tp", ".ham_sites", ".linds", ".typ", ".odr", ".userdata", ".dtype"}
STORE = {".A", ".l", ".r", ".q", ".D", ".AA", ".AAA", ".C", ".K", ".K_left", ".lL_before_CF", ".rL_before_CF", ".uni_l", ".uni_r"}
SETTERS = re.compile(r"^(set_state_.*|from_tensors|from_mps|from_file|import_state|load_state|initialize_state|convert_to_.*|set_q|expand_D|truncate|grow_left|grow_right|"
                     r"sandwich_from_tensors|mps_from_tensors_gen|__init__|_init_arrays|apply_op_1s|apply_op_MPO|auto_truncate|take_step.*|phase_align|gauge_align)$")


def reach(S, v):
    out, seen, todo = [], set(), [(x, ()) for x in v]
    while todo:
        x, tr = todo.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x[0] == "p":
            out.append((x, tr))
        if x[0] in ("n", "p"):
            for (l, s), vv in S.heap.items():
                if l == x:
                    todo += [(y, tr + (s,)) for y in vv if isinstance(y, tuple)]
    return out


def c09(prog, ctx):
    E = engine(prog)
    api = json.load(open(os.path.join(ROOT, "data", "api.json")))
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda) or m.name in ("dynamics", "cuda_alternatives") or isinstance(getattr(f, "_parent", None), ast.FunctionDef):
            continue
        q = qualname(f)
        key = m.name + ":" + q
        if key not in api:
            continue
        if f.name == "go":
            continue
        cls = f._cls.name if getattr(f, "_cls", None) is not None else None
        S = E.summary(f, cls)
        params = {p.arg for p in list(f.args.posonlyargs) + list(f.args.args) + list(f.args.kwonlyargs)} - {"self", "cls"}
        if f.args.vararg:
            params.add(f.args.vararg.arg)
        if f.args.kwarg:
            params.add(f.args.kwarg.arg)
        ctx.count("functions analysed")
        ctx.count("parameters tracked", len(params))
        ctx.analysed.add(key)
        seen = set()
        for e in S.events.values():
            root = e.path[1]
            if root not in params or out_ok(key, f.name, cls, e):
                continue
            if (e.path, e.kind) in seen:
                continue
            seen.add((e.path, e.kind))
            ctx.violation("argument-modified", m.name, q, short(e.path[:4]),
                          "%s modifies its argument: %s %s (in %s, line %s)" % (q, short(e.path), "is rebound" if e.kind == "rebind" else "is written in place",
                                                                               qualname(e.fn), getattr(e.node, "lineno", "?")), getattr(e.node, "lineno", None))
        # sharing
        if SETTERS.match(f.name) and (cls is None or cls in STATES):
            ctx.count("setters checked for shared storage")
            for (l, s), v in S.heap.items():
                if l == ("p", "self") and s in STORE:
                    share(ctx, m, q, "self" + s, reach(S, v), params)
                elif l[0] == "p" and l[1] == "self" and len(l) > 2 and l[2] in STORE:
                    share(ctx, m, q, "self" + "".join(l[2:]) + s, reach(S, v), params)
            for x in S.ret:
                if isinstance(x, tuple) and x[0] == "n":
                    for (l, s), v in S.heap.items():
                        if l == x and s in STORE:
                            share(ctx, m, q, "ret" + s, reach(S, v), params)
        if f.name in ("export_state", "save_state", "copy", "__copy__", "__deepcopy__"):
            ctx.count("copies checked for shared storage")
            share(ctx, m, q, "ret", [(x, t) for x, t in reach(S, S.ret) if x[1] == "self"], {"self"})
    for k, n in sorted(E.unknown_calls.items()):
        ctx.undec("call " + str(k), "receiver unknown, assumed without effect (%d sites)" % n)


def share(ctx, m, q, where, found, params):
    for x, tr in found:
        if q.startswith("EvoMPS_MPS_Uniform.") or q.startswith("EvoMPS_TDVP_Uniform."):
            if where in ("self.q", "self.D", "ret.q", "ret.D"):      # plain integers in this class
                continue
        if x[1] not in params or set(x[2:]) & SHARE_SKIP or set(tr) & SHARE_SKIP:
            continue
        if len(x) > 2 and x[1] == "self" and x[2] == ".userdata":
            continue
        ctx.violation("shared-storage", m.name, q, where + " <- " + short(x[:4]),
                      "%s: %s%s shares storage with %s" % (q, where, "".join(tr), short(x)), None)
        return
