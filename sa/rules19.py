"""C19: randomness, ambient state, hidden shared state."""
import ast, json, os
from .repo import qualname
from .effects import Effects
from .rules08 import STATES, ROOT, engine, reach, short

# operations whose documentation says they are random, and the seeds of solvers
RANDOM_OWNERS = {
 "matmul:randomize_cmplx": "documented", "mps_gen:EvoMPS_MPS_Generic.randomize": "documented", "mps_gen:EvoMPS_MPS_Generic.add_noise": "documented",
 "tdvp_uniform:EvoMPS_TDVP_Uniform._B_random": "test helper", "tdvp_uniform:EvoMPS_TDVP_Uniform._B_random_GF": "test helper",
 "tdvp_uniform:EvoMPS_TDVP_Uniform._B_random_GT_par": "test helper",
 "tdvp_gen_diss:EvoMPS_TDVP_Generic_Dissipative.take_step_dissipative": "documented (diffusion)",
 "tdvp_gen:EvoMPS_TDVP_Generic.take_step_split.evolve_A": "norm estimate for the Krylov solver",
 "split_step:evolve_split.evolve_A": "norm estimate for the Krylov solver", "split_step:evolve_split.evolve_AA": "norm estimate for the Krylov solver",
 "tdvp_sandwich:go": "prints the CPU time",
}
# operations through which random numbers may be drawn
ENTRY_OK = {
 "matmul": {"randomize_cmplx"},
 "mps_gen": {"EvoMPS_MPS_Generic.randomize", "EvoMPS_MPS_Generic.add_noise"},
 "mps_uniform": {"EvoMPS_MPS_Uniform." + x for x in ("__init__", "randomize", "add_noise", "expand_D", "from_tensors")},
 "mps_sandwich": {"sandwich_from_tensors", "EvoMPS_MPS_Sandwich.from_tensors", "EvoMPS_MPS_Sandwich.from_file"},
 "tdvp_uniform": {"EvoMPS_TDVP_Uniform." + x for x in ("__init__", "_B_random", "_B_random_GF", "_B_random_GT_par", "_B_rand_GT", "_B_overlap_test", "_B_to_B_GF_test",
                                                      "expand_D", "from_tensors", "from_mps", "from_file", "import_state", "load_state", "take_step", "take_step_RK4")},
 "tdvp_sandwich": {"EvoMPS_TDVP_Sandwich.from_mps", "go"},
 "tdvp_gen": {"EvoMPS_TDVP_Generic.take_step_split"}, "tdvp_gen_diss": {"EvoMPS_TDVP_Generic_Dissipative.take_step_dissipative"},
 "split_step": {"evolve_split"},
 "dynamics": {"evolve", "find_ground", "opt_im_time", "opt_grad_descent"},
}


class Hint(object):
    """the state argument of the drivers is one of the library's states"""
    def __init__(self, c):
        self.c = c

    def loc_type(self, an, l):
        return [self.c] if len(l) == 2 and l[1] in ("sys", "s", "sim", "s0") else None


def c19(prog, ctx):
    E = engine(prog)
    api = json.load(open(os.path.join(ROOT, "data", "api.json")))
    E.api = api
    done = set()

    def judge(E, m, f, cls):
        q = qualname(f)
        key = m.name + ":" + q
        if key not in api:
            return
        S = E.summary(f, cls)
        ctx.count("functions analysed per class")
        ctx.analysed.add(key)
        for d, node, g in S.draws:
            gm = g
            while getattr(gm, "_mod", None) is None and getattr(gm, "_parent", None) is not None:
                gm = gm._parent
            gkey = (gm._mod.name if getattr(gm, "_mod", None) is not None else m.name) + ":" + qualname(g)
            ctx.count("draws traced")
            k = (gkey, d)
            ok_owner = gkey in RANDOM_OWNERS
            if gkey == "tdvp_sandwich:go" and not d.startswith("time."):
                ok_owner = False
            if not ok_owner:
                if ("o",) + k not in done:
                    done.add(("o",) + k)
                    ctx.violation("ambient-source", gkey.split(":")[0], qualname(g), d, "%s uses %s but is not documented as random" % (qualname(g), d),
                                  getattr(node, "lineno", None))
            elif q not in ENTRY_OK.get(m.name, ()) and not gkey.endswith(q):
                if (key, d) not in done:
                    done.add((key, d))
                    ctx.violation("reaches-random", m.name, q, d + " in " + qualname(g), "%s%s reaches a random draw in %s but is not documented as random" % (
                        (cls + " ") if cls else "", q, qualname(g)), None)
        for e in S.events.values():
            if e.path[1].startswith("<global>"):
                k = (key, e.path)
                if k not in done:
                    done.add(k)
                    ctx.violation("module-state", m.name, qualname(e.fn), short(e.path), "%s modifies the module-level object %s" % (q, short(e.path)),
                                  getattr(e.node, "lineno", None))

    for c in STATES:
        if c not in prog.classes:
            continue
        for k in prog.mro(c):
            for nm, f in k._methods.items():
                if prog.method(c, nm) is f:
                    judge(E, f._mod, f, c)
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda) or m.name in ("dynamics", "cuda_alternatives") or f.name == "go" or isinstance(getattr(f, "_parent", None), ast.FunctionDef):
            continue
        cl = getattr(f, "_cls", None)
        if cl is not None and cl.name in STATES:
            continue
        if not hasattr(f, "_mod"):
            f._mod = m
        judge(E, m, f, cl.name if cl is not None else None)
    classes = ["EvoMPS_TDVP_Generic", "EvoMPS_TDVP_Uniform", "EvoMPS_TDVP_Sandwich"]
    for c in classes:
        E2 = Effects(prog, Hint(c))
        E2.api = api
        for m, f in prog.all_functions():
            if isinstance(f, ast.Lambda) or isinstance(getattr(f, "_parent", None), ast.FunctionDef):
                continue
            if m.name == "dynamics" or f.name == "go" and c.endswith("Sandwich"):
                if not hasattr(f, "_mod"):
                    f._mod = m
                judge(E2, m, f, None)
        for k, n in E2.unknown_calls.items():
            ctx.undec("call " + str(k), "receiver unknown (%d sites)" % n)
    for k, n in sorted(E.unknown_calls.items()):
        ctx.undec("call " + str(k), "receiver unknown (%d sites)" % n)
    noise_arguments(prog, ctx)
    hidden(prog, ctx, E)


def zero(n):
    if isinstance(n, ast.UnaryOp):
        n = n.operand
    return isinstance(n, ast.Constant) and n.value == 0


def noise_arguments(prog, ctx):
    """the expansion used inside a time step adds no noise to the tensors"""
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda):
            continue
        for n in own_nodes(f):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            if n.func.attr == "expand_D" and not f.name in ("expand_D", "import_state", "load_state"):
                ctx.count("expansions without noise")
                fac = dict(zip(("refac", "imfac"), n.args[1:]))
                fac.update({k.arg: k.value for k in n.keywords})
                for a in ("refac", "imfac"):
                    v = fac.get(a)
                    if v is None and a == "refac" or v is not None and not resolves_zero(f, v):
                        ctx.violation("noise-in-step", m.name, qualname(f), a + " of expand_D", "%s expands the bond dimension with random entries of size %s" % (
                            qualname(f), ast.unparse(v) if v is not None else "default (100)"), n.lineno)


def resolves_zero(f, v):
    if zero(v):
        return True
    if isinstance(v, ast.Name):
        asg = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v.id]
        return bool(asg) and all(zero(x) for x in asg)
    return False


def own_nodes(f):
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


MUT = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)
MUTMETH = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "sort", "fill"}


def mutations(tree, attr):
    """places that change the object held in attribute attr in place"""
    out = []
    for n in ast.walk(tree):
        t = None
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for t in ts:
                if isinstance(n, ast.AugAssign) and isinstance(t, ast.Attribute) and t.attr == attr:
                    out.append(n)
                while isinstance(t, ast.Subscript):
                    t = t.value
                    if isinstance(t, ast.Attribute) and t.attr == attr:
                        out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTMETH:
            b = n.func.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Attribute) and b.attr == attr:
                out.append(n)
    return out


def hidden(prog, ctx, E):
    classnames = set(prog.classes)
    for m in prog.mods.values():
        if m.name == "cuda_alternatives":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    tg = [t.id for t in s.targets if isinstance(t, ast.Name)] if isinstance(s, ast.Assign) else \
                        [s.target.id] if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name) else []
                    if not tg or not isinstance(s.value, MUT):
                        continue
                    for a in tg:
                        ctx.count("class-level objects")
                        own = any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"
                                  for f in n.body if isinstance(f, ast.FunctionDef) and f.name == "__init__" for x in ast.walk(f))
                        if own:
                            continue
                        for mm in prog.mods.values():
                            for x in mutations(mm.tree, a):
                                ctx.violation("class-state", m.name, n.name, a, "%s.%s is one object shared by all instances and is modified (line %d of %s)" % (
                                    n.name, a, x.lineno, mm.name), x.lineno)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                a = n.args
                allp = list(a.posonlyargs) + list(a.args)
                ds = [None] * (len(allp) - len(a.defaults)) + list(a.defaults)
                muts = [(p.arg, d) for p, d in list(zip(allp, ds)) + list(zip(a.kwonlyargs, a.kw_defaults)) if isinstance(d, MUT)]
                ctx.count("signatures with defaults checked")
                if isinstance(n, ast.FunctionDef) and muts:
                    if not hasattr(n, "_mod"):
                        n._mod = m
                    cl = getattr(n, "_cls", None)
                    S = E.summary(n, cl.name if cl is not None else None)
                    for p, d in muts:
                        ev = [e for e in S.events.values() if e.path[1] == p]
                        kept = [1 for (l, s), v in S.heap.items() if l[0] == "p" and l[1] != p for x, tr in reach(S, v) if x[1] == p]
                        rets = [1 for x, tr in reach(S, S.ret) if x[1] == p]
                        if ev or kept or rets:
                            ctx.violation("mutable-default", m.name, qualname(n), p, "default value of %s is one object shared by all calls and is %s" % (
                                p, "modified" if ev else "kept or returned"), n.lineno)
            if isinstance(n, (ast.Global,)):
                ctx.violation("global-statement", m.name, qualname(enclosing(n)), ",".join(n.names), "module-level name(s) %s rebound at run time" % ", ".join(n.names), n.lineno)
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    t = ast.unparse(d)
                    if "cache" in t and "cached_property" not in t or t.startswith("memo"):
                        ctx.violation("memoised", m.name, qualname(n), t, "%s keeps results between calls of independent objects" % qualname(n), n.lineno)
                ctx.count("functions checked for hidden state")
                for x in own_nodes(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                        b = x.value
                        while isinstance(b, (ast.Subscript, ast.Attribute)):
                            if isinstance(b, ast.Attribute) and b.attr in ("__class__", "__dict__") and not isinstance(x, ast.Attribute):
                                break
                            b = b.value
                        owner = None
                        if isinstance(b, ast.Name) and b.id in classnames and b.id not in locals_of(n):
                            owner = b.id
                        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                            owner = "type(...)"
                        elif isinstance(x.value, ast.Attribute) and x.value.attr == "__class__":
                            owner = "__class__"
                        elif isinstance(b, ast.Name) and b.id == "cls" and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in n.decorator_list):
                            owner = "cls"
                        elif isinstance(b, ast.Name) and b.id not in locals_of(n) and isinstance(prog.resolve_name(m, b.id), ast.FunctionDef):
                            owner = b.id
                        elif isinstance(b, ast.Name) and b.id not in locals_of(n) and not enclosing_locals(n, b.id):
                            r = prog.resolve_name(m, b.id)
                            if isinstance(r, tuple) and r[0] in ("lib", "pkgmod"):
                                owner = b.id
                        if owner:
                            ctx.violation("class-state", m.name, qualname(n), ast.unparse(x), "%s writes %s, which is shared by all objects" % (qualname(n), ast.unparse(x)), x.lineno)


def enclosing(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module)):
        n = getattr(n, "_parent", None)
    return n


def enclosing_locals(f, nm):
    p = getattr(f, "_parent", None)
    while p is not None:
        if isinstance(p, ast.FunctionDef) and nm in locals_of(p):
            return True
        p = getattr(p, "_parent", None)
    return False


def locals_of(f):
    r = getattr(f, "_loc19", None)
    if r is None:
        a = f.args
        r = {p.arg for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) + [x for x in (a.vararg, a.kwarg) if x]}
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
        f._loc19 = r
    return r
