"""C15: comparison of the option flows of the current tree with the documented ones (data/options.json)."""
import ast, json, os
from .repo import qualname
from . import rules15

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# parameters that only shape messages, or exist for interface compatibility
NOT_OPTIONS = {"verbose", "sc_data", "order", "dbg", "print_progress", "print_eta_n", "res"}


def freeze(prog):
    inv = rules15.inventory(prog)
    out = {}
    for k, v in inv.items():
        out[k] = {x: v[x] for x in ("params", "used", "sites", "eff", "defaults")}
    return out


def parse(v):
    tags, _, const = v.rpartition("|")
    t = {}
    for x in tags.split(";"):
        if x:
            n, _, k = x.rpartition(":")
            t[n] = k
    return t, const


def run(prog, ctx):
    want = json.load(open(os.path.join(ROOT, "data", "options.json")))
    inv = rules15.inventory(prog)
    pk = rules15.pkg_names(prog)
    seen = set()
    # pure numerical kernels: an additional call decides nothing
    kernels = set()
    for m in prog.mods.values():
        if m.name in ("matmul", "core_common", "tdvp_calc_C", "eps_maps_c"):
            kernels |= set(m.funcs)
            for c in m.classes.values():
                kernels |= set(c._methods)

    def viol(rule, fn, construct, msg):
        # inherited operations are reported once
        key = (rule, qualname(fn), construct)
        if key in seen:
            return
        seen.add(key)
        ctx.violation(rule, "evoMPS/%s.py" % fn._mod.name, qualname(fn), construct, msg, fn.lineno)

    for name, new in sorted(inv.items()):
        fn = new["fn"]
        ctx.analysed.add(qualname(fn))
        flows = set(new["used"])
        for t, line, q in new["over"]:
            if t in new["params"]:
                viol("overwritten-option", fn, t, "the given value of option '%s' is replaced (line %d)" % (t, line))
        for key, vals in new["sites"].items():
            for v in vals if not key.endswith("|<keywords>") else ():
                flows |= set(parse(v)[0])
        # ---- no documented option is without any use
        for p in new["params"]:
            if p in NOT_OPTIONS or p not in new["defaults"]:
                continue
            ctx.count("options of public operations")
            if p not in flows and not is_stub(fn):
                viol("ignored-option", fn, p, "the option '%s' has no effect: its value reaches no computation, test, call or field" % p)
            elif p not in flows and is_stub(fn):
                viol("ignored-option", fn, "stub", "the operation is empty: its options have no effect")
        old = want.get(name)
        if old is None:
            continue
        base = name.split(".")[-1]
        ren = None
        # ---- defaults and signatures
        for p, d in old["defaults"].items():
            if p in new["defaults"]:
                ctx.count("defaults compared")
                if d != "?" and new["defaults"][p] != "?" and not same_const(new["defaults"][p], d):
                    viol("changed-default", fn, p, "option '%s' defaults to %s, documented default is %s" % (p, new["defaults"][p], d))
        isopt = lambda t: t.startswith("self.") or t in new["params"]
        # ---- every option that was used is still used
        for t in old["used"]:
            if t in NOT_OPTIONS or not isopt(t):
                continue
            ctx.count("options with a use")
            if t not in flows:
                if t.startswith("self.") and not class_reads(prog, name, t):
                    viol("ignored-option", fn, t, "the setting '%s' no longer influences %s()" % (t, base))
                elif not t.startswith("self."):
                    viol("ignored-option", fn, t, "the option '%s' has no effect: its value reaches no computation, test, call or field" % t)
                else:
                    viol("ignored-option", fn, t, "the setting '%s' no longer influences %s()" % (t, base))
        # ---- values handed on
        for key, v0 in old["sites"].items():
            v1 = new["sites"].get(key)
            if not v1:
                continue
            callee, param = key.split("|")
            if param == "<keywords>":
                for ks in v1:
                    if ks in v0:
                        continue
                    ks = set(ks.split(","))
                    for ko in v0:
                        ko = set(ko.split(","))
                        if ks < ko:
                            for k in sorted(ko - ks):
                                ts = [t for v in old["sites"].get(callee + "|" + k, ()) for t in parse(v)[0] if isopt(t) and t not in NOT_OPTIONS]
                                if ts and all(k in x.split(",") or x not in v0 for x in v0 if set(x.split(",")) >= ks):
                                    viol("not-forwarded", fn, "%s -> %s(%s)" % (ts[0], callee, k), "%s(%s=...) is left out of a call, the option '%s' is not forwarded" % (callee, k, ts[0]))
                continue
            p0 = [parse(v) for v in v0]
            p1 = [parse(v) for v in v1]
            if any(c == "*" for _, c in p0 + p1):
                continue
            tags = {t for ts, _ in p0 for t in ts if isopt(t) and t.lstrip("self.") not in NOT_OPTIONS and t not in NOT_OPTIONS}
            for t in tags:
                ctx.count("options followed to a call")
                k0 = {ts.get(t, "-") for ts, _ in p0}
                k1 = {ts.get(t, "-") for ts, _ in p1}
                if k1 == k0 or k1 < k0 and k1 != {"-"}:
                    continue
                if "-" in k1 and "e" not in k0 and k1 != {"-"}:
                    continue        # a further call of the same function with other data
                if "-" in k1 and k1 != {"-"} and (callee not in pk or t in new["params"] and t not in new["defaults"]):
                    continue
                what = "the %s '%s'" % ("setting" if t.startswith("self.") else "option", t)
                if k1 == {"-"}:
                    viol("not-forwarded", fn, "%s -> %s(%s)" % (t, callee, param), "%s is no longer handed to %s(%s=...)%s" % (what, callee, param, got(p1)))
                elif "-" in k1 and "-" not in k0:
                    viol("not-forwarded", fn, "%s -> %s(%s)" % (t, callee, param), "%s is not handed to every %s(%s=...)%s" % (what, callee, param, got(p1, t)))
                elif "d" in k1 and "d" not in k0 and "e" in k0:
                    viol("altered-option", fn, "%s -> %s(%s)" % (t, callee, param), "%s is handed to %s(%s=...) changed" % (what, callee, param))
            # fixed values of option-like parameters of package functions
            if callee in pk:
                c0 = {c for ts, c in p0}
                c1 = {c for ts, c in p1}
                if "?" not in c0 | c1 and c0 and c1 and not any(ts for ts, _ in p0 + p1):
                    ctx.count("fixed values compared")
                    extra = {c for c in c1 if not any(same_const(c, d) for d in c0)}
                    lost = {c for c in c0 if not any(same_const(c, d) for d in c1)}
                    if extra:
                        viol("changed-setting", fn, "%s(%s)" % (callee, param), "%s() is called with %s=%s, the operation is documented to use %s" %
                             (callee, param, ", ".join(sorted(extra)), ", ".join(sorted(c0))))
                    elif lost:
                        viol("changed-setting", fn, "%s(%s)" % (callee, param), "%s() is no longer called with %s=%s" % (callee, param, ", ".join(sorted(lost))))
        # ---- what the options decide
        tested0, tested1 = tests(old["eff"]), tests(new["eff"])
        for t, ks in tested0.items():
            if not isopt(t) or t in NOT_OPTIONS:
                continue
            ctx.count("options that decide something")
            if t not in tested1 and any(not k.startswith("via") for k in ks):
                viol("not-governed", fn, t, "the option '%s' decides nothing any more (documented: %s)" % (t, ", ".join(sorted(cond(t, k) for k in ks)[:3])))
        for e, g0 in old["eff"].items():
            g1 = new["eff"].get(e)
            if g1 is None:
                continue
            for key, s0 in g0.items():
                t, _, test = key.partition("|")
                if not isopt(t) or t in NOT_OPTIONS or test.startswith("via"):
                    continue
                ctx.count("guards compared")
                s1 = g1.get(key)
                what = "%s() in %s()" % (e, base) if not e.endswith("=") and e != "raise" else "'%s' in %s()" % (e, base)
                shown = cond(t, test)
                if s1 is None:
                    other = [k for k in g1 if k.partition("|")[0] == t]
                    if other or test not in tested1.get(t, ()):
                        ctx.undec("%s: %s under %s" % (name, e, shown), "the condition is written differently")
                        continue
                    if s0 in ("+", "-"):
                        viol("not-governed", fn, "%s / %s" % (t, e), "%s was done only when %s %s; the option no longer decides it" %
                             (what, shown, "holds" if s0 == "+" else "does not hold"))
                    continue
                weighty = e in pk and e not in kernels or e == "raise" or e.startswith("self.") and own_attr(prog, fn, e)
                for x, y in (("+", "-"), ("-", "+")):
                    if x in s1 and not weighty:
                        continue            # helpers and array operations occur in every branch
                    if x in s0 and y not in s0 and y in s1:
                        if x in s1:
                            viol("inverted-option", fn, "%s / %s" % (t, e), "%s is now also done when %s %s" % (what, shown, "holds" if y == "+" else "does not hold"))
                        else:
                            viol("inverted-option", fn, "%s / %s" % (t, e), "%s is done when %s %s; documented is the opposite" %
                                 (what, shown, "holds" if y == "+" else "does not hold"))
                        break
                else:
                    if s0 in ("+", "-") and "0" in s1 and weighty:
                        viol("not-governed", fn, "%s / %s" % (t, e), "%s was done only when %s %s; it is now also done regardless" %
                             (what, shown, "holds" if s0 == "+" else "does not hold"))


def own_attr(prog, fn, e):
    """The assigned field belongs to the state class (not to an operator object built during the operation)."""
    cls = getattr(fn, "_cls", None)
    cls = getattr(cls, "name", cls)
    if not cls:
        return False
    n = e[5:].rstrip("=")
    return any(n == (x.attr if isinstance(x, ast.Attribute) else None) and isinstance(x.value, ast.Name) and x.value.id == "self"
               for c in prog.classes.values() if c.name in fam(prog, cls) for x in ast.walk(c) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))


def fam(prog, cls):
    out = {c.name for c in prog.mro(cls)}
    for c in prog.classes:
        if cls in {x.name for x in prog.mro(c)}:
            out |= {x.name for x in prog.mro(c)}
    return out


def tests(eff):
    out = {}
    for g in eff.values():
        for key in g:
            t, _, test = key.partition("|")
            out.setdefault(t, set()).add(test)
    return out


def cond(t, test):
    if test == "truth ":
        return t
    return "%s %s" % (t, test)


def got(ps, t=None):
    out = set()
    for ts, c in ps:
        if t is not None and t in ts:
            continue
        out.add(", ".join(sorted(ts)) if ts else c)
    out.discard("?")
    return " (it gets %s)" % " / ".join(sorted(out)) if out else ""


def same_const(a, b):
    if a == b:
        return True
    try:
        x, y = eval(a, {"__builtins__": {}}), eval(b, {"__builtins__": {}})
        return type(x) in (int, float) and type(y) in (int, float) and x == y
    except Exception:
        return False


def class_reads(prog, name, t):
    return False


def is_stub(fn):
    import ast
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, ast.Pass) for s in body) or not body or len(body) == 1 and isinstance(body[0], ast.Raise)


# conversions of a state carry over its data and settings: (method, result field) <- field of the given state or parameter
CARRIED = {
    "EvoMPS_TDVP_Uniform.from_mps": ("mps", ["A", "AA", "l", "r", "odr", "itr_rtol", "itr_atol", "zero_tol", "pow_itr_max", "ev_brute", "ev_use_arpack",
                                             "ev_arpack_nev", "ev_arpack_ncv", "ev_arpack_CUDA", "CUDA_batch_maxD", "symm_gauge", "sanity_checks", "check_fac",
                                             "eps", "userdata"], {}),
    "EvoMPS_TDVP_Sandwich.from_mps": ("mps", ["A", "l", "r", "D"], {"ham": "ham_C"}),
}


def conversions(prog, ctx):
    for name, (src, fields, params) in sorted(CARRIED.items()):
        cls, meth = name.split(".")
        fn = next((c._methods[meth] for m in prog.mods.values() for n, c in m.classes.items() if n == cls and meth in c._methods), None)
        if fn is None:
            ctx.undec(name, "no such conversion")
            continue
        args = [a.arg for a in fn.args.args]
        pos = args[1] if len(args) > 1 else src
        got, opaque = carried(prog, fn, {pos}, set(args), 0)
        for f in fields:
            t = got.get(f)
            if t is None:
                if opaque:
                    ctx.undec("%s.%s" % (name, f), "data passed to %s" % opaque)
                    continue
                ctx.violation("conversion", "evoMPS/%s.py" % fn._mod.name, qualname(fn), f, "the state built from another one does not take over its '%s'" % f, fn.lineno)
            elif f not in t and not any(x.startswith("?") for x in t):
                ctx.violation("conversion", "evoMPS/%s.py" % fn._mod.name, qualname(fn), f, "'%s' of the new state is taken from %s" % (f, "/".join(sorted(t)) or "a constant"), fn.lineno)
            else:
                ctx.count("fields carried over by a conversion")
        for f, p in params.items():
            if p not in args:
                ctx.undec("%s.%s" % (name, f), "no parameter " + p)
                continue
            t = got.get(f)
            if t is None and opaque:
                ctx.undec("%s.%s" % (name, f), "data passed to %s" % opaque)
            elif t is None or "=" + p not in t and not any(x.startswith("?") for x in t):
                ctx.violation("conversion", "evoMPS/%s.py" % fn._mod.name, qualname(fn), f, "the new state's '%s' is not the one given as '%s'" % (f, p), fn.lineno)
            else:
                ctx.count("fields carried over by a conversion")


def carried(prog, fn, srcs, params, depth):
    """({field of the result: fields of the source or =parameters it is computed from}, reason or None)"""
    ret = {n.value.id for n in ast.walk(fn) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    srcs = set(srcs)
    env = {}
    opaque = None
    for n in ast.walk(fn):              # aliases
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, ast.Name) and n.value.id in srcs:
                srcs.add(n.targets[0].id)
            elif isinstance(n.value, ast.Name) and n.value.id in ret:
                ret.add(n.targets[0].id)
            else:
                env.setdefault(n.targets[0].id, []).append(n.value)

    def orig(e, seen=()):
        r = set()
        used = {id(x.value) for x in ast.walk(e) if isinstance(x, ast.Attribute)}
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id in srcs and id(x) not in used:
                r.add("?whole")
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in srcs:
                r.add(x.attr)
            elif isinstance(x, ast.Name) and x.id in params and x.id not in srcs:
                r.add("=" + x.id)
            elif isinstance(x, ast.Name) and x.id in env and x.id not in seen and x.id not in ret:
                for v in env[x.id]:
                    r |= orig(v, seen + (x.id,))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr":
                r.add("?getattr")
        return r
    got = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                pairs = [(t, n.value)]
                if isinstance(t, (ast.Tuple, ast.List)):
                    vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else [n.value] * len(t.elts)
                    pairs = list(zip(t.elts, vs))
                for a, v in pairs:
                    while isinstance(a, (ast.Subscript, ast.Starred)):
                        a = a.value
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in ret and v is not None:
                        got.setdefault(a.attr, set()).update(orig(v))
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "?"
            if nm in ("setattr", "vars", "__dict__", "update") and (nm != "update" or isinstance(f.value, ast.Attribute)):
                opaque = nm
            elif isinstance(f, ast.Attribute) and nm in ("copyto", "fill", "extend", "append"):
                opaque = nm
            both = [a for a in n.args if isinstance(a, ast.Name) and a.id in srcs]
            if both and (any(isinstance(a, ast.Name) and a.id in ret for a in n.args) or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ret):
                opaque = nm
            if both and nm in ("copy", "deepcopy"):
                opaque = nm
    return got, opaque
