"""C13: diagnostics only observe; process-wide settings are restored."""
import ast, json, os, re
from .repo import qualname
from .effects import Effects, AMBIENT
from .rules08 import engine, short
from .rules19 import own_nodes

DIAG = re.compile(r"^_?(sanity_checks?|verbose|print_progress|debug|brute_check|cb_func|callback|cb|quiet|progress|verbosity|dbg|print_.*|log_level|logging)$")
CB = re.compile(r"^(cb_func|callback|cb|cb_wrap)$")
LOGM = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}
# flags that choose what is computed although they sound like diagnostics
# (dry-run modes: the evolution is replaced by printing local energies; the canonical form is renormalised first)
NOTDIAG = {("split_step", "evolve_split", "debug"), ("mps_sandwich", "EvoMPS_MPS_Sandwich.restore_CF", "dbg"),
           ("mps_sandwich", "EvoMPS_MPS_Sandwich._restore_CF_diag", "dbg")}
GLOBAL_SET = re.compile(r"(^|\.)(seterr|seterrcall|setbufsize|set_printoptions|set_string_function|basicConfig|setLevel|disable|addHandler|removeHandler|filterwarnings|simplefilter|"
                        r"resetwarnings|setrecursionlimit|settrace|setprofile|setlocale|chdir|umask|putenv|unsetenv|signal|alarm|setcheckinterval|setswitchinterval|"
                        r"set_num_threads|excepthook|captureWarnings|set_state|seed|setstate)$")


def diagnames(f):
    """names of the function that carry a diagnostic switch"""
    names = set()
    p = f
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            a = p.args
            q = qualname(p) if isinstance(p, ast.FunctionDef) else ""
            m = getattr(p, "_mod", None)
            names |= {x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) if DIAG.match(x.arg)
                      and (m.name if m else None, q, x.arg) not in NOTDIAG}
        p = getattr(p, "_parent", None)
    changed = True
    while changed:
        changed = False
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in names \
                    and isdiag(n.value, names) and boolean(n.value):
                names.add(n.targets[0].id)
                changed = True
    return names


def isdiag(e, names):
    """the expression reads a diagnostic switch"""
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id in names:
            return True
        if isinstance(n, ast.Attribute) and DIAG.match(n.attr) and isinstance(n.ctx, ast.Load) and not is_log(n):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("isEnabledFor", "getEffectiveLevel"):
            return True
        if isinstance(n, ast.Name) and n.id == "__debug__":
            return True
    return False


def is_log(n):
    return isinstance(n, ast.Attribute) and n.attr in LOGM and isinstance(n.value, ast.Name) and re.match(r"^_?(log|logger|logging)$", n.value.id) is not None


def boolean(e):
    if isinstance(e, ast.BoolOp):
        return True
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return True
    if isinstance(e, ast.Compare):
        return len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot))
    return isinstance(e, (ast.Name, ast.Attribute))


def is_logcall(n):
    if not isinstance(n, ast.Call):
        return False
    if isinstance(n.func, ast.Name) and n.func.id == "print":
        return True
    if is_log(n.func):
        return True
    return isinstance(n.func, ast.Attribute) and ast.unparse(n.func) in ("sys.stdout.write", "sys.stderr.write", "sys.stdout.flush", "sys.stderr.flush", "warnings.warn")


class Live(object):
    """names read after a point (structured liveness); diagnostic bodies neither read nor write"""
    def __init__(self, f, diagifs):
        self.diag = diagifs
        self.after = {}
        self.free = set()
        # names captured by nested functions stay live
        for n in ast.walk(f):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        self.free.add(x.id)
        self.block(f.body, set(), set(), set())

    def reads(self, e):
        if e is None:
            return set()
        out = set()
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        return out

    def block(self, body, live, brk, cont):
        live = set(live)
        for s in reversed(body):
            self.after[id(s)] = set(live)
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, live, brk, cont):
        if id(s) in self.diag:
            self.block_quiet(s)
            return live
        if isinstance(s, (ast.Return, ast.Raise)):
            return self.reads(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.If):
            return self.block(s.body, live, brk, cont) | self.block(s.orelse, live, brk, cont) | self.reads(s.test)
        if isinstance(s, (ast.While, ast.For)):
            out = set(live)
            exitl = self.block(s.orelse, live, brk, cont)
            for i in range(3):
                head = exitl | (self.reads(s.test) if isinstance(s, ast.While) else set())
                top = head | out
                b = self.block(s.body, top, live, top)
                if isinstance(s, ast.For):
                    b = b - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                out = top | b
            return out | (self.reads(s.iter) if isinstance(s, ast.For) else set())
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, live, brk, cont)
            h = set()
            for x in s.handlers:
                h |= self.block(x.body, fin, brk | fin, cont | fin)
            o = self.block(s.orelse, fin, brk, cont)
            b = self.block(s.body, o | h, brk, cont)
            return b | h
        if isinstance(s, ast.With):
            b = self.block(s.body, live, brk, cont)
            for i in s.items:
                b |= self.reads(i.context_expr)
            return b
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return live - {s.name}
        if isinstance(s, ast.Assign):
            kill = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    kill |= {x.id for x in t.elts if isinstance(x, ast.Name)}
            r = self.reads(s.value)
            for t in s.targets:
                r |= self.reads(t)
            return (live - kill) | r
        if isinstance(s, ast.AugAssign):
            return live | self.reads(s.value) | self.reads(s.target) | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        return live | self.reads(s)

    def block_quiet(self, s):
        pass


def pseudo(E, prog, f, stmts, cls, mod):
    """summary of a piece of a function seen as a function of everything it reads"""
    loads, stores = set(), set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name):
                (loads if isinstance(n.ctx, ast.Load) else stores).add(n.id)
    local = set()
    p = f
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            a = p.args
            local |= {x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) + [y for y in (a.vararg, a.kwarg) if y]}
            if isinstance(p, ast.FunctionDef):
                for n in own_nodes(p):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        local.add(n.id)
                    elif isinstance(n, ast.FunctionDef):
                        local.discard(n.name)
        p = getattr(p, "_parent", None)
    nested = set()
    p = f
    while p is not None:
        if isinstance(p, ast.FunctionDef):
            nested |= {n.name for n in own_nodes(p) if isinstance(n, ast.FunctionDef)}
        p = getattr(p, "_parent", None)
    scal = E.scalars(f) if isinstance(f, ast.FunctionDef) else set()
    params = sorted((local & (loads | stores)) - nested - scal)
    fn = ast.FunctionDef(name="<diag>", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in params], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=list(stmts), decorator_list=[], returns=None)
    fn._mod = mod
    fn._parent = f
    return E.summary(fn, cls), set(params)


def guard_return(f, i):
    """`if not switch: return` (or continue) makes the rest of the block the diagnostic body"""
    if i.orelse or len(i.body) != 1:
        return None
    par = getattr(i, "_parent", None)
    b = i.body[0]
    if isinstance(b, ast.Return) and (b.value is None or isinstance(b.value, ast.Constant) and b.value.value is None) and par is f:
        rest = f.body[f.body.index(i) + 1:]
    elif isinstance(b, ast.Continue) and isinstance(par, (ast.For, ast.While)) and i in par.body:
        rest = par.body[par.body.index(i) + 1:]
    else:
        return None
    return rest or None


def harmless(s):
    """control transfer out of a diagnostic body"""
    out = []

    def walk(n, inloop):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, ast.Return):
                out.append(("return", c))
            elif isinstance(c, (ast.Break, ast.Continue)) and not inloop:
                out.append(("break" if isinstance(c, ast.Break) else "continue", c))
            walk(c, inloop or isinstance(c, (ast.For, ast.While)))
    walk(ast.Module(body=list(s), type_ignores=[]), False)
    return out


def c13(prog, ctx):
    E = engine(prog)
    api = None
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda) or m.name == "cuda_alternatives":
            continue
        if not hasattr(f, "_mod"):
            f._mod = m
        ctx.count("functions analysed")
        ctx.analysed.add(m.name + ":" + qualname(f))
        try:
            one(prog, ctx, E, m, f)
        except RecursionError:
            ctx.undec(qualname(f), "recursion")
        settings(prog, ctx, m, f)
    module_settings(prog, ctx)


def one(prog, ctx, E, m, f):
    q = qualname(f)
    names = diagnames(f)
    cls = None
    p = f
    while p is not None:
        if getattr(p, "_cls", None) is not None:
            cls = p._cls.name
            break
        p = getattr(p, "_parent", None)
    if CB.match(f.name) and isinstance(getattr(f, "_parent", None), (ast.FunctionDef, ast.If)):
        S = E.summary(f, cls)
        ctx.count("callback wrappers")
        for e in S.events.values():
            ctx.violation("callback-effect", m.name, q, short(e.path[:4]), "%s: the callback wrapper changes %s" % (q, short(e.path)), getattr(e.node, "lineno", f.lineno))
        for d, node, g in S.draws:
            if "rand" in d:
                ctx.violation("callback-random", m.name, q, d, "%s draws random numbers" % q, f.lineno)
    ifs = []
    todo = [(s, False) for s in f.body]
    nodes = []
    while todo:
        n, ind = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        nodes.append((n, ind))
        d = ind
        if isinstance(n, ast.If) and isdiag(n.test, names):
            if not ind:
                ifs.append(n)
            for c in n.body + n.orelse:
                todo.append((c, True))
            todo.append((n.test, ind))
            continue
        for c in ast.iter_child_nodes(n):
            todo.append((c, ind))
    # 1. switches used elsewhere than in tests
    for n, ind in nodes:
        if ind:
            continue
        use = None
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            use = n.id
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and DIAG.match(n.attr) and not is_log(n) and not (isinstance(n.value, ast.Name) and n.value.id in ("sp", "np", "la", "log")):
            use = n.attr
        if use is None:
            continue
        ctx.count("uses of diagnostic switches")
        if allowed_use(n, f, names, ifs):
            continue
        ctx.violation("switch-in-computation", m.name, q, use, "the diagnostic switch %s takes part in the computation of %s: %s" % (
            use, q, ast.unparse(stmt_of(n))[:80]), getattr(n, "lineno", None))
    if not ifs:
        logs(prog, ctx, E, m, f, q, cls, set())
        return
    live = Live(f, {id(i) for i in ifs})
    inner = set()
    for i in ifs:
        ctx.count("diagnostic branches")
        for st in [i] + (guard_return(f, i) or []):
            for x in ast.walk(st):
                inner.add(id(x))
        early = guard_return(f, i)
        for branch in (i.body, early if early is not None else i.orelse):
            if not branch:
                continue
            for kind, c in harmless(branch):
                if early is not None and (branch is i.body or kind == "return" and c.value is None):
                    continue
                ctx.violation("diagnostic-control-flow", m.name, q, kind + " under " + ast.unparse(i.test), "%s: '%s' only when the switch %s is on" % (
                    q, kind, ast.unparse(i.test)), c.lineno)
            S, params = pseudo(E, prog, f, branch, cls, m)
            assigned = {n.id for st in branch for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            for nm in sorted(assigned & (live.after[id(i)] | live.free)):
                if CB.match(nm):
                    continue                  # the callback itself, wrapped
                ctx.violation("diagnostic-assignment", m.name, q, nm + " under " + ast.unparse(i.test), "%s: the variable %s is set only when %s and used afterwards" % (
                    q, nm, ast.unparse(i.test)), i.lineno)
            seen = set()
            for e in S.events.values():
                r = e.path[1]
                if operator_object(prog, m, f, r):
                    continue
                if r in assigned and r not in live.after[id(i)] and len(e.path) == 2:
                    continue
                if onlydiag(f, r, inner, ifs):
                    continue
                k = short(e.path[:4])
                if k in seen:
                    continue
                seen.add(k)
                ctx.violation("diagnostic-effect", m.name, q, k + " under " + ast.unparse(i.test), "%s changes %s only when %s (in %s, line %s)" % (
                    q, short(e.path), ast.unparse(i.test), qualname(e.fn), getattr(e.node, "lineno", "?")), getattr(e.node, "lineno", i.lineno))
            for d, node, g in S.draws:
                if "rand" in d:
                    ctx.violation("diagnostic-random", m.name, q, d + " under " + ast.unparse(i.test), "%s draws random numbers only when %s" % (q, ast.unparse(i.test)), i.lineno)
            ctx.count("diagnostic bodies summarised")
    logs(prog, ctx, E, m, f, q, cls, inner)


def operator_object(prog, m, f, name):
    """a local name bound to a linear operator built by the package; applying it may use its own scratch arrays"""
    ok = False
    p = f
    while p is not None:
        if isinstance(p, ast.FunctionDef):
            a = p.args
            if name in {x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)}:
                return False
            for n in ast.walk(p):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                    if not isinstance(n.value, ast.Call) or not makes_operator(prog, m, n.value, p):
                        return False
                    ok = True
        p = getattr(p, "_parent", None)
    return ok


def returns_operator(prog, g, depth):
    rets = [n for n in own_nodes(g) if isinstance(n, ast.Return)]
    if not rets:
        return False
    for r in rets:
        v = r.value
        if isinstance(v, ast.Name):
            if not operator_object(prog, g._mod, g, v.id):
                return False
        elif not (isinstance(v, ast.Call) and makes_operator(prog, g._mod, v, g, depth + 1)):
            return False
    return True


def makes_operator(prog, m, call, f, depth=0):
    d = ast.unparse(call.func)
    nm = d.split(".")[-1]
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == nm and depth < 2:
            v = x.value
            if isinstance(v, ast.IfExp):
                return True
            if isinstance(v, (ast.Name, ast.Attribute)):
                if not makes_operator(prog, m, ast.Call(func=v, args=[], keywords=[]), f, depth + 1):
                    return False
                return True
    c = prog.classes.get(nm)
    if c is None and depth < 3:
        cands = [g for mm, g in prog.all_functions() if isinstance(g, ast.FunctionDef) and g.name == nm]
        if cands and all(returns_operator(prog, g, depth) for g in cands):
            return True
    if c is None:
        return nm in ("LinearOperator", "aslinearoperator")
    return prog.method(nm, "matvec") is not None


def onlydiag(f, name, inner, ifs):
    """a local that only diagnostic code reads"""
    if name == "self":
        return False
    a = f.args
    if name in {x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) + [y for y in (a.vararg, a.kwarg) if y]}:
        return False
    reads = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
    return bool(reads) and all(id(n) in inner for n in reads)


def stmt_of(n):
    while n is not None and not isinstance(n, ast.stmt):
        n = getattr(n, "_parent", None)
    return n if not isinstance(n, (ast.FunctionDef, ast.For, ast.While)) else ast.Pass()


def allowed_use(n, f, names, ifs):
    p, c = getattr(n, "_parent", None), n
    while p is not None and not isinstance(p, ast.FunctionDef):
        if isinstance(p, ast.If) and c is p.test:
            return True
        if isinstance(p, ast.keyword):
            return not isinstance(p.value, (ast.IfExp, ast.BinOp, ast.Subscript, ast.Call))   # handed on to the callee's own switch
        if isinstance(p, ast.Call):
            if c in p.args or c is p.func and isinstance(n, ast.Name) and CB.match(n.id):
                if is_logcall(p) or c in p.args and direct(n, c):
                    return True
                if c is p.func:
                    return isinstance(getattr(p, "_parent", None), ast.Expr)
        if isinstance(p, ast.Assert):
            return True
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and DIAG.match(t.attr) or isinstance(t, ast.Name) and (t.id in names or DIAG.match(t.id)):
                    return True
            return False
        if isinstance(p, ast.Return):
            # property getters of the switch itself
            return f.name in ("sanity_checks", "verbose", "debug")
        if isinstance(p, ast.Expr) and c is p.value and not isinstance(c, ast.Call):
            return True
        p, c = getattr(p, "_parent", None), p
    return False


def direct(n, arg):
    return n is arg


def logs(prog, ctx, E, m, f, q, cls, inner):
    for n in own_nodes(f):
        if isinstance(n, ast.Expr) and is_logcall(n.value) and id(n) not in inner:
            if all(isinstance(x, (ast.Constant, ast.Name)) for x in n.value.args):
                ctx.count("log calls")
                continue
            ctx.count("log calls")
            S, params = pseudo(E, prog, f, [n], cls, m)
            seen = set()
            for e in S.events.values():
                k = short(e.path[:4])
                if k in seen or operator_object(prog, m, f, e.path[1]):
                    continue
                seen.add(k)
                ctx.violation("log-effect", m.name, q, k + " in " + ast.unparse(n.value.func), "%s: evaluating the arguments of a log call changes %s" % (q, short(e.path)), n.lineno)
            for d, node, g in S.draws:
                if "rand" in d:
                    ctx.violation("log-random", m.name, q, d, "%s draws random numbers in a log call" % q, n.lineno)
        elif isinstance(n, ast.Assert):
            ctx.count("assertions")
            if all(not isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n.test)):
                continue
            S, params = pseudo(E, prog, f, [n], cls, m)
            for e in S.events.values():
                ctx.violation("assert-effect", m.name, q, short(e.path[:4]), "%s: an assert statement changes %s" % (q, short(e.path)), n.lineno)


def bound_here(f, name):
    p = f
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            a = p.args
            if name in {x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs) + [y for y in (a.vararg, a.kwarg) if y]}:
                return True
            if isinstance(p, ast.FunctionDef) and any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name for n in own_nodes(p)):
                return True
        p = getattr(p, "_parent", None)
    return False


def settings(prog, ctx, m, f):
    """process-wide settings changed by a call are put back on every exit"""
    q = qualname(f)
    restoring = set()
    calls = []
    for n in own_nodes(f):
        if isinstance(n, ast.Call):
            d = ast.unparse(n.func)
            if GLOBAL_SET.search("." + d) and (d.split(".")[0] in ("sp", "np", "scipy", "numpy", "warnings", "logging", "log", "sys", "os", "locale", "signal", "random", "gc", "threading", "np.random")
                                             or "." not in d):
                if "." not in d:
                    r = prog.resolve_name(m, d)
                    if not (isinstance(r, tuple) and r[0] == "lib"):
                        continue
                calls.append((n, d))
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript) and ast.unparse(t.value) == "os.environ":
                    ctx.violation("process-setting", m.name, q, ast.unparse(t), "%s changes the process environment" % q, n.lineno)
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ("sys", "warnings", "logging", "log") \
                        and not bound_here(f, t.value.id):
                    ctx.violation("process-setting", m.name, q, ast.unparse(t), "%s changes %s" % (q, ast.unparse(t)), n.lineno)
    if not calls:
        return
    # the calls that restore: inside a finally clause
    infinal = set()
    incatch = set()
    for n in own_nodes(f):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                for x in ast.walk(s):
                    infinal.add(id(x))
        if isinstance(n, ast.With) and any("catch_warnings" in ast.unparse(i.context_expr) for i in n.items):
            for s in n.body:
                for x in ast.walk(s):
                    incatch.add(id(x))
    for n, d in calls:
        ctx.count("process-wide settings")
        last = d.split(".")[-1]
        if id(n) in infinal:
            continue
        if id(n) in incatch and last in ("filterwarnings", "simplefilter", "resetwarnings"):
            continue
        if last == "seterr" and restored(prog, f, n):
            continue
        ctx.violation("process-setting", m.name, q, d, "%s calls %s and does not put the setting back on every exit" % (q, d), n.lineno)


def helper_restores(prog, call):
    nm = ast.unparse(call.func).split(".")[-1]
    for mm, g in prog.all_functions():
        if isinstance(g, ast.FunctionDef) and g.name == nm:
            return any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "seterr" and
                       any(k.arg is None or isinstance(k.value, ast.Subscript) for k in x.keywords) for x in ast.walk(g))
    return False


def module_settings(prog, ctx):
    for m in prog.mods.values():
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            kids = list(ast.iter_child_nodes(n))
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                kids = [x for x in n.args.defaults + n.args.kw_defaults if x is not None] + list(getattr(n, "decorator_list", []))
            todo.extend(kids)
            if isinstance(n, ast.Call):
                d = ast.unparse(n.func)
                if GLOBAL_SET.search("." + d) and d.split(".")[0] in ("sp", "np", "scipy", "numpy", "warnings", "sys", "os", "locale", "signal", "random", "gc", "threading"):
                    ctx.violation("process-setting", m.name, "(module)", d, "importing %s calls %s" % (m.name, d), n.lineno)


def restored(prog, f, call):
    """old = seterr(a=..., b=...); try: ... finally: seterr(a=old['a'], b=old['b']) or seterr(**old)"""
    st = getattr(call, "_parent", None)
    if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
        return False
    old = st.targets[0].id
    par = getattr(st, "_parent", None)
    tries = []
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(par, fld, None)
        if isinstance(b, list) and st in b:
            i = b.index(st)
            for s in b[i + 1:]:
                if isinstance(s, ast.Try):
                    tries.append(s)
                    break
                if any(isinstance(x, (ast.Call, ast.BinOp, ast.Subscript, ast.Return)) for x in ast.walk(s)):
                    break
    # set within the try whose finally restores
    p, c = par, st
    while p is not None and not isinstance(p, ast.FunctionDef):
        if isinstance(p, ast.Try):
            tries.append(p)
        p = getattr(p, "_parent", None)
    keys = {k.arg for k in call.keywords}
    for t in tries:
        back = set()
        for s in t.finalbody:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == old for a in x.args) and helper_restores(prog, x):
                    back |= keys | {"all", "divide", "over", "under", "invalid"}
                if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "seterr":
                    for k in x.keywords:
                        if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == old:
                            back |= keys | {"all", "divide", "over", "under", "invalid"}
                        elif isinstance(k.value, ast.Subscript) and isinstance(k.value.value, ast.Name) and k.value.value.id == old and \
                                isinstance(k.value.slice, ast.Constant) and k.value.slice.value == k.arg:
                            back.add(k.arg)
        need = {"divide", "over", "under", "invalid"} if "all" in keys else keys
        if need <= back:
            return True
    return False
