"""C12: failures are reported, and temporary state is restored on every exit.

 status    - the status component of every call to a status-returning routine is tested, returned or stored, and every failing
             value of it leads to a report (exception, log record, returned flag)
 handler   - a handler that catches a failure raises, logs, returns or takes another route, and the set of wide handlers is frozen
 attempts  - loops with a bounded number of attempts do not confuse success on the last attempt with exhaustion, leave the loop on
             success, and report exhaustion
 reports   - every report of a failure (raise, assert, log record) of the reference inventory is still made, under a condition with the
             same truth table over the same comparisons
 restore   - fields altered for the duration of a call are put back on every exit
"""
import ast, itertools, json, os, re
from .repo import qualname
from .rules19 import own_nodes
from .rules08 import engine, short

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "reports.json")

# routine -> (index of the status in the result, values that mean failure, values that mean success)
LIBSTATUS = {"trtri": (1, (-2, -1, 1, 2), (0,)), "potrf": (1, (-2, -1, 1, 2), (0,)), "potri": (1, (-2, -1, 1, 2), (0,)), "getrf": (2, (-1, 1), (0,)),
             "bicgstab": (1, (-1, 1, 5), (0,)), "bicg": (1, (-1, 1, 5), (0,)), "cg": (1, (-1, 1, 5), (0,)), "cgs": (1, (-1, 1, 5), (0,)),
             "gmres": (1, (-1, 1, 5), (0,)), "lgmres": (1, (-1, 1, 5), (0,)), "minres": (1, (-1, 1, 5), (0,)), "qmr": (1, (-1, 1, 5), (0,)),
             "gcrotmk": (1, (-1, 1, 5), (0,)), "solver": (1, (-1, 1, 5), (0,))}
PKGSTATUS = {"gexpmv": (1, (False,), (True,)), "_calc_lr": (1, (False,), (True,)), "_calc_lr_ARPACK": (1, (False,), (True,))}
FAILEXC = re.compile(r"(ArpackNoConvergence|LinAlgError|ValueError|RuntimeError|ArithmeticError|ZeroDivisionError|FloatingPointError|Exception|BaseException|EvoMPSNoConvergence|"
                     r"EvoMPSNormError|OverflowError|Warning)$")
DUCK = re.compile(r"^(AttributeError|ImportError|IndexError|KeyError|TypeError|StopIteration|EvoMPS_line_search_wolfe_sat)$")


def islog(n, weak=False):
    if not isinstance(n, ast.Call):
        return False
    if isinstance(n.func, ast.Name) and n.func.id == "print":
        return True
    if isinstance(n.func, ast.Attribute) and ast.unparse(n.func) in ("warnings.warn", "sp.warnings.warn"):
        return True
    return isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and re.match(r"^_?(log|logger|logging)$", n.func.value.id) is not None \
        and n.func.attr in ("warning", "warn", "error", "critical", "exception", "info", "debug", "log")


def parents(n):
    p = getattr(n, "_parent", None)
    while p is not None:
        yield p
        p = getattr(p, "_parent", None)


METHODS = {"__init__", "update", "f", "matvec", "dot", "copy"}


# ------------------------------------------------------------------ constant evaluation of a test for a status value
class Unknown(Exception):
    pass


def evalc(e, env):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name) and e.id in env:
        return env[e.id]
    if isinstance(e, ast.Attribute) and ast.unparse(e) in env:
        return env[ast.unparse(e)]
    if isinstance(e, ast.UnaryOp):
        v = evalc(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not v
        if isinstance(e.op, ast.USub):
            return -v
        raise Unknown
    if isinstance(e, ast.BoolOp):
        unk = False
        for x in e.values:
            try:
                v = evalc(x, env)
            except Unknown:
                unk = True
                continue
            if isinstance(e.op, ast.And) and not v:
                return False
            if isinstance(e.op, ast.Or) and v:
                return True
        if unk:
            raise Unknown
        return isinstance(e.op, ast.And)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = evalc(e.left, env), evalc(e.comparators[0], env)
        o = e.ops[0]
        if isinstance(o, ast.Eq) or isinstance(o, ast.Is):
            return a == b
        if isinstance(o, ast.NotEq) or isinstance(o, ast.IsNot):
            return a != b
        if isinstance(o, ast.Lt):
            return a < b
        if isinstance(o, ast.LtE):
            return a <= b
        if isinstance(o, ast.Gt):
            return a > b
        if isinstance(o, ast.GtE):
            return a >= b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("bool", "int", "abs") and len(e.args) == 1:
        return {"bool": bool, "int": int, "abs": abs}[e.func.id](evalc(e.args[0], env))
    raise Unknown


def reports(body):
    """a block makes a report on every way through it (raise, log, return of something)"""
    for s in body:
        if isinstance(s, (ast.Raise, ast.Return)):
            return True
        if any(islog(n) or helper_call(n) for n in ast.walk(s)):
            return True
    return False


REPORTERS = set()


def helper_call(n):
    """call of a package routine that makes a report whenever it is called"""
    return isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None) in REPORTERS


def status_calls(prog, m, f):
    for n in own_nodes(f):
        if not isinstance(n, ast.Call):
            continue
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
        if nm in PKGSTATUS:
            yield n, nm, PKGSTATUS[nm]
        elif nm in LIBSTATUS:
            if nm == "cg" and not isinstance(n.func, ast.Attribute):
                continue
            yield n, nm, LIBSTATUS[nm]


def status_rule(prog, ctx, m, f):
    q = qualname(f)
    for n, nm, (idx, bad, good) in status_calls(prog, m, f):
        ctx.count("status-returning calls")
        ctx.analysed.add(m.name + ":" + q)
        par = getattr(n, "_parent", None)
        tgt = None
        if isinstance(par, ast.Return):
            continue                                    # the whole result goes to the caller
        if isinstance(par, ast.Assign) and len(par.targets) == 1:
            t = par.targets[0]
            if isinstance(t, (ast.Tuple, ast.List)):
                if idx < len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                    tgt = t.elts[idx]
            elif isinstance(t, ast.Name):
                # result kept whole: look at res[idx]
                use = [x for x in ast.walk(f) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == t.id
                       and isinstance(x.slice, ast.Constant) and x.slice.value == idx]
                whole = [x for x in ast.walk(f) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == t.id]
                unp = [x for x in own_nodes(f) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == t.id
                       and isinstance(x.targets[0], ast.Tuple)]
                if whole:
                    continue
                if unp and idx < len(unp[0].targets[0].elts):
                    tgt = unp[0].targets[0].elts[idx]
                    par = unp[0]
                elif use:
                    st = [x._parent for x in use if isinstance(x._parent, ast.Assign) and isinstance(x._parent.targets[0], ast.Name)]
                    if st:
                        tgt, par = st[0].targets[0], st[0]
                    else:
                        ctx.undec(q, "status of %s used in an expression" % nm)
                        continue
        if tgt is None:
            ctx.violation("status-dropped", m.name, q, nm, "%s does not look at the convergence status returned by %s" % (q, nm), n.lineno)
            continue
        if isinstance(tgt, ast.Attribute):
            ctx.count("statuses stored on the object")
            continue
        if not isinstance(tgt, ast.Name):
            ctx.undec(q, "status target")
            continue
        check_status_var(ctx, m, f, q, n, nm, tgt.id, par, bad, good)


def check_status_var(ctx, m, f, q, n, nm, var, st, bad, good):
    """the status variable is used, before it is overwritten, in a report"""
    uses = [x for x in own_nodes(f) if isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Load)]
    # the uses reached: those after the call in the same loop body / block order, before a kill
    reached, killed = reach(f, st, var)
    if not reached:
        ctx.violation("status-dropped", m.name, q, nm, "%s never uses the convergence status '%s' returned by %s%s" % (q, var, nm, " before overwriting it" if killed else ""), n.lineno)
        return
    ok = False
    need = {v: False for v in bad}
    for u in reached:
        # flows out: returned, stored, put in a container
        s = u
        flow = False
        for p in parents(u):
            if isinstance(p, ast.Return):
                flow = True
                break
            if isinstance(p, (ast.Dict, ast.Call, ast.keyword)) and not islog(p):
                flow = True
                break
            if isinstance(p, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in p.targets):
                flow = True
                break
            if isinstance(p, ast.stmt):
                break
        if flow:
            ok = True
            continue
        test = None
        c = u
        for p in parents(u):
            if isinstance(p, (ast.If, ast.While)) and c is p.test:
                test = p
                break
            if isinstance(p, ast.IfExp) and c is p.test:
                ok = True
                break
            if isinstance(p, ast.Assert):
                for v in bad:
                    try:
                        if not evalc(p.test, {var: v}):
                            need[v] = True
                    except Unknown:
                        need[v] = None
                break
            if isinstance(p, ast.stmt):
                # alias:  failed = not conv
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    for v in bad:
                        need[v] = None
                break
            c = p
        if test is None:
            continue
        rest = []
        for v in bad:
            try:
                t = evalc(test.test, {var: v})
            except Unknown:
                if need[v] is False:
                    need[v] = maybe(test, var, v)
                continue
            if isinstance(test, ast.While):
                need[v] = True
                continue
            if t and reports(test.body):
                need[v] = True
            elif not t and reports(test.orelse):
                need[v] = True
            elif not t and any(isinstance(x, (ast.Return, ast.Break)) for x in test.body) and after_reports(f, test):
                need[v] = True
            elif t and not reports(test.body) and after_reports(f, test) and any(isinstance(x, (ast.Continue,)) for x in test.body):
                need[v] = True
    ctx.count("statuses tested")
    if ok:
        return
    for v in bad:
        if need[v] is None:
            ctx.undec(q, "condition on the status of " + nm)
            return
    missing = [v for v in bad if need[v] is False]
    if missing:
        ctx.violation("status-unreported", m.name, q, nm, "%s makes no report when %s returns the failure status %s" % (q, nm, ", ".join(map(repr, missing))), n.lineno)


def maybe(test, var, v):
    """the test depends on more than the status: None if it cannot be resolved, False if some values of the other conditions give no report"""
    if not (reports(test.body) or reports(test.orelse)) or isinstance(test, ast.While):
        return False
    other = {}

    def collect(e):
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                collect(x)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            collect(e.operand)
        elif not any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(e)):
            other.setdefault(ast.unparse(e), e)
        else:
            try:
                evalc(e, {var: v})
            except Unknown:
                other[None] = e
    collect(test.test)
    if None in other or len(other) > 5:
        return None

    def ev(e, env):
        if isinstance(e, ast.BoolOp):
            vs = [ev(x, env) for x in e.values]
            return all(vs) if isinstance(e.op, ast.And) else any(vs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not ev(e.operand, env)
        k = ast.unparse(e)
        return env[k] if k in env else bool(evalc(e, {var: v}))
    for vals in itertools.product((True, False), repeat=len(other)):
        t = ev(test.test, dict(zip(other, vals)))
        if not reports(test.body if t else test.orelse):
            return False
    return True


def after_reports(f, st):
    """statements that follow (in this or an enclosing block) report"""
    n = st
    for p in parents(st):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and n in b and reports(b[b.index(n) + 1:]):
                return True
        if isinstance(p, (ast.For, ast.While)) and reports(p.orelse):
            return True
        if isinstance(p, ast.FunctionDef):
            break
        n = p
    return False


def reach(f, st, var):
    """loads of var reached by the definition at statement st (structured, loops once more)"""
    out = set()
    killed = [False]

    def expr(e, live):
        if live and e is not None:
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Load):
                    out.add(x)

    def block(body, live):
        for s in body:
            live = stmt(s, live)
        return live

    def stmt(s, live):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if live:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Load):
                        out.add(x)
            return live
        if isinstance(s, ast.If):
            expr(s.test, live)
            a, b = block(s.body, live), block(s.orelse, live)
            return a or b
        if isinstance(s, (ast.For, ast.While)):
            expr(s.iter if isinstance(s, ast.For) else s.test, live)
            a = block(s.body, live)
            if isinstance(s, ast.While):
                expr(s.test, a)
            a = block(s.body, live or a)
            b = block(s.orelse, live or a)
            return live or a or b
        if isinstance(s, ast.Try):
            a = block(s.body, live)
            hs = [block(h.body, live or a) for h in s.handlers]
            o = block(s.orelse, a)
            x = block(s.finalbody, o or any(hs) or a)
            return x if s.finalbody else (o if s.orelse else a) or any(hs)
        if isinstance(s, ast.With):
            return block(s.body, live)
        for c in ast.iter_child_nodes(s):
            expr(c, live)
        if s is st:
            return True
        if isinstance(s, ast.Assign) and live:
            for t in s.targets:
                for x in ([t] if isinstance(t, ast.Name) else getattr(t, "elts", [])):
                    if isinstance(x, ast.Name) and x.id == var:
                        killed[0] = True
                        return False
        if isinstance(s, (ast.Return, ast.Raise)):
            return False
        return live
    block(f.body, False)
    return out, killed[0]


# ------------------------------------------------------------------ handlers
def handler_names(prog, h, f):
    if h.type is None:
        return ["*"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


def handlers(f):
    for n in own_nodes(f):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                yield n, h


def handler_rule(prog, ctx, m, f, ref):
    q = qualname(f)
    for t, h in handlers(f):
        ctx.count("exception handlers")
        ctx.analysed.add(m.name + ":" + q)
        names = handler_names(prog, h, f)
        if all(DUCK.match(x) for x in names):
            continue
        wide = [x for x in names if x in ("*", "Exception", "BaseException")]
        key = "%s:%s" % (m.name, q)
        if wide and not wide_ok(h, t):
            if ref is not None and wide_ref(prog, ref, m, q, f) >= wide_count(prog, f):
                ctx.count("wide duck-typing handlers")
                continue
            ctx.violation("wide-handler", m.name, q, "except " + ",".join(names), "%s swallows every exception of: %s" % (q, " ".join(ast.unparse(t.body[0]).split())[:60]), h.lineno)
            continue
        if wide:
            continue
        if not handled(h, t):
            ctx.violation("failure-swallowed", m.name, q, "except " + ",".join(names), "%s catches %s and neither reports it nor tries another way" % (q, ", ".join(names)), h.lineno)


def wide_count(prog, f):
    return sum(1 for t, h in handlers(f) if any(x in ("*", "Exception", "BaseException") for x in handler_names(prog, h, f)))


def wide_ref(prog, ref, m, q, f):
    return ref.get("wide", {}).get("%s:%s" % (m.name, q), 1 if fresh(ref, m, q) else 0)


def fresh(ref, m, q):
    """function unknown to the inventory (renamed or extracted helper)"""
    return "%s:%s" % (m.name, q) not in ref.get("functions", ())


def wide_ok(h, t):
    return any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s))


def handled(h, t):
    """raise, log, return, or do some other work"""
    work = False
    for s in h.body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Continue):
            continue
        work = True
    return work


# ------------------------------------------------------------------ bounded attempts
def linear(e):
    """name (+ const) or const:  (name or None, int)"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return ("", e.value)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
        b = linear(e.left)
        if b is None:
            return None
        return (b[0], b[1] + (e.right.value if isinstance(e.op, ast.Add) else -e.right.value))
    if isinstance(e, (ast.Name, ast.Attribute)):
        return (ast.unparse(e), 0)
    return None


def cmp_counter(e, i, bound):
    """comparison between the counter and the bound: set of offsets d = i - bound for which it is true, as a predicate"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        p = cmp_counter(e.operand, i, bound)
        return None if p is None else (lambda d: not p(d))
    if not (isinstance(e, ast.Compare) and len(e.ops) == 1):
        return None
    a, b = linear(e.left), linear(e.comparators[0])
    if a is None or b is None:
        return None
    o = type(e.ops[0])
    if a[0] == i and b[0] == bound[0]:
        off = b[1] - bound[1] - a[1]
        sw = False
    elif b[0] == i and a[0] == bound[0]:
        off = a[1] - bound[1] - b[1]
        sw = True
    else:
        return None
    tab = {ast.Lt: lambda d: d < off, ast.LtE: lambda d: d <= off, ast.Gt: lambda d: d > off, ast.GtE: lambda d: d >= off,
           ast.Eq: lambda d: d == off, ast.NotEq: lambda d: d != off}
    swp = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    if sw:
        o = swp.get(o)
    return tab.get(o)


def loop_breaks(loop):
    out = []

    def walk(b, depth):
        for s in b:
            if isinstance(s, ast.Break) and depth == 0:
                out.append(s)
            for fld in ("body", "orelse", "finalbody"):
                c = getattr(s, fld, None)
                if isinstance(c, list):
                    walk(c, depth + (1 if isinstance(s, (ast.For, ast.While)) and fld == "body" else 0))
            for h in getattr(s, "handlers", []):
                walk(h.body, depth)
    walk(loop.body, 0)
    return out


def attempts_rule(prog, ctx, m, f):
    q = qualname(f)
    for loop in own_nodes(f):
        if isinstance(loop, ast.For):
            forloop(prog, ctx, m, f, q, loop)
        elif isinstance(loop, ast.While):
            whileloop(prog, ctx, m, f, q, loop)


def catches_failure(loop):
    for n in ast.walk(loop):
        if isinstance(n, ast.Try) and any(not all(DUCK.match(x) for x in handler_names(None, h, None)) for h in n.handlers):
            return n
    return None


def forloop(prog, ctx, m, f, q, loop):
    """for i in range(N) used as a bounded number of attempts"""
    it = loop.iter
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "xrange") and isinstance(loop.target, ast.Name)):
        return
    i = loop.target.id
    if len(it.args) == 1:
        bound = linear(it.args[0])
        last = -1
    elif len(it.args) == 2:
        bound = linear(it.args[1])
        last = -1
    else:
        return
    if bound is None:
        return
    brk = loop_breaks(loop)
    t = catches_failure(loop)
    rets = [n for n in ast.walk(loop) if isinstance(n, ast.Return)]
    swallow = t is not None and any(not all(DUCK.match(x) for x in handler_names(prog, h, f)) and not (
        h.body and isinstance(h.body[-1], (ast.Raise, ast.Return))) for h in t.handlers)
    uses_i = t is not None and any(isinstance(x, ast.Name) and x.id == i for s in t.body for x in ast.walk(s) if not in_log(x, t))
    if t is not None and t in loop.body and swallow and not uses_i:
        ctx.count("retry loops")
        # success leaves the loop
        succ = any(isinstance(x, (ast.Break, ast.Return)) for s in t.body + t.orelse for x in ast.walk(s)) or \
            any(isinstance(x, (ast.Break, ast.Return)) for s in loop.body[loop.body.index(t) + 1:] for x in ast.walk(s))
        if not succ and len(it.args) == 1 and assigns_outside(f, loop, t):
            ctx.violation("retry-after-success", m.name, q, "for %s in %s" % (i, ast.unparse(it)), "%s repeats the attempt although it succeeded, so that a later failure discards the result" % q, loop.lineno)
        # exhaustion reported
        exh = reports_exh(f, loop, t, i, bound)
        if not exh:
            ctx.violation("exhaustion-unreported", m.name, q, "for %s in %s" % (i, ast.unparse(it)), "%s does not report that every attempt failed" % q, loop.lineno)
    # counter used after the loop to decide about success
    if not brk:
        return
    for n in after_nodes(f, loop):
        if isinstance(n, ast.Compare):
            p = cmp_counter(n, i, bound)
            if p is None:
                continue
            ctx.count("loop counters tested after the loop")
            # success exits have d in {-1,-2,...}; exhaustion has d == -1
            if p(-1) != p(-2):
                ctx.violation("last-attempt", m.name, q, ast.unparse(n), "%s: a success in the last pass of the loop over %s is indistinguishable from exhaustion in '%s'" % (q, i, ast.unparse(n)), n.lineno)


def in_log(x, top):
    for p in parents(x):
        if p is top:
            return False
        if isinstance(p, ast.Call) and islog(p) or isinstance(p, ast.Raise):
            return True
    return False


def assigns_outside(f, loop, t):
    """the attempt produces a value used after the loop"""
    st = {x.id for s in t.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in st for n in after_nodes(f, loop))


def after_nodes(f, loop):
    end = loop.end_lineno
    for n in own_nodes(f):
        if getattr(n, "lineno", 0) > end or any(n is x for s in loop.orelse for x in ast.walk(s)):
            yield n


def reports_exh(f, loop, t, i, bound):
    if reports(loop.orelse):
        return True
    for h in t.handlers:
        for s in h.body:
            if isinstance(s, (ast.Raise, ast.Return)):
                return True
            if isinstance(s, ast.If):
                p = cmp_counter(s.test, i, bound)
                if p is not None and p(-1) and reports(s.body):
                    return True
                if p is not None and not p(-1) and (reports(s.orelse) or after_raise(h.body, s)):
                    return True
                if p is None and reports(s.body):
                    return True
    # a report after the loop that depends on some variable of the loop
    n = loop
    for p in parents(loop):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and n in b:
                for s in b[b.index(n) + 1:]:
                    if isinstance(s, ast.If) and (reports(s.body) or reports(s.orelse)):
                        return True
                    if isinstance(s, ast.Raise):
                        return True
                return False
        n = p
    return False


def after_raise(body, s):
    return any(isinstance(x, (ast.Raise, ast.Return)) for x in body[body.index(s) + 1:])


def whileloop(prog, ctx, m, f, q, loop):
    """while <not done> and i < N: ...; i += 1"""
    test = loop.test
    conj = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
    incs = [s for s in ast.walk(loop) if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name)
            and isinstance(s.value, ast.Constant) and s.value.value == 1]
    incs += [s for s in ast.walk(loop) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp)
             and isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id
             and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1]
    for inc in incs:
        i = inc.target.id if isinstance(inc, ast.AugAssign) else inc.targets[0].id
        bound = None
        for c in conj:
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                a, b = linear(c.left), linear(c.comparators[0])
                if a and b and a[0] == i and isinstance(c.ops[0], ast.Lt):
                    bound = (b[0], b[1])
                elif a and b and b[0] == i and isinstance(c.ops[0], ast.Gt):
                    bound = (a[0], a[1])
                elif a and b and a[0] == i and isinstance(c.ops[0], ast.LtE):
                    bound = (b[0], b[1] + 1)
        other = [c for c in conj if not (isinstance(c, ast.Compare) and i in {x.id for x in ast.walk(c) if isinstance(x, ast.Name)})]
        brk = loop_breaks(loop)
        if bound is not None:
            ctx.count("counted while loops")
            # exits: d = i - bound.  exhaustion d == 0;  success through the condition: d <= 0 (any);  success through break: d <= -1 if before the increment
            succ = set()
            if other:
                succ |= {0, -1}
            for b in brk:
                succ |= {-1, -2} if b.lineno < inc.lineno else {0, -1}
            if not succ:
                continue
            for n in after_nodes(f, loop):
                if isinstance(n, ast.Compare):
                    p = cmp_counter(n, i, bound)
                    if p is None:
                        continue
                    ctx.count("loop counters tested after the loop")
                    if any(p(d) == p(0) for d in succ) and p(0) != p(-1):
                        ctx.violation("last-attempt", m.name, q, ast.unparse(n), "%s: a success in the last pass of the loop is indistinguishable from exhaustion in '%s'" % (q, ast.unparse(n)), n.lineno)
            continue
        # while not done: n += 1 ... if n reached N: break
        for b in brk:
            nb = counter_of_break(loop, b, i)
            if nb is None:
                continue
            ctx.count("counted while loops")
            for n in after_nodes(f, loop):
                if isinstance(n, ast.Compare):
                    p = cmp_counter(n, i, nb)
                    if p is None:
                        continue
                    ctx.count("loop counters tested after the loop")
                    if p(0) != p(-1):
                        ctx.violation("last-attempt", m.name, q, ast.unparse(n), "%s: the loop can also be complete when it stops at the limit, so '%s' reports a success as failure" % (q, ast.unparse(n)), n.lineno)


def counter_of_break(loop, b, i):
    """bound against which counter i is tested around the break b"""
    par = b._parent
    cands = []
    body = getattr(par, "body", [])
    if par is loop or isinstance(par, ast.If):
        tests = []
        if isinstance(par, ast.If):
            tests.append(par.test)
        blk = par.body if b in getattr(par, "body", []) else par.orelse
        for s in blk[:blk.index(b)]:
            if isinstance(s, ast.If) and any(isinstance(x, ast.Continue) for x in s.body):
                tests.append(s.test)
        for t in tests:
            for x in ast.walk(t):
                if isinstance(x, ast.Compare) and len(x.ops) == 1:
                    a, c = linear(x.left), linear(x.comparators[0])
                    if a and c and a[0] == i and c[0] not in ("", i):
                        cands.append(c)
                    elif a and c and c[0] == i and a[0] not in ("", i):
                        cands.append(a)
    return cands[0] if cands else None


# ------------------------------------------------------------------ inventory of reports
def norm_cmp(e):
    """canonical three-valued atoms: a comparison is (operand pair, set of {<,=,>} for which it is true)"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = ast.unparse(e.left), ast.unparse(e.comparators[0])
        o = type(e.ops[0])
        S = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "=", ast.NotEq: "<>", ast.Is: "=", ast.IsNot: "<>"}.get(o)
        if S is not None:
            S = set(S)
            if a > b:
                a, b = b, a
                S = {{"<": ">", ">": "<"}.get(x, x) for x in S}
            return (a + " ~ " + b, S)
        if o is ast.NotIn:
            return (a + " in " + b, {"="}, True)
        if o is ast.In:
            return (a + " in " + b, {"="})
    return None


def atoms(e, acc):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            atoms(v, acc)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        atoms(e.operand, acc)
    else:
        c = norm_cmp(e)
        if c is not None:
            acc.setdefault(c[0], "<=>" if "~" in c[0] else "tf")
        elif not (isinstance(e, ast.Constant)):
            acc.setdefault(ast.unparse(e), "tf")
    return acc


def truth(e, env):
    if isinstance(e, ast.BoolOp):
        vs = [truth(v, env) for v in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not truth(e.operand, env)
    if isinstance(e, ast.Constant):
        return bool(e.value)
    c = norm_cmp(e)
    if c is not None:
        if "~" in c[0]:
            return env[c[0]] in c[1]
        return (env[c[0]] == "t") != (len(c) == 3)
    return env[ast.unparse(e)] == "t"


def guards(n, f):
    """conditions under which the node is executed, innermost last: (test, polarity)"""
    out = []
    c = n
    for p in parents(n):
        if p is f or isinstance(p, (ast.FunctionDef, ast.Lambda)):
            break
        if isinstance(p, ast.If):
            if c in p.body:
                out.append((p.test, True))
            elif c in p.orelse:
                out.append((p.test, False))
        c = p
    # early exits before the node
    c = n
    for p in parents(n):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and c in b:
                for s in b[:b.index(c)]:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and not s.orelse:
                        out.append((s.test, False))
        if p is f or isinstance(p, ast.FunctionDef):
            break
        c = p
    return out[::-1]


def table(gs):
    acc = {}
    for t, pol in gs:
        atoms(t, acc)
    names = sorted(acc)
    if len(names) > 7:
        return names, None
    rows = []
    for vals in itertools.product(*[acc[x] for x in names]):
        env = dict(zip(names, vals))
        rows.append("1" if all(truth(t, env) == pol for t, pol in gs) else "0")
    return names, "".join(rows)


def trykind(n, f):
    """what kind of handler / branch of try encloses the node"""
    out = []
    c = n
    for p in parents(n):
        if isinstance(p, ast.ExceptHandler):
            out.append("except " + ",".join(sorted(handler_names(None, p, None))))
        if p is f:
            break
    return out


def report_sites(prog, f):
    for n in own_nodes(f):
        if isinstance(n, ast.Raise):
            if n.exc is None:
                yield n, "raise", "re-raise", ""
                continue
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            msg = n.exc.args[0] if isinstance(n.exc, ast.Call) and n.exc.args else None
            yield n, "raise", ast.unparse(e).split(".")[-1], text(msg)
        elif isinstance(n, ast.Assert):
            yield n, "assert", "AssertionError", text(n.msg)
        elif isinstance(n, ast.Call) and islog(n) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warning", "warn", "error", "critical", "exception"):
            yield n, "log", "log", text(n.args[0]) if n.args else ""


def text(e):
    if e is None:
        return ""
    for x in ast.walk(e):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return " ".join(x.value.split())
    return ""


def aliases(f):
    """local names assigned exactly once, by a cheap expression: inlined in guards"""
    cnt, val = {}, {}
    for n in own_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            cnt[n.id] = cnt.get(n.id, 0) + 1
    for n in own_nodes(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and cnt[n.targets[0].id] == 1:
            val[n.targets[0].id] = n.value
    a = f.args
    for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
        val.pop(x.arg, None)
    return {k: v for k, v in val.items() if isinstance(v, (ast.BoolOp, ast.Compare, ast.UnaryOp, ast.Name, ast.Attribute)) or
            isinstance(v, ast.Call)}


class Inline(ast.NodeTransformer):
    def __init__(self, al, depth=0):
        self.al, self.depth = al, depth

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.al and self.depth < 4:
            import copy
            return Inline(self.al, self.depth + 1).visit(copy.deepcopy(strip(self.al[n.id])))
        return n


class Chain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return n
        items = [n.left] + n.comparators
        return ast.BoolOp(op=ast.And(), values=[ast.Compare(left=a, ops=[o], comparators=[b]) for a, o, b in zip(items, n.ops, items[1:])])


def strip(e):
    return Chain().visit(ast.parse(ast.unparse(e), mode="eval").body)


def inventory(prog):
    inv, wide, funcs = [], {}, []
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda) or m.name in ("cuda_alternatives",):
            continue
        q = qualname(f)
        funcs.append("%s:%s" % (m.name, q))
        al = aliases(f)
        for n, kind, exc, msg in report_sites(prog, f):
            gs = [(Inline(al).visit(strip(t)), pol) for t, pol in guards(n, f)]
            names, tab = table(gs)
            if kind == "assert":
                gs2 = gs + [(Inline(al).visit(strip(n.test)), False)]
                names, tab = table(gs2)
            inv.append({"mod": m.name, "func": q, "kind": kind, "exc": exc, "msg": msg, "atoms": names, "table": tab, "handlers": trykind(n, f),
                        "lineno": n.lineno})
        w = sum(1 for t, h in handlers(f) if any(x in ("*", "Exception", "BaseException") for x in handler_names(prog, h, f)))
        if w:
            wide["%s:%s" % (m.name, q)] = w
    return {"reports": inv, "wide": wide, "functions": sorted(funcs)}


def inventory_rule(prog, ctx, ref):
    cur = inventory(prog)
    byfunc, bymsg, bymod = {}, {}, {}
    for r in cur["reports"]:
        byfunc.setdefault((r["mod"], r["func"]), []).append(r)
        bymsg.setdefault((r["kind"], r["exc"], r["msg"]), []).append(r)
    have = set(cur["functions"])
    for r in ref["reports"]:
        ctx.count("failure reports of the inventory")
        key = (r["mod"], r["func"])
        if "%s:%s" % key not in have:
            if not bymsg.get((r["kind"], r["exc"], r["msg"])):
                ctx.undec(r["func"], "function renamed or removed")
            continue
        ctx.analysed.add(r["mod"] + ":" + r["func"])
        cand = [x for x in byfunc.get(key, []) if (x["kind"], x["exc"], x["msg"]) == (r["kind"], r["exc"], r["msg"])]
        elsewhere = [x for x in bymsg.get((r["kind"], r["exc"], r["msg"]), []) if x not in cand and not known_site(ref, x)]
        label = "%s %s %s" % (r["kind"], r["exc"], repr(r["msg"][:50]))
        nref = sum(1 for x in ref["reports"] if (x["mod"], x["func"]) == key and (x["kind"], x["exc"], x["msg"]) == (r["kind"], r["exc"], r["msg"]))
        if len(cand) < nref:
            if elsewhere:
                continue                              # moved to a helper
            # reworded: the same condition still leads to a report of this kind
            sub = [x for x in byfunc.get(key, []) if family(x) == family(r) and not any(
                (x["kind"], x["exc"], x["msg"]) == (y["kind"], y["exc"], y["msg"]) for y in ref["reports"] if (y["mod"], y["func"]) == key)]
            if sub:
                cand = cand + sub
            else:
                # the guarded code may have moved to a helper of unknown name
                new = [x for x in cur["reports"] if "%s:%s" % (x["mod"], x["func"]) not in ref["functions"] and family(x) == family(r)]
                if new:
                    ctx.undec(r["func"], "report possibly moved to " + new[0]["func"])
                    continue
                ctx.violation("report-removed", r["mod"], r["func"], label, "%s no longer reports: %s" % (r["func"], label), None)
                continue
        if r["table"] is None:
            continue
        if cand and all(x["table"] is not None and "1" not in x["table"] for x in cand) and "1" in r["table"]:
            ctx.violation("report-condition", r["mod"], r["func"], label, "%s can never make the report %s" % (r["func"], label), cand[0]["lineno"])
            continue
        same = [x for x in cand if x["atoms"] == r["atoms"]]
        if same and not any(x["table"] == r["table"] for x in same):
            ctx.violation("report-condition", r["mod"], r["func"], label, "%s reports %s under another combination of its conditions %s" % (
                r["func"], label, r["atoms"]), same[0]["lineno"])
        elif not same:
            z = threshold(r, cand)
            if z:
                ctx.violation("report-condition", r["mod"], r["func"], label, "%s: the condition of %s changed: %s" % (r["func"], label, z), cand[0]["lineno"])
            else:
                ctx.undec(r["func"], "condition of a report rewritten")
        lost = [h for h in r["handlers"] if h not in [y for x in cand for y in x["handlers"]]]
        if lost and all(narrower(h, [y for x in cand for y in x["handlers"]]) for h in lost):
            ctx.violation("handler-narrowed", r["mod"], r["func"], label, "%s: the handler %s no longer covers every failure it reported" % (r["func"], lost[0]), cand[0]["lineno"])


def family(r):
    return "log" if r["kind"] == "log" else "raise"


def known_site(ref, x):
    n = sum(1 for y in ref["reports"] if (y["mod"], y["func"], y["kind"], y["exc"], y["msg"]) == (x["mod"], x["func"], x["kind"], x["exc"], x["msg"]))
    return n > 0


def narrower(h, now):
    a = set(h[7:].split(","))
    return any(set(x[7:].split(",")) < a for x in now) or not now


NUM = re.compile(r"(?<![\w.])\d+(\.\d*)?([eE][-+]?\d+)?")


def threshold(r, cand):
    """same comparisons but for literal numbers, added or dropped conjuncts"""
    if cand and all(x["table"] is not None and "1" in x["table"] and extends(r, x) for x in cand):
        return "%s over %s" % ("a different combination", sorted(set(cand[0]["atoms"]) ^ set(r["atoms"])))
    for x in cand:
        a, b = set(r["atoms"]) - set(x["atoms"]), set(x["atoms"]) - set(r["atoms"])
        if len(a) == len(b) == 1:
            u, v = a.pop(), b.pop()
            if NUM.sub("#", u) == NUM.sub("#", v) and u != v:
                nu, nv = [float(z.group()) for z in NUM.finditer(u)], [float(z.group()) for z in NUM.finditer(v)]
                if nu != nv:
                    return "%s became %s" % (u, v)
                continue
            for fn in ("abs(%s)", "la.norm(%s)", "sp.absolute(%s)", "np.abs(%s)", "sp.any(%s)", "np.any(%s)"):
                for c in u.split(" ~ "):
                    w = unwrap(c, fn)
                    if w is not None and set([w if y == c else y for y in u.split(" ~ ")]) == set(v.split(" ~ ")):
                        return "%s became %s" % (u, v)
    return None


def rows(x):
    doms = ["<=>" if "~" in a else "tf" for a in x["atoms"]]
    return {tuple(zip(x["atoms"], v)): t == "1" for v, t in zip(itertools.product(*doms), x["table"])}


def extends(r, x):
    """one set of comparisons contains the other, and the conditions differ"""
    A, B = set(r["atoms"]), set(x["atoms"])
    if not (A < B or B < A) or any(a.replace("~", "in") in B for a in A ^ B):
        return False
    R, X = rows(r), rows(x)
    big, small = (X, R) if A < B else (R, X)
    names = A if A < B else B
    return any(v != small[tuple(p for p in k if p[0] in names)] for k, v in big.items())


def unwrap(c, fn):
    a, b = fn.split("%s")
    return c[len(a):-len(b)] if c.startswith(a) and c.endswith(b) else None


# ------------------------------------------------------------------ temporary state
# function -> fields that it alters for the duration of the call
TEMP = {("EvoMPS_TDVP_Generic", "find_min_h_brent"): {"A", "l", "r", "C", "K", "H_expect", "h_expect", "AA", "AAA"},
        ("EvoMPS_TDVP_Generic_Dissipative", "take_step_dissipative"): {"ham"}}
# altered as well, but rebuilt by whatever reads them (start vectors, scratch, unset on this path)
SCRATCH = {"K0_init", "Vsh", "_AA", "_AAA", "_C", "conv_l", "conv_r", "itr_l", "itr_r", "lL_before_CF", "rL_before_CF", "l_sqrt", "l_sqrt_i", "r_sqrt", "r_sqrt_i",
           "uni_l", "uni_r", "eta", "eta_sq", "K_l", "dH_expect", "etaBB", "etaBB_sq", "tmp"}


def self_stores(f):
    out = []
    for n in own_nodes(f):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        out.append((x.attr, n))
    return out


def restore_rule(prog, ctx, E):
    seen = set()
    for (cls, name), fields in sorted(TEMP.items()):
        f = prog.method(cls, name)
        if f is None:
            ctx.undec(name, "operation not found")
            continue
        seen.add(id(f))
        m = f._mod
        q = qualname(f)
        ctx.analysed.add(m.name + ":" + q)
        for fld in sorted(fields):
            ctx.count("temporarily altered fields")
            check_restore(prog, ctx, E, m, f, q, cls, fld)
    # any other save / alter / restore pair
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda) or id(f) in seen or m.name == "cuda_alternatives":
            continue
        for fld in sorted(pairs(f)):
            ctx.count("save / restore pairs")
            cls = owner(f)
            check_restore(prog, ctx, E, m, f, qualname(f), cls, fld)


def owner(f):
    for p in [f] + list(parents(f)):
        if getattr(p, "_cls", None) is not None:
            return p._cls.name
    return None


def saved(f, fld):
    """local names holding the saved value of self.<fld>"""
    out = {}
    for n in own_nodes(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            pr = [(n.targets[0], n.value)]
            if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts):
                pr = list(zip(n.targets[0].elts, n.value.elts))
            for t, v in pr:
                if isinstance(t, ast.Name) and reads_field(v, fld):
                    out[t.id] = n
    return out


def reads_field(v, fld):
    while True:
        if isinstance(v, ast.Call) and v.args and ast.unparse(v.func).split(".")[-1] in ("deepcopy", "copy", "list", "asarray", "array"):
            v = v.args[0]
            continue
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "copy" and not v.args:
            v = v.func.value
            continue
        break
    return isinstance(v, ast.Attribute) and v.attr == fld and isinstance(v.value, ast.Name) and v.value.id == "self"


def restores_of(f, fld, names):
    return [n for a, n in self_stores(f) if a == fld and isinstance(n, ast.Assign) and any(
        isinstance(x, ast.Name) and x.id in names for x in ([n.value] if not isinstance(n.value, ast.Tuple) else n.value.elts))
        or a == fld and isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and reads_name(n.value, names)]


def reads_name(v, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(v)) and ast.unparse(v.func).split(".")[-1] in ("copy", "deepcopy", "list")


def pairs(f):
    out = set()
    st = self_stores(f)
    for a, n in st:
        if not isinstance(n, ast.Assign):
            continue
        vals = n.value.elts if isinstance(n.value, ast.Tuple) else [n.value]
        for v in vals:
            if isinstance(v, ast.Name):
                sv = saved(f, a)
                if v.id in sv and sv[v.id].lineno < n.lineno:
                    # altered in between, directly
                    if any(b == a and sv[v.id].lineno < k.lineno < n.lineno for b, k in st):
                        out.add(a)
    return out


def check_restore(prog, ctx, E, m, f, q, cls, fld):
    sv = saved(f, fld)
    res = restores_of(f, fld, set(sv))
    cm = [h for h in own_nodes(f) if isinstance(h, ast.With)]
    if not res:
        # restored by a helper or a nested function?
        helper = [n for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f and any(a == fld for a, k in self_stores(n))]
        nm = {h.name for h in helper if restores_of(h, fld, set(sv))}
        calls = [s for s in own_nodes(f) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in nm]
        res = calls
    if not res:
        S = E.summary(f, cls)
        if any(e.path[1] == "self" and len(e.path) > 2 and e.path[2] == "." + fld for e in S.events.values()):
            if delegated(prog, f):
                ctx.undec(q, "restoration of self.%s handed to a helper" % fld)
                return
            ctx.violation("not-restored", m.name, q, fld, "%s alters self.%s for trial computations and does not put it back" % (q, fld), f.lineno)
        return
    # every exit after the first alteration
    first = min([n.lineno for n in sv.values()] or [f.lineno])
    infin = False
    for r in res:
        c = r
        for p in parents(r):
            if isinstance(p, ast.Try) and any(c is s or within(s, r) for s in p.finalbody):
                start, tr = p, p
                infin = True
            c = p
            if p is f:
                break
    if infin:
        for n in own_nodes(f):
            if isinstance(n, ast.Return) and n.lineno < start.lineno and altered_before(prog, E, f, cls, fld, n.lineno, first, res):
                ctx.violation("not-restored", m.name, q, fld + " (return)", "%s returns without putting self.%s back" % (q, fld), n.lineno)
        alt = altered_between(prog, E, f, cls, fld, first, start.lineno)
        bad = [n for n in alt if not simple(n)]
        if bad:
            ctx.violation("not-restored", m.name, q, fld + " (exception)", "%s alters self.%s before the protected block" % (q, fld), bad[0].lineno)
        return
    ctx.violation("not-restored", m.name, q, fld + " (exception)", "%s puts self.%s back only when no exception occurs in between" % (q, fld), res[0].lineno)
    for n in own_nodes(f):
        if isinstance(n, ast.Return) and first < n.lineno < min(r.lineno for r in res) and altered_before(prog, E, f, cls, fld, n.lineno, first, res):
            ctx.violation("not-restored", m.name, q, fld + " (return)", "%s returns without putting self.%s back" % (q, fld), n.lineno)


def delegated(prog, f):
    """a context manager or decorator takes care of the whole body"""
    if getattr(f, "decorator_list", None):
        return True
    return any(isinstance(n, ast.With) for n in own_nodes(f))


def within(s, r):
    return any(x is r for x in ast.walk(s))


def simple(n):
    return isinstance(n, ast.Assign)


def altered_between(prog, E, f, cls, fld, lo, hi):
    """statements at the top level of f, between the lines, that alter the field"""
    out = []
    for s in f.body:
        if lo < s.lineno < hi and not isinstance(s, ast.FunctionDef):
            for a, n in [(x.attr, x) for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"]:
                if a == fld:
                    out.append(s)
            # nested helpers that alter the state
            nest = {n.name for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f and any(
                isinstance(x, ast.Attribute) and x.attr == fld and isinstance(x.value, ast.Name) and x.value.id == "self" and stored(x) for x in ast.walk(n))}
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in nest:
                    out.append(s)
    return out


def stored(x):
    if isinstance(x.ctx, ast.Store):
        return True
    p = x._parent
    return isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store)


def altered_before(prog, E, f, cls, fld, line, first, res):
    return bool(altered_between(prog, E, f, cls, fld, first, line + 1)) or any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and isnested(f, x.func.id) and first < x.lineno <= line for x in own_nodes(f))


def isnested(f, name):
    return any(isinstance(n, ast.FunctionDef) and n is not f and n.name == name for n in ast.walk(f))


def c12(prog, ctx):
    ref = json.load(open(DATA))
    REPORTERS.clear()
    for m, f in prog.all_functions():
        if isinstance(f, ast.FunctionDef) and any(isinstance(s, ast.Raise) or isinstance(s, ast.Expr) and islog(s.value) and s.value.func != "debug" for s in f.body):
            REPORTERS.add(f.name)
    REPORTERS.difference_update(METHODS)
    for m, f in prog.all_functions():
        if isinstance(f, ast.Lambda) or m.name == "cuda_alternatives":
            continue
        if not hasattr(f, "_mod"):
            f._mod = m
        ctx.count("functions analysed")
        status_rule(prog, ctx, m, f)
        handler_rule(prog, ctx, m, f, ref)
        attempts_rule(prog, ctx, m, f)
    inventory_rule(prog, ctx, ref)
    E = engine(prog)
    restore_rule(prog, ctx, E)
