"""Definite assignment of locals: path enumeration with the truth of repeated
conditions tracked, loops executed at least once, exceptions leaving a try
body before its last assignment."""
import ast

MAX = 256
_CK, _KN = {}, {}



def cond_key(t):
    r = getattr(t, "_ck", None)
    if r is None:
        r = t._ck = _cond_key(t)
        if r[0] not in _KN:
            _KN[r[0]] = ({x.id for x in ast.walk(t) if isinstance(x, ast.Name)}, {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)})
    return r


def _cond_key(t):
    """(canonical key, polarity)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        k, p = cond_key(t.operand)
        return k, not p
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r, o = ast.dump(t.left), ast.dump(t.comparators[0]), t.ops[0]
        if isinstance(o, ast.NotEq):
            return ("==", l, r), False
        if isinstance(o, ast.Eq):
            return ("==", l, r), True
        if isinstance(o, ast.IsNot):
            return ("is", l, r), False
        if isinstance(o, ast.Is):
            return ("is", l, r), True
        if isinstance(o, ast.GtE):
            return ("<", l, r), False
        if isinstance(o, ast.Lt):
            return ("<", l, r), True
        if isinstance(o, ast.LtE):
            return ("<", r, l), False
        if isinstance(o, ast.Gt):
            return ("<", r, l), True
    return ("t", ast.dump(t)), True


class St(object):
    __slots__ = ("set", "facts", "un")

    def __init__(self, s, f):
        self.set, self.facts = s, f

    def clone(self):
        return St(set(self.set), dict(self.facts))


def names_in(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def check_function(fn):
    """-> list of (name, node, why)"""
    local = set()

    def coll(n, top=False):
        if not top and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            local.add(n.name)
            return
        if not top and isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                local.add(a.asname or a.name.split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
        for c in ast.iter_child_nodes(n):
            coll(c)
    for s in fn.body:
        coll(s)
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.add(fn.args.kwarg.arg)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            local -= set(n.names)
    local -= params
    found = {}
    nested, active = {}, []
    for x in fn.body:
        for y in ast.walk(x):
            if isinstance(y, ast.FunctionDef) and not isinstance(getattr(y, "_parent", None), ast.ClassDef):
                nested[y.name] = y

    def read(e, sts):
        """all Name loads in expression e (not inside nested functions' bodies)"""
        def w(n, shadow):
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults:
                    w(d, shadow)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                sh = set(shadow)
                for g in n.generators:
                    w(g.iter, sh)
                    sh |= names_in(g.target)
                    for c in g.ifs:
                        w(c, sh)
                if isinstance(n, ast.DictComp):
                    w(n.key, sh)
                    w(n.value, sh)
                else:
                    w(n.elt, sh)
                return
            if isinstance(n, (ast.BoolOp, ast.IfExp)):
                # short circuit: only the first operand is surely evaluated; later
                # ones are evaluated under the truth of the earlier ones
                if isinstance(n, ast.BoolOp):
                    cur = sts_box[0]
                    for i, v in enumerate(n.values):
                        w(v, shadow)
                        if i + 1 < len(n.values):
                            sts_box[0] = branch(sts_box[0], v, isinstance(n.op, ast.And))
                    sts_box[0] = cur
                else:
                    w(n.test, shadow)
                    cur = sts_box[0]
                    sts_box[0] = branch(cur, n.test, True)
                    w(n.body, shadow)
                    sts_box[0] = branch(cur, n.test, False)
                    w(n.orelse, shadow)
                    sts_box[0] = cur
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in shadow:
                for s in sts_box[0]:
                    if n.id not in s.set:
                        if n.id not in found:
                            conds = [k for k in s.facts]
                            found[n.id] = (n, "no assignment on a path reaching line %s" % n.lineno)
                        break
                for s in sts_box[0]:
                    s.set.add(n.id)        # report once
            for c in ast.iter_child_nodes(n):
                w(c, shadow)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in nested and n.func.id not in active and len(active) < 3:
                g = nested[n.func.id]
                mine = {a.arg for a in ast.walk(g.args) if isinstance(a, ast.arg)}
                nl = set()
                for x in ast.walk(g):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        mine.add(x.id)
                    if isinstance(x, ast.Nonlocal):
                        nl.update(x.names)
                mine -= nl
                free = {x.id for x in ast.walk(g) if isinstance(x, ast.Name) and x.id in local} - mine
                if all(free <= x.set for x in sts_box[0]):
                    return
                inner = [x.clone() for x in sts_box[0]]
                for x in inner:
                    x.set |= mine
                    kill(x, mine)
                before = set(found)
                active.append(n.func.id)
                seq(g.body, inner)
                active.pop()
                for nm in set(found) - before:
                    found[nm] = (n, "read by %s, which is called on line %d before the assignment" % (g.name, n.lineno))
        sts_box = [sts]
        if e is not None:
            w(e, set())

    def kill(s, names, attrs=()):
        names, attrs = set(names), set(attrs)
        for k in list(s.facts):
            if k[0] == "const":
                if k[1] in names:
                    del s.facts[k]
                continue
            ns, at = _KN[k]
            if ns & names or at & attrs:
                del s.facts[k]

    def setconst(t, v, sts):
        """remember literal values of plain names"""
        if isinstance(t, ast.Name):
            c = v if isinstance(v, ast.Constant) else None
            for s in sts:
                if c is not None:
                    s.facts[("const", t.id)] = c.value
                elif isinstance(v, ast.Name) and ("const", v.id) in s.facts:
                    s.facts[("const", t.id)] = s.facts[("const", v.id)]
        elif isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
            for a, b in zip(t.elts, v.elts):
                setconst(a, b, sts)

    def ceval(t, s):
        """value of a test of literals, or None"""
        def val(e):
            if isinstance(e, ast.Constant):
                return (e.value,)
            if isinstance(e, ast.Name) and ("const", e.id) in s.facts:
                return (s.facts[("const", e.id)],)
            return None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = val(t.left), val(t.comparators[0])
            if a is None or b is None:
                return None
            a, b, o = a[0], b[0], t.ops[0]
            try:
                if isinstance(o, ast.Eq):
                    return a == b
                if isinstance(o, ast.NotEq):
                    return a != b
                if isinstance(o, ast.Is):
                    return a is b if (a is None or b is None or isinstance(a, bool)) else a == b
                if isinstance(o, ast.IsNot):
                    return a is not b if (a is None or b is None or isinstance(a, bool)) else a != b
                if isinstance(o, ast.Lt):
                    return a < b
                if isinstance(o, ast.LtE):
                    return a <= b
                if isinstance(o, ast.Gt):
                    return a > b
                if isinstance(o, ast.GtE):
                    return a >= b
            except TypeError:
                return None
            return None
        v = val(t)
        return None if v is None else bool(v[0])

    def assign(t, sts):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                for s in sts:
                    s.set.add(n.id)
                    kill(s, [n.id])
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                for s in sts:
                    s.set.discard(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                for s in sts:
                    kill(s, [], [n.attr])
        # index expressions inside targets are reads
        for n in ast.walk(t):
            if isinstance(n, ast.Subscript):
                read(n.slice, sts)
                read(n.value, sts)
            elif isinstance(n, ast.Attribute):
                read(n.value, sts)

    def branch(sts, test, val):
        out = []
        for s in sts:
            r = assume(s, test, val)
            out.extend(r)
        return out

    def assume(s, test, val):
        """states in which test has truth value val"""
        if isinstance(test, ast.Constant):
            return [s.clone()] if bool(test.value) == val else []
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return assume(s, test.operand, not val)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == val:
                cur = [s]
                for v in test.values:
                    cur = [x for c in cur for x in assume(c, v, val)]
                return cur
            # some operand decides: enumerate the first that does
            out, cur = [], [s]
            for v in test.values:
                out.extend(x for c in cur for x in assume(c, v, val))
                cur = [x for c in cur for x in assume(c, v, not val)]
            return out
        cv = ceval(test, s)
        if cv is not None:
            return [s.clone()] if cv == val else []
        k, p = cond_key(test)
        want = (val == p)
        if k in s.facts:
            return [s.clone()] if s.facts[k] == want else []
        # equality with different constants
        if k[0] == "==" and want:
            for (o, v) in s.facts.items():
                if v is True and o[0] == "==" and o[1] == k[1] and o[2] != k[2] and "Constant" in o[2] and "Constant" in k[2]:
                    return []
        if k[0] == "==" and not want:
            pass
        # `x is None` against truth of x
        if k[0] == "t" and want:
            if s.facts.get(("is", k[1], ast.dump(ast.Constant(None)))) is True:
                return []
        if k[0] == "is" and want and k[2] == ast.dump(ast.Constant(None)):
            if s.facts.get(("t", k[1])) is True:
                return []
        c = s.clone()
        c.facts[k] = want
        return [c]

    def merge(sts):
        uniq = {}
        for s in sts:
            key = (frozenset(s.set), frozenset((k, type(v), repr(v)) for k, v in s.facts.items()))
            uniq[key] = s
        sts = list(uniq.values())
        if len(sts) > MAX:
            # optimistic: forget which path, keep everything assigned somewhere
            return [St(set(local), {})]
        return sts

    loops = []

    def seq(body, sts):
        for b in body:
            if not sts:
                return sts
            sts = merge(stmt(b, sts))
        return sts

    def enum_chain(s):
        """an if/elif chain of equality tests of one expression with literals, with no
        else: the values are an enumeration, one of the branches is taken"""
        lhs, n, cur = None, 0, s
        while True:
            t = cur.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant)):
                return None
            d = ast.dump(t.left)
            if lhs is None:
                lhs = d
            elif lhs != d:
                return None
            n += 1
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
                continue
            if cur.orelse:
                return None
            return cur if n >= 2 else None

    def stmt(s, sts):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in getattr(s, "decorator_list", []):
                read(d, sts)
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults:
                    read(d, sts)
            for x in sts:
                x.set.add(s.name)
            return sts
        if isinstance(s, ast.Assign):
            read(s.value, sts)
            for t in s.targets:
                assign(t, sts)
                setconst(t, s.value, sts)
            return sts
        if isinstance(s, ast.AugAssign):
            read(s.value, sts)
            if isinstance(s.target, ast.Name):
                read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), sts)
            assign(s.target, sts)
            return sts
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                read(s.value, sts)
                assign(s.target, sts)
            return sts
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in sts:
                for a in s.names:
                    x.set.add(a.asname or a.name.split(".")[0])
            return sts
        if isinstance(s, (ast.Expr, ast.Assert)):
            read(s.value if isinstance(s, ast.Expr) else s.test, sts)
            if isinstance(s, ast.Assert):
                return branch(sts, s.test, True)
            return sts
        if isinstance(s, ast.Return):
            read(s.value, sts)
            return []
        if isinstance(s, ast.Raise):
            read(s.exc, sts)
            return []
        if isinstance(s, ast.Delete):
            for t in s.targets:
                assign(t, sts)
            return sts
        if isinstance(s, ast.If):
            read(s.test, sts)
            last = enum_chain(s)
            a = seq(s.body, branch(sts, s.test, True))
            eb = branch(sts, s.test, False)
            if s.orelse:
                b = seq(s.orelse, eb)
            elif getattr(s, "_enum_last", False):
                b = []
            else:
                b = eb
            return a + b
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                read(s.iter, sts)
                assign(s.target, sts)
                entry = sts
            else:
                read(s.test, sts)
                entry = branch(sts, s.test, True)
            loops.append(([], []))
            stored = set()
            attrs = set()
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stored.add(n.id)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    attrs.add(n.attr)
            out = seq(s.body, [x.clone() for x in entry])
            brk, cont = loops.pop()
            out = out + cont
            # a second round, entered with what the first one left
            loops.append(([], []))
            second = [x.clone() for x in out]
            if isinstance(s, ast.While):
                second = branch(second, s.test, True)
            else:
                assign(s.target, second)
            out2 = seq(s.body, merge(second))
            brk2, cont2 = loops.pop()
            after = out + out2 + cont2
            lk = last_key(s)
            if lk is not None:
                after = [x for x in after if x.facts.get(lk) is not False]
            if isinstance(s, ast.While):
                done = branch(after, s.test, False)
                if not done and not brk and not brk2 and not (isinstance(s.test, ast.Constant) and s.test.value):
                    done = [x.clone() for x in after]      # needs more rounds than are unrolled
                    for x in done:
                        kill(x, stored, attrs)
                after = done
            if s.orelse:
                after = seq(s.orelse, merge(after))
            return merge(after + brk + brk2)
        if isinstance(s, ast.Break):
            if loops:
                loops[-1][0].extend(sts)
            return []
        if isinstance(s, ast.Continue):
            if loops:
                loops[-1][1].extend(sts)
            return []
        if isinstance(s, ast.Try):
            start = [x.clone() for x in sts]
            a = seq(s.body, sts)
            if s.orelse:
                a = seq(s.orelse, a)
            outs = list(a)
            for h in s.handlers:
                hs = [x.clone() for x in start]
                if h.name:
                    for x in hs:
                        x.set.add(h.name)
                stored = set()
                for b in s.body:
                    for n in ast.walk(b):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            stored.add(n.id)
                # statements before the last one of the body are taken as done
                if len(s.body) > 1:
                    for b in s.body[:-1]:
                        for n in ast.walk(b):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                for x in hs:
                                    x.set.add(n.id)
                for x in hs:
                    kill(x, stored)
                if isinstance(h.type, ast.Name) and h.type.id in ("ImportError",):
                    pass
                outs += seq(h.body, hs)
            if s.finalbody:
                outs = seq(s.finalbody, merge(outs))
            return outs
        if isinstance(s, ast.With):
            for it in s.items:
                read(it.context_expr, sts)
                if it.optional_vars is not None:
                    assign(it.optional_vars, sts)
            return seq(s.body, sts)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                read(c, sts)
        return sts

    def last_key(s):
        """for i in range(N): the loop ends after the iteration with i == N-1"""
        if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                and s.iter.func.id in ("range", "xrange") and len(s.iter.args) in (1, 2)):
            return None
        hi = s.iter.args[-1]
        if isinstance(hi, ast.BinOp) and isinstance(hi.op, ast.Add) and isinstance(hi.right, ast.Constant) and hi.right.value == 1:
            last = hi.left
        else:
            last = ast.BinOp(hi, ast.Sub(), ast.Constant(1))
        return ("==", ast.dump(ast.Name(s.target.id, ast.Load())), ast.dump(last))

    # mark enumeration chains
    for n in ast.walk(fn):
        if isinstance(n, ast.If):
            l = enum_chain(n)
            if l is not None:
                l._enum_last = True
    seq(fn.body, [St(set(), {})])
    return [(k, v[0], v[1]) for k, v in sorted(found.items())]
