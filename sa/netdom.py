"""Formal tensor networks: a value is a sum of (coefficient, phase, network) where a
network lists named tensors with a label per index; equal labels are summed.  A small
interpreter of the syntax tree evaluates numpy-style code in this domain (a loop over
the values of an index is evaluated once, for an open label), and `canon` decides
whether two networks are the same contraction.  Nothing of the package is executed."""
import ast, cmath

HERM = ("l", "r", "ls", "rs", "lsi", "rsi")


class Undec(Exception):
    pass


class Stop(Exception):
    """the path ends with an exception of the analysed program"""


class Used(Exception):
    """something is read before it is computed"""
    def __init__(self, what):
        self.what = what


_n = [0]


def fresh():
    _n[0] += 1
    return _n[0]


class T(object):
    __slots__ = ("axes", "terms")

    def __init__(self, axes, terms):
        self.axes, self.terms = tuple(tuple(a) for a in axes), list(terms)

    def labels(self):
        return [x for g in self.axes for x in g]


class Arr(object):
    """a mutable array"""
    def __init__(self, t=None, zero=False):
        self.t, self.zero = t, zero


class Pin(object):
    def __init__(self, lab):
        self.lab = lab


class Dim(object):
    def __init__(self, k=1):
        self.k = k


class Lin(object):
    """c times the momentum"""
    def __init__(self, c):
        self.c = c


class Vec(object):
    """a vector that becomes the named tensor when reshaped"""
    def __init__(self, name):
        self.name = name


class Missing(object):
    def __init__(self, what):
        self.what = what


class Sym(tuple):
    """enumerate/zip over one open index"""


class Obj(object):
    def __init__(self, cls, attrs=None, stubs=None):
        self.cls, self.attrs, self.stubs = cls, attrs or {}, stubs or {}


class Fun(object):
    def __init__(self, fn, me=None):
        self.fn, self.me = fn, me


class Lib(object):
    def __init__(self, name):
        self.name = name


class Mod(object):
    def __init__(self, m):
        self.m = m


class Opaque(object):
    """a value the analysis does not need"""
    def __init__(self, why=""):
        self.why = why


def atom(name, n):
    ax = tuple((fresh(),) for _ in range(n))
    return T(ax, [(1, 0, ((name, False, tuple(g[0] for g in ax)),))])


def sub(nodes, mp):
    return tuple((nm, c, tuple(mp.get(x, x) for x in ls)) for nm, c, ls in nodes)


def rename(t, keep=()):
    mp = {}
    def f(x):
        if x in keep:
            return x
        if x not in mp:
            mp[x] = fresh()
        return mp[x]
    axes = [[f(x) for x in g] for g in t.axes]
    terms = [(c, p, tuple((nm, k, tuple(f(x) for x in ls)) for nm, k, ls in ns)) for c, p, ns in t.terms]
    return T(axes, terms)


def herm(name):
    return name.split(".")[0] in HERM


def conj(t):
    return T(t.axes, [(complex(c).conjugate(), -p, tuple((nm, not k, ls) for nm, k, ls in ns)) for c, p, ns in t.terms])


def canon(nodes, out):
    """canonical text of one network with output labels `out`"""
    work = []
    for nm, k, ls in nodes:
        if k and herm(nm):
            k, ls = False, (ls[1], ls[0])
        if k and nm.startswith("ham"):
            h = len(ls) // 2
            k, ls = False, tuple(ls[h:]) + tuple(ls[:h])
        if nm in ("1", "e"):
            k = False
        b = nm.split(".")
        if b[0] in ("l", "r"):
            x = fresh()
            work.append([b[0] + "s." + b[1], False, (ls[0], x)])
            work.append([b[0] + "s." + b[1], False, (x, ls[1])])
        else:
            work.append([nm, k, tuple(ls)])
    out = list(out)
    scal = []
    again = True
    while again:
        again = False
        for w in list(work):
            if w[0] == "1":
                a, b = w[2]
                if a in out and b in out:
                    continue
                if a == b:
                    work.remove(w)
                    scal.append("tr1")
                    again = True
                    break
                if a in out:
                    a, b = b, a          # a is inner: a -> b
                work.remove(w)
                for v in work:
                    v[2] = tuple(b if x == a else x for x in v[2])
                again = True
                break
        if again:
            continue
        for w in work:
            if w[0].split(".")[0] in ("ls", "rs"):
                inv = w[0].replace("s.", "si.")
                for v in work:
                    if v[0] == inv:
                        a, b = w[2]
                        c, d = v[2]
                        pair = (a, d) if b == c and b not in out else (c, b) if d == a and a not in out else None
                        if pair:
                            work.remove(w)
                            work.remove(v)
                            work.append(["1", False, pair])
                            again = True
                            break
                if again:
                    break
    ends = {}
    for i, (nm, k, ls) in enumerate(work):
        for j, x in enumerate(ls):
            ends.setdefault(x, []).append((i, j))
    seen = {}

    def walk(start):
        """text of the component reached from the queue of labels"""
        names, queue, txt = {}, [], []
        ids = {}

        def nid(i):
            if i not in ids:
                ids[i] = len(ids)
                seen[i] = True
                nm, k, ls = work[i]
                txt.append("%d:%s%s(%s)" % (ids[i], nm, "*" if k else "", ",".join(str(lab(x)) for x in ls)))
            return ids[i]

        def lab(x):
            if x not in names:
                names[x] = ("o%d" % out.index(x)) if x in out else "i%d" % len(names)
                queue.append(x)
            return names[x]
        for x in start:
            if isinstance(x, tuple):
                nid(x[1])
            else:
                lab(x)
        while queue:
            x = queue.pop(0)
            for i, j in ends.get(x, []):
                nid(i)
        bad = [names[x] for x in names if len(ends.get(x, [])) + out.count(x) != 2]
        return " ".join(txt) + (" dangling:%s" % ",".join(sorted(bad)) if bad else "")
    parts = [walk(out)] if out else []
    while len(seen) < len(work):
        i0 = [i for i in range(len(work)) if i not in seen][0]
        before = set(seen)
        first = walk([("n", i0)])
        comp = [i for i in seen if i not in before]
        best = first
        for i in comp:
            for x in comp:
                seen.pop(x, None)
            s = walk([("n", i)])
            best = min(best, s)
        for x in comp:
            seen[x] = True
        parts.append(best)
    return " | ".join(parts[:1] + sorted(parts[1:]) + sorted(scal)) if out else " | ".join(sorted(parts) + sorted(scal))


def describe(nodes):
    return " ".join(sorted("%s%s" % (nm, "*" if k and not herm(nm) else "") for nm, k, ls in nodes))


def collect(t):
    """{(phase, canonical network): (coefficient, description)}"""
    r = {}
    out = t.labels()
    for c, p, ns in t.terms:
        k = (p, canon(ns, out))
        r[k] = (r.get(k, (0, ""))[0] + c, describe(ns))
    return {k: v for k, v in r.items() if abs(v[0]) > 1e-12}


def diff(got, exp):
    """None when equal, else text"""
    if len(got.labels()) != len(exp.labels()):
        return "the result has %d indices, expected %d" % (len(got.labels()), len(exp.labels()))
    a, b = collect(got), collect(exp)
    miss = [k for k in b if k not in a]
    more = [k for k in a if k not in b]
    wrong = [k for k in a if k in b and abs(a[k][0] - b[k][0]) > 1e-9]
    def show(k, src):
        return "%+g * exp(%+dip) %s" % (complex(src[k][0]).real, k[0], src[k][1])
    msg = []
    if miss:
        msg.append("missing: " + "; ".join(show(k, b) for k in miss[:2]))
    if more:
        msg.append("instead: " + "; ".join(show(k, a) for k in more[:2]))
    if wrong:
        msg.append("wrong weight: " + "; ".join(show(k, a) for k in wrong[:2]))
    return None if not msg else "; ".join(msg)


# ------------------------------------------------------------------ operations
class Net(object):
    def __init__(self, prog, axioms=None):
        self.prog, self.axioms = prog, axioms or {}
        self.pins = []
        self.depth = 0
        self.structured = False
        self.called = set()
        self.mixed = None

    # --- values
    def t(self, v):
        if isinstance(v, Missing):
            raise Used(v.what)
        if isinstance(v, Arr):
            if v.t is None:
                if v.zero:
                    return T((), [])
                raise Undec("uninitialised array read")
            return v.t
        if isinstance(v, T):
            return v
        if isinstance(v, bool) or v is None:
            raise Undec("not a tensor")
        if isinstance(v, (int, float, complex)):
            return T((), [(v, 0, ())]) if v != 0 else T((), [])
        raise Undec("not a tensor: %s" % type(v).__name__)

    def isarr(self, v):
        return isinstance(v, (Arr, T))

    def mul(self, a, b, pairs=()):
        """contract; pairs of axis numbers"""
        a, b = rename(self.t(a), self.pins), rename(self.t(b), self.pins)
        if not a.terms or not b.terms:
            return T((), [])
        mp = {}
        for i, j in pairs:
            if i >= len(a.axes) or j >= len(b.axes) or len(a.axes[i]) != len(b.axes[j]):
                raise Undec("contraction of grouped indices")
            for x, y in zip(a.axes[i], b.axes[j]):
                mp[y] = x
        ia, jb = [i for i, _ in pairs], [j for _, j in pairs]
        axes = [g for i, g in enumerate(a.axes) if i not in ia] + [g for j, g in enumerate(b.axes) if j not in jb]
        terms = []
        for c, p, ns in a.terms:
            for d, q, ms in b.terms:
                # inner labels of the second factor must differ between products
                terms.append((c * d, p + q, ns + sub(ms, mp)))
        return T(axes, terms)

    def scale(self, t, c, ph=0):
        return T(t.axes, [(x * c, p + ph, ns) for x, p, ns in t.terms])

    def add(self, a, b, sign=1):
        a, b = self.t(a), self.t(b)
        if not b.terms:
            return a
        if not a.terms:
            return self.scale(b, sign)
        if len(a.labels()) != len(b.labels()):
            raise Undec("broadcast sum")
        b = rename(b, self.pins)
        mp = dict(zip(b.labels(), a.labels()))
        return T(a.axes, a.terms + [(c * sign, p, sub(ns, mp)) for c, p, ns in b.terms])

    def dot(self, a, b):
        ta, tb = self.t(a), self.t(b)
        if not ta.axes or not tb.axes:
            return self.mul(ta, tb)
        return self.mul(ta, tb, [(len(ta.axes) - 1, max(0, len(tb.axes) - 2))])

    def es(self, spec, *ops):
        """small einsum"""
        ins, out = spec.split("->")
        r = None
        labs = {}
        nodes_axes = ins.split(",")
        ts = [rename(self.t(o), self.pins) for o in ops]
        acc = T((), [(1, 0, ())])
        for s, t in zip(nodes_axes, ts):
            if not t.terms:
                return T((), [])
            if len(s) != len(t.axes):
                raise Undec("rank of an einsum operand")
            mp = {}
            for ch, g in zip(s, t.axes):
                if ch in labs:
                    if len(labs[ch]) != len(g):
                        raise Undec("grouped index in einsum")
                    mp.update(zip(g, labs[ch]))
                else:
                    labs[ch] = g
            acc = T((), [(c * d, p + q, ns + sub(ms, mp)) for c, p, ns in acc.terms for d, q, ms in t.terms])
        return T([labs[ch] for ch in out], acc.terms)

    def index(self, v, idx):
        t = self.t(v)
        if not t.terms:
            return t
        if len(idx) > len(t.axes):
            raise Undec("too many indices")
        t = rename(t, self.pins)
        mp, axes, picks = {}, [], []
        for g, i in zip(t.axes, idx):
            if isinstance(i, Pin):
                if len(g) != 1:
                    raise Undec("grouped index picked")
                mp[g[0]] = i.lab
            elif i == ":":
                axes.append(g)
            elif isinstance(i, int) and not isinstance(i, bool) and len(g) == 1:
                picks.append(("[%d]" % i, False, g))        # one entry
            else:
                raise Undec("index not an open label")
        axes += t.axes[len(idx):]
        return T(axes, [(c, p, sub(ns, mp) + tuple(picks)) for c, p, ns in t.terms])

    def store(self, arr, idx, val, base_pins, aug=None):
        if not isinstance(arr, Arr):
            raise Undec("store into a non-array")
        if any(i == ":" for i in idx) and not all(i == ":" for i in idx):
            if any(i == ":" for i in idx[:len([1 for i in idx if isinstance(i, Pin)])]):
                raise Undec("slice store")
        pins = [i.lab for i in idx if isinstance(i, Pin)]
        if len(set(pins)) != len(pins) or not all(isinstance(i, Pin) or i == ":" for i in idx):
            raise Undec("index of a store")
        t = self.t(val)
        t = rename(t, self.pins)
        rest = [x for x in self.pins if x not in pins and x not in base_pins and self.mentions(t, x)]
        mp = {x: fresh() for x in rest}
        if rest and aug is None:
            raise Undec("array entry overwritten in a loop")
        mp.update({x: fresh() for x in pins})
        if t.terms:
            t = T([(mp[x],) for x in pins] + list(t.axes), [(c, p, sub(ns, mp)) for c, p, ns in t.terms])
        if aug is None:
            arr.t = t if t.terms else None
            arr.zero = not t.terms
        else:
            arr.t = self.add(self.t(arr), t, aug)

    def mentions(self, t, x):
        return any(x in ls for c, p, ns in t.terms for nm, k, ls in ns)

    def reshape(self, v, shape):
        if isinstance(v, Vec):
            return Arr(atom(v.name, len(shape)))
        t = self.t(v)
        if not t.terms:
            return Arr(t)
        labs = t.labels()
        ks = []
        for s in shape:
            if not isinstance(s, Dim):
                raise Undec("reshape")
            ks.append(s.k)
        if sum(ks) != len(labs):
            raise Undec("reshape to other dimensions")
        axes, i = [], 0
        for k in ks:
            axes.append(labs[i:i + k])
            i += k
        return Arr(T(axes, t.terms))

    # --- interpreter
    def call(self, fn, args, kw, me=None):
        if self.depth > 25:
            raise Undec("recursion")
        a = fn.args
        names = [x.arg for x in a.args]
        env = {}
        vals = ([me] if me is not None else []) + list(args)
        if len(vals) > len(names):
            raise Undec("arguments of %s" % fn.name)
        for nm, v in zip(names, vals):
            env[nm] = v
        mod = fn._mod
        for nm, v in kw.items():
            env[nm] = v
        nd = len(a.defaults)
        for nm, d in zip(names[len(names) - nd:], a.defaults):
            if nm not in env:
                env[nm] = self.expr(d, {}, mod, {})
        self.depth += 1
        self.called.add(fn)
        try:
            born = {k: list(self.pins) for k in env}
            return self.block_ret(fn.body, env, mod, born)
        finally:
            self.depth -= 1

    class Ret(Exception):
        def __init__(self, v):
            self.v = v

    class Brk(Exception):
        pass

    class Cont(Exception):
        pass

    def block_ret(self, body, env, mod, born):
        try:
            self.block(body, env, mod, born)
        except Net.Ret as r:
            return r.v
        return None

    def block(self, body, env, mod, born):
        for s in body:
            self.stmt(s, env, mod, born)

    def truth(self, v):
        if isinstance(v, (bool, int, float, str)) or v is None:
            return bool(v)
        if isinstance(v, (list, tuple)):
            return bool(v)
        if isinstance(v, (Obj, Fun)):
            return True
        raise Undec("condition not determined")

    def assign(self, tgt, v, env, mod, born):
        if isinstance(tgt, ast.Name):
            env[tgt.id] = v
            born[tgt.id] = list(self.pins)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            if not isinstance(v, (list, tuple)) or len(v) != len(tgt.elts):
                raise Undec("unpacking")
            for t, x in zip(tgt.elts, v):
                self.assign(t, x, env, mod, born)
        elif isinstance(tgt, ast.Attribute):
            o = self.expr(tgt.value, env, mod, born)
            if not isinstance(o, Obj):
                raise Undec("attribute of a non-object")
            o.attrs[tgt.attr] = v
        elif isinstance(tgt, ast.Subscript):
            o = self.expr(tgt.value, env, mod, born)
            i = self.subscript(tgt.slice, env, mod, born)
            if isinstance(o, dict) and len(i) == 1 and isinstance(i[0], (str, int)):
                o[i[0]] = v
                return
            if isinstance(o, list):
                if len(i) == 1 and isinstance(i[0], int):
                    o[i[0]] = v
                    return
                raise Undec("list store")
            bp = born.get(tgt.value.id, []) if isinstance(tgt.value, ast.Name) else []
            self.store(o, i, v, bp)
        else:
            raise Undec("assignment target")

    def stmt(self, s, env, mod, born):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in ("log", "logging"):
                return
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
                return
            self.expr(s.value, env, mod, born)
        elif isinstance(s, ast.Assign):
            v = s.value
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)) \
                    and isinstance(v.left, ast.Name) and v.left.id == s.targets[0].id and self.pins:
                self.aug(s.targets[0], v.op, v.right, env, mod, born, rebind=True)
                return
            v = self.expr(v, env, mod, born)
            for t in s.targets:
                self.assign(t, v, env, mod, born)
        elif isinstance(s, ast.AugAssign):
            self.aug(s.target, s.op, s.value, env, mod, born)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env, mod, born), env, mod, born)
        elif isinstance(s, ast.Return):
            if self.pins and getattr(self, "loopdepth", 0):
                raise Undec("return from within a loop")
            raise Net.Ret(self.expr(s.value, env, mod, born) if s.value is not None else None)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.expr(s.test, env, mod, born)) else s.orelse, env, mod, born)
        elif isinstance(s, ast.For):
            self.loop(s, env, mod, born)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.expr(s.test, env, mod, born)):
                n += 1
                if n > 20:
                    raise Undec("loop")
                try:
                    self.block(s.body, env, mod, born)
                except Net.Brk:
                    break
                except Net.Cont:
                    continue
        elif isinstance(s, ast.Try):
            if s.handlers and any("AttributeError" in ast.dump(h.type) for h in s.handlers if h.type is not None):
                if self.structured:
                    self.block(s.body + s.orelse + s.finalbody, env, mod, born)
                else:
                    # plain arrays do not have the methods of the structured ones
                    h = [h for h in s.handlers if h.type is not None and "AttributeError" in ast.dump(h.type)][0]
                    if any(isinstance(x, ast.Attribute) and x.attr == "dot_left" for b in s.body for x in ast.walk(b)):
                        self.block(h.body + s.finalbody, env, mod, born)
                    else:
                        self.block(s.body + s.orelse + s.finalbody, env, mod, born)
            else:
                self.block(s.body + s.orelse + s.finalbody, env, mod, born)
        elif isinstance(s, ast.Raise):
            raise Stop()
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(s, ast.Break):
            raise Net.Brk()
        elif isinstance(s, ast.Continue):
            raise Net.Cont()
        elif isinstance(s, ast.FunctionDef):
            s._mod = mod
            s._closure = (env, born)
            env[s.name] = Fun(s)
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom, ast.Global)):
            pass
        else:
            raise Undec(type(s).__name__)

    def aug(self, tgt, op, value, env, mod, born, rebind=False):
        v = self.expr(value, env, mod, born)
        sign = 1 if isinstance(op, ast.Add) else -1 if isinstance(op, ast.Sub) else None
        if isinstance(tgt, ast.Name):
            old = self.expr(tgt, env, mod, born)
            bp = born.get(tgt.id, [])
        elif isinstance(tgt, ast.Subscript):
            o = self.expr(tgt.value, env, mod, born)
            i = self.subscript(tgt.slice, env, mod, born)
            if isinstance(o, list):
                old, bp = self.getitem(o, i), []
            elif sign is not None:
                bp = born.get(tgt.value.id, []) if isinstance(tgt.value, ast.Name) else []
                self.store(o, i, v, bp, sign)
                return
            elif all(x == ":" for x in i):
                old, bp = o, []
            else:
                cur = self.index(o, i)
                new = self.binop(op, Arr(cur), v)
                self.store(o, i, new, [])
                return
        else:
            old, bp = self.expr(tgt, env, mod, born), []
        if self.isarr(v) and sign is not None:
            t = self.t(v)
            mp = {x: fresh() for x in self.pins if x not in bp and self.mentions(t, x)}
            if mp:
                if isinstance(old, Arr) and old.t is not None and any(self.mentions(old.t, x) for x in mp):
                    raise Undec("accumulation of entries")
                t = T(t.axes, [(c, p, sub(ns, mp)) for c, p, ns in t.terms])
                v = Arr(t)
        new = self.binop(op, old, v)
        if isinstance(old, Arr) and isinstance(new, Arr) and not rebind:
            old.t, old.zero = new.t, new.zero or (new.t is not None and not new.t.terms)
            if new.t is not None and not new.t.terms:
                old.t, old.zero = None, True
            return
        if isinstance(old, list) and isinstance(op, ast.Add) and not rebind:
            old.extend(v)
            return
        if isinstance(tgt, ast.Name):
            env[tgt.id] = new                       # born stays
        else:
            self.assign(tgt, new, env, mod, born)

    def items(self, it):
        """concrete list of values, or None for the values of one index"""
        if isinstance(it, (list, tuple)) and not isinstance(it, Sym):
            return list(it)
        if isinstance(it, range):
            return list(it)
        return None

    def loop(self, s, env, mod, born):
        it = self.expr(s.iter, env, mod, born)
        xs = self.items(it)
        if xs is not None:
            if len(xs) > 40:
                raise Undec("long loop")
            for x in xs:
                self.assign(s.target, x, env, mod, born)
                try:
                    self.block(s.body, env, mod, born)
                except Net.Brk:
                    return
                except Net.Cont:
                    continue
            self.block(s.orelse, env, mod, born)
            return
        before = set(env)
        pin = fresh()
        val = self.open(it, pin)
        self.pins.append(pin)
        try:
            self.assign(s.target, val, env, mod, born)
            try:
                self.block(s.body, env, mod, born)
            except (Net.Brk, Net.Cont):
                raise Undec("control flow over an index")
        finally:
            self.pins.remove(pin)
        for k, v in list(env.items()):
            if isinstance(v, Arr) and v.t is not None and self.mentions(v.t, pin):
                env[k] = Opaque("value of the last pass of a loop")
            elif isinstance(v, Pin) and v.lab == pin:
                env[k] = Opaque("loop variable")

    def open(self, it, pin):
        if isinstance(it, Dim):
            if it.k != 1:
                raise Undec("loop over a joint index")
            return Pin(pin)
        if isinstance(it, Arr):
            return Arr(self.index(it, [Pin(pin)]))
        if isinstance(it, Sym) and it[0] == "zip":
            return tuple(self.open(x, pin) for x in it[1])
        if isinstance(it, Sym) and it[0] == "enum":
            return (Pin(pin), self.open(it[1], pin))
        raise Undec("iteration")

    def subscript(self, s, env, mod, born):
        def one(e):
            if isinstance(e, ast.Slice):
                if e.lower is None and e.upper is None and e.step is None:
                    return ":"
                f = lambda x: None if x is None else self.expr(x, env, mod, born)
                return slice(f(e.lower), f(e.upper), f(e.step))
            if isinstance(e, ast.Constant) and e.value is Ellipsis:
                return ":"                      # (alone)
            return self.expr(e, env, mod, born)
        if isinstance(s, ast.Tuple):
            return [one(e) for e in s.elts]
        v = one(s)
        return list(v) if isinstance(v, tuple) else [v]

    def getitem(self, o, i):
        if isinstance(o, Missing):
            raise Used(o.what)
        if isinstance(o, dict):
            if len(i) == 1 and isinstance(i[0], (str, int)) and i[0] in o:
                return o[i[0]]
            raise Undec("dictionary entry")
        if isinstance(o, (list, tuple)):
            if len(i) == 1 and (isinstance(i[0], (int, slice)) and not isinstance(i[0], bool)):
                try:
                    v = o[i[0]]
                except IndexError:
                    raise Undec("index out of range")
                except TypeError:
                    raise Undec("slice")
                if isinstance(v, Missing):
                    raise Used(v.what)
                return v
            raise Undec("list index")
        if self.isarr(o):
            return Arr(self.index(o, i))
        raise Undec("subscript")

    def binop(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Missing):
                raise Used(v.what)
        num = (int, float, complex)
        if isinstance(a, num) and isinstance(b, num):
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b,
                 ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}.get(type(op))
            if f is None:
                raise Undec("operator")
            return f()
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(op, ast.Add):
            return type(a)(list(a) + list(b))
        if isinstance(a, (list, tuple)) and isinstance(b, int) and isinstance(op, ast.Mult):
            return type(a)(list(a) * b)
        if isinstance(a, Lin) and isinstance(b, num):
            if isinstance(op, ast.Mult):
                return Lin(a.c * b)
            if isinstance(op, ast.Div):
                return Lin(a.c / b)
        if isinstance(b, Lin) and isinstance(a, num) and isinstance(op, ast.Mult):
            return Lin(a * b.c)
        if isinstance(a, Lin) and isinstance(b, Lin) and isinstance(op, (ast.Add, ast.Sub)):
            return Lin(a.c + (b.c if isinstance(op, ast.Add) else -b.c))
        if isinstance(a, Dim) or isinstance(b, Dim):
            if isinstance(op, ast.Mult):
                x, y = (a.k if isinstance(a, Dim) else None), (b.k if isinstance(b, Dim) else None)
                if x is not None and y is not None:
                    return Dim(x + y)
            if isinstance(op, ast.Pow) and isinstance(b, int):
                return Dim(a.k * b)
            if isinstance(op, (ast.Sub, ast.Add)) and isinstance(a, Dim) and isinstance(b, int):
                return Dim(0)            # q - 1 in the dimension of a null space
            raise Undec("dimension arithmetic")
        if self.isarr(a) or self.isarr(b):
            if isinstance(op, (ast.Add, ast.Sub)):
                return Arr(self.add(a, b, 1 if isinstance(op, ast.Add) else -1))
            if isinstance(op, ast.MatMult):
                return Arr(self.dot(a, b))
            ta, tb = self.t(a), self.t(b)
            if isinstance(op, ast.Mult):
                if not ta.axes or not tb.axes:
                    return Arr(self.mul(ta, tb))
                raise Undec("elementwise product")
            if isinstance(op, ast.Div):
                if isinstance(b, num):
                    return Arr(self.scale(ta, 1.0 / b))
                if not tb.axes and len(tb.terms) == 1 and not tb.terms[0][2]:
                    c, p, _ = tb.terms[0]
                    return Arr(self.scale(ta, 1 / c, -p))
                if not tb.axes:
                    return a           # normalisation by a number
        raise Undec("operator on %s and %s" % (type(a).__name__, type(b).__name__))

    def expr(self, e, env, mod, born):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
                return v
            return self.glob(e.id, mod)
        if isinstance(e, ast.Attribute):
            return self.attr(self.expr(e.value, env, mod, born), e.attr)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.expr(e.left, env, mod, born), self.expr(e.right, env, mod, born))
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env, mod, born)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.USub):
                if isinstance(v, Lin):
                    return Lin(-v.c)
                if isinstance(v, (int, float, complex)):
                    return -v
                return Arr(self.scale(self.t(v), -1))
            raise Undec("operator")
        if isinstance(e, ast.BoolOp):
            r = None
            for x in e.values:
                r = self.expr(x, env, mod, born)
                b = self.truth(r)
                if b != isinstance(e.op, ast.And):
                    return r
            return r
        if isinstance(e, ast.Compare):
            l = self.expr(e.left, env, mod, born)
            for op, c in zip(e.ops, e.comparators):
                r = self.expr(c, env, mod, born)
                if not self.compare(op, l, r):
                    return False
                l = r
            return True
        if isinstance(e, ast.IfExp):
            return self.expr(e.body if self.truth(self.expr(e.test, env, mod, born)) else e.orelse, env, mod, born)
        if isinstance(e, ast.Tuple):
            return tuple(self.expr(x, env, mod, born) for x in e.elts)
        if isinstance(e, ast.List):
            return [self.expr(x, env, mod, born) for x in e.elts]
        if isinstance(e, ast.Subscript):
            return self.getitem(self.expr(e.value, env, mod, born), self.subscript(e.slice, env, mod, born))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(e, env, mod, born)
        if isinstance(e, ast.Call):
            return self.callexpr(e, env, mod, born)
        if isinstance(e, ast.Lambda):
            f = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[])
            f._mod, f._closure = mod, (env, born)
            return Fun(f)
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            return {self.expr(k, env, mod, born): self.expr(v, env, mod, born) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.JoinedStr):
            return ""
        raise Undec(type(e).__name__)

    def compare(self, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)):
            same = l is r
            return same == isinstance(op, ast.Is)
        if isinstance(op, ast.In):
            return l in r if isinstance(r, (list, tuple)) else self.truth(None)
        num = (int, float, complex, str, bool)
        if isinstance(l, num) and isinstance(r, num) or l is None or r is None:
            f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}.get(type(op))
            return f()
        if isinstance(l, Dim) and isinstance(r, Dim) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (l.k == r.k) == isinstance(op, ast.Eq)
        if (self.isarr(l) or isinstance(l, Opaque)) and r == 0 and isinstance(op, (ast.Eq, ast.NotEq)):
            return isinstance(op, ast.NotEq)          # generic values are not zero
        raise Undec("comparison")

    def comp(self, e, env, mod, born):
        if len(e.generators) != 1:
            raise Undec("comprehension")
        g = e.generators[0]
        it = self.expr(g.iter, env, mod, born)
        xs = self.items(it)
        env2, born2 = dict(env), dict(born)
        if xs is not None:
            out = []
            for x in xs:
                self.assign(g.target, x, env2, mod, born2)
                if all(self.truth(self.expr(c, env2, mod, born2)) for c in g.ifs):
                    out.append(self.expr(e.elt, env2, mod, born2))
            return out
        if g.ifs:
            raise Undec("filtered comprehension over an index")
        pin = fresh()
        val = self.open(it, pin)
        self.pins.append(pin)
        try:
            self.assign(g.target, val, env2, mod, born2)
            t = self.t(self.expr(e.elt, env2, mod, born2))
            t = rename(t, self.pins)
        finally:
            self.pins.remove(pin)
        x = fresh()
        return Arr(T([(x,)] + list(t.axes), [(c, p, sub(ns, {pin: x})) for c, p, ns in t.terms]))

    def glob(self, name, mod):
        if name in ("range", "len", "sum", "enumerate", "zip", "reversed", "list", "tuple", "callable", "isinstance", "hasattr", "abs", "max", "min", "super", "complex", "float", "int", "print", "sorted", "getattr", "dict", "slice"):
            return Lib("builtins." + name)
        r = self.prog.resolve_name(mod, name)
        if isinstance(r, ast.FunctionDef):
            if not hasattr(r, "_mod"):
                raise Undec("nested function")
            return Fun(r)
        if isinstance(r, ast.ClassDef):
            return r
        if isinstance(r, tuple):
            if r[0] == "lib":
                return Lib(r[1])
            if r[0] == "pkgmod":
                return Mod(r[1])
            if r[0] == "const":
                return self.expr(r[1], {}, mod, {})
        raise Undec("name %s" % name)

    def attr(self, o, a):
        if isinstance(o, Missing):
            raise Used(o.what)
        if isinstance(o, Mod):
            return self.glob(a, o.m)
        if isinstance(o, Lib):
            if a in ("complex128", "newaxis"):
                return Opaque(a)
            return Lib(o.name + "." + a)
        if isinstance(o, Obj):
            if a in o.attrs:
                v = o.attrs[a]
                if isinstance(v, Missing):
                    raise Used(v.what)
                return v
            if a in o.stubs:
                return ("stub", o, o.stubs[a])
            m = self.prog.method(o.cls, a) if o.cls else None
            if m is not None:
                return Fun(m, o)
            raise Undec("attribute %s" % a)
        if isinstance(o, Lin):
            if a == "real":
                return o
        if isinstance(o, (int, float, complex)) and a in ("real", "imag"):
            return getattr(o, a)
        if self.isarr(o):
            if a in ("dtype", "size", "flags", "itemsize"):
                return Opaque(a)
            if a == "real":
                return o
            t = o.t if isinstance(o, Arr) else o
            if a == "shape":
                t = self.t(o)
                return tuple(Dim(len(g)) for g in t.axes)
            if a == "ndim":
                return len(self.t(o).axes)
            if a == "T":
                t = self.t(o)
                return Arr(T(t.axes[::-1], t.terms))
            return ("meth", o, a)
        if isinstance(o, (list, Vec, str, Opaque, tuple)):
            return ("meth", o, a)
        raise Undec("attribute %s of %s" % (a, type(o).__name__))

    def callexpr(self, e, env, mod, born):
        f = self.expr(e.func, env, mod, born)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.expr(a.value, env, mod, born))
            else:
                args.append(self.expr(a, env, mod, born))
        kw = {}
        entry = [k for k in e.keywords if k.arg == "out" and isinstance(k.value, ast.Subscript)]
        for k in e.keywords:
            if k in entry:
                continue
            if k.arg is None:
                d = self.expr(k.value, env, mod, born)
                if not isinstance(d, dict) or not all(isinstance(x, str) for x in d):
                    raise Undec("keyword dictionary")
                kw.update(d)
                continue
            kw[k.arg] = self.expr(k.value, env, mod, born)
        if isinstance(f, Lib) and f.name == "builtins.super":
            raise Undec("super")
        if isinstance(f, Lib) and f.name.endswith(".copyto") and isinstance(e.args[0], ast.Subscript):
            self.assign(e.args[0], args[1], env, mod, born)
            return None
        if isinstance(f, Lib) and f.name.endswith(".copyto") and isinstance(args[0], Arr):
            args[0].t, args[0].zero = (self.t(args[1]), False) if self.t(args[1]).terms else (None, True)
            return None
        if entry:
            r = self.apply(f, args, kw, e)
            self.assign(entry[0].value, r, env, mod, born)
            return r
        return self.apply(f, args, kw, e)

    def apply(self, f, args, kw, node=None):
        if isinstance(f, Fun):
            q = "%s.%s" % (f.fn._mod.name, f.fn.name)
            if f.me is None and q in self.axioms:
                return self.axioms[q](self, args, kw, f.fn, node)
            if f.me is not None and "method." + f.fn.name in self.axioms:
                return self.axioms["method." + f.fn.name](self, args, kw, f.fn, node)
            c = getattr(f.fn, "_closure", None)
            if c is not None:
                names = [x.arg for x in f.fn.args.args]
                env2 = dict(c[0])
                env2.update(zip(names, args))
                env2.update(kw)
                return self.block_ret(f.fn.body, env2, f.fn._mod, dict(c[1]))
            return self.call(f.fn, args, kw, f.me)
        if isinstance(f, ast.ClassDef):
            if f.name == "eyemat":
                x = [(fresh(),), (fresh(),)]
                return Arr(T(x, [(1, 0, (("1", False, (x[0][0], x[1][0])),))]))
            o = Obj(f.name)
            init = self.prog.method(f.name, "__init__")
            if init is not None:
                self.call(init, args, kw, o)
            return o
        if isinstance(f, tuple) and f and f[0] == "stub":
            return f[2](self, f[1], args, kw)
        if isinstance(f, tuple) and f and f[0] == "meth":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Lib):
            return self.lib(f.name, args, kw)
        raise Undec("call")

    def method(self, o, a, args, kw):
        if isinstance(o, list):
            if a == "append":
                o.append(args[0])
                return None
            if a == "extend":
                o.extend(args[0])
                return None
            if a == "copy":
                return list(o)
            raise Undec("list." + a)
        if isinstance(o, Opaque):
            return Opaque(a)
        if isinstance(o, Vec):
            if a == "reshape":
                return self.reshape(o, self.shape(args))
            if a in ("ravel", "copy", "conj"):
                return o
            raise Undec("vector." + a)
        if isinstance(o, str):
            return o
        if a == "ravel":
            return o
        if a == "fill" and isinstance(o, Arr) and args == [0]:
            o.t, o.zero = None, True
            return None
        if a == "fill":
            raise Undec("fill")
        t = self.t(o)
        if a in ("copy", "toarray", "astype"):
            return Arr(rename(t, self.pins))
        if a in ("conj", "conjugate"):
            return Arr(conj(t))
        if a == "transpose":
            ax = kw.get("axes", args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args or None)
            return Arr(self.transpose(t, ax))
        if a == "swapaxes":
            ax = list(range(len(t.axes)))
            i, j = args[0] % len(ax), args[1] % len(ax)
            ax[i], ax[j] = ax[j], ax[i]
            return Arr(self.transpose(t, ax))
        if a == "reshape":
            return self.reshape(o, self.shape(args))
        if a == "dot":
            r = Arr(self.dot(t, args[0]))
            out = kw.get("out")
            if isinstance(out, Arr):
                out.t = r.t
                return out
            return r
        if a == "dot_left":
            return Arr(self.dot(args[0], t))
        if a == "trace":
            t = rename(t, self.pins)
            x, y = t.axes
            return Arr(T((), [(c, p, sub(ns, {y[0]: x[0]})) for c, p, ns in t.terms]))
        if a == "sum" and (args == [0] or kw.get("axis") == 0):
            return Arr(T(t.axes[1:], t.terms))
        raise Undec("method " + a)

    def shape(self, args):
        s = args[0] if len(args) == 1 else tuple(args)
        return tuple(s) if isinstance(s, (tuple, list)) else (s,)

    def transpose(self, t, ax):
        if ax is None:
            return T(t.axes[::-1], t.terms)
        if sorted(ax) != list(range(len(t.axes))):
            raise Undec("transpose")
        return T([t.axes[i] for i in ax], t.terms)

    def lib(self, name, args, kw):
        f = name.split(".")[-1]
        if name.startswith("builtins."):
            return self.builtin(f, args, kw)
        if f in ("zeros", "zeros_like"):
            return Arr(None, True)
        if f in ("empty", "empty_like"):
            return Arr(None, False)
        if f == "ones_like":
            return Arr(None, False)
        if f in ("asarray", "array", "ascontiguousarray", "copy", "asmatrix"):
            v = args[0]
            if v is None or isinstance(v, Missing):
                return v
            return Arr(rename(self.t(v), self.pins)) if f in ("array", "copy") and self.isarr(v) else v
        if f in ("eye", "identity"):
            k = args[0].k if isinstance(args[0], Dim) else None
            if k is None:
                raise Undec("identity of unknown size")
            a, b = [fresh() for _ in range(k)], [fresh() for _ in range(k)]
            return Arr(T([a, b], [(1, 0, tuple(("1", False, (x, y)) for x, y in zip(a, b)))]))
        if f == "exp":
            v = args[0]
            if isinstance(v, Lin):
                c = complex(v.c / 1j)
                if abs(c.imag) > 1e-12 or abs(c.real - round(c.real)) > 1e-12:
                    return Arr(T((), [(1, 0, (("exp(%s p)" % v.c, False, ()),))]))
                return Arr(T((), [(1, int(round(c.real)), ())]))
            if isinstance(v, (int, float, complex)):
                return cmath.exp(v)
            raise Undec("exp")
        if f in ("conj", "conjugate"):
            return Arr(conj(self.t(args[0])))
        if f == "transpose":
            return Arr(self.transpose(self.t(args[0]), kw.get("axes", args[1] if len(args) > 1 else None)))
        if f == "tensordot":
            ax = kw.get("axes", args[2] if len(args) > 2 else 2)
            a, b = self.t(args[0]), self.t(args[1])
            if isinstance(ax, int):
                n = len(a.axes)
                pr = [(n - ax + i, i) for i in range(ax)]
            else:
                x, y = ax
                x, y = (x if isinstance(x, (tuple, list)) else (x,)), (y if isinstance(y, (tuple, list)) else (y,))
                pr = [(i % len(a.axes), j % len(b.axes)) for i, j in zip(x, y)]
            return Arr(self.mul(a, b, pr))
        if f == "einsum":
            if not isinstance(args[0], str) or "->" not in args[0]:
                raise Undec("einsum")
            return Arr(self.es(args[0].replace(" ", ""), *args[1:]))
        if f in ("dot", "matmul"):
            r = Arr(self.dot(args[0], args[1]))
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if isinstance(out, Arr):
                out.t = r.t
                return out
            return r
        if f == "multiply" or f == "add" or f == "subtract":
            r = self.binop({"multiply": ast.Mult, "add": ast.Add, "subtract": ast.Sub}[f](), args[0], args[1])
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if isinstance(out, Arr):
                out.t, out.zero = r.t, r.zero
                return out
            return r
        if f == "sqrt" and self.isarr(args[0]) and not self.t(args[0]).axes:
            return Arr(T((), [(1, 0, (("sqrt(%s)" % collect(self.t(args[0])), False, ()),))]))
        if f in ("norm", "dtype", "sqrt", "allclose", "finfo"):
            return Opaque(f)
        if f == "sum":
            return self.builtin("sum", args, kw)
        raise Undec("library call %s" % name)

    def builtin(self, f, args, kw):
        if f == "dict":
            return dict(args[0] if args else {}, **kw)
        if f == "range":
            if len(args) == 1 and isinstance(args[0], Dim):
                return args[0]
            if all(isinstance(a, int) for a in args):
                return range(*args)
            raise Undec("range")
        if f == "len":
            v = args[0]
            if isinstance(v, (list, tuple, range)):
                return len(v)
            if self.isarr(v):
                return Dim(len(self.t(v).axes[0]))
            raise Undec("len")
        if f == "enumerate":
            if isinstance(args[0], (list, tuple, range)):
                return list(enumerate(args[0]))
            return Sym(("enum", args[0]))
        if f == "zip":
            if all(isinstance(a, (list, tuple, range)) for a in args):
                return list(zip(*args))
            return Sym(("zip", list(args)))
        if f == "reversed":
            return list(args[0])[::-1]
        if f in ("list", "tuple"):
            v = args[0]
            if isinstance(v, (list, tuple, range)):
                return list(v) if f == "list" else tuple(v)
            raise Undec(f)
        if f == "sum":
            v = args[0]
            if isinstance(v, (list, tuple)):
                r = args[1] if len(args) > 1 else 0
                for x in v:
                    r = self.binop(ast.Add(), r, x)
                return r
            t = self.t(v)
            return Arr(T(t.axes[1:], t.terms))
        if f == "callable":
            return isinstance(args[0], Fun)
        if f == "print":
            return None
        if f == "hasattr":
            if args[1] in ("dot_left",):
                return self.structured
            raise Undec("hasattr")
        if f in ("max", "min", "abs", "int", "float", "complex") and all(isinstance(a, (int, float, complex)) for a in args):
            return {"max": max, "min": min, "abs": abs, "int": int, "float": float, "complex": complex}[f](*args)
        if f == "isinstance":
            raise Undec("isinstance")
        raise Undec("builtin " + f)
