"""The compiled transfer kernels (`*.pyx`): the Cython text is reduced to Python syntax
(declarations become tables of types) and every exported kernel is interpreted over formal
index expressions: an array holds a sum of products of entries of the arguments, with the
range of every summed index as a function of the shapes and the number of threads.  Integers
are functions of these, compared on a grid of (also unequal) values; a condition that is not
constant splits the grid.  BLAS calls follow their column-major definition, with the
dimensions and leading dimensions they are given.  Nothing of the package is executed."""
import ast, itertools, os, re
from collections import Counter


class Und(Exception):
    pass


class Bad(Exception):
    def __init__(self, why, node=None):
        self.why, self.node = why, node


class Ret(Exception):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------ Cython -> Python
TYPEWORD = r"(?:[A-Za-z_][\w.]*)"


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def arg(a):
    """(name, default text or None, type text)"""
    a = a.strip()
    dflt = None
    d = 0
    for i, ch in enumerate(a):
        if ch in "([":
            d += 1
        if ch in ")]":
            d -= 1
        if ch == "=" and d == 0:
            a, dflt = a[:i].strip(), a[i + 1:].strip()
            break
    m = re.match(r"^(.*?)([A-Za-z_]\w*)$", a, re.S)
    if not m:
        raise Und("argument " + a)
    return m.group(2), dflt, m.group(1).strip()


def strip_comment(s):
    q = None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in "'\"":
            q = ch
        elif ch == "#":
            return s[:i]
    return s


def to_python(text):
    """(python text with the same line numbers, {function: {name: type}}, {typedef: text})"""
    lines = text.split("\n")
    out = [""] * len(lines)
    types, tdefs = {}, {}
    fn = None
    i = 0
    while i < len(lines):
        if re.match(r'^\s*("""|\'\'\')', lines[i]):
            qs = lines[i].strip()[:3]
            if lines[i].strip().count(qs) < 2:
                i += 1
                while i < len(lines) and qs not in lines[i]:
                    i += 1
            i += 1
            continue
        j, s = i, strip_comment(lines[i])
        while j + 1 < len(lines) and (sum(s.count(c) for c in "([{") > sum(s.count(c) for c in ")]}") or s.rstrip().endswith("\\")):
            j += 1
            s = s.rstrip().rstrip("\\") + " " + strip_comment(lines[j]).strip()
        ind = s[:len(s) - len(s.lstrip())]
        b = s.strip()
        r = b
        m = re.match(r"^(?:cdef|cpdef)\s+(.*?)([A-Za-z_]\w*)\s*\((.*)\)\s*(?:nogil|noexcept|except[^:]*|with gil|\s)*:\s*(.*)$", b)
        if m and "=" not in m.group(1) and re.match(r"^[\w\s.\[\],*]*$", m.group(1)):
            args = [arg(a) for a in split_top(m.group(3))]
            fn = m.group(2)
            types[fn] = {a[0]: a[2] for a in args}
            r = "def %s(%s):%s" % (fn, ", ".join(a[0] + ("=" + a[1] if a[1] else "") for a in args), " " + m.group(4) if m.group(4) else "")
        elif b.startswith("def "):
            m = re.match(r"^def\s+([A-Za-z_]\w*)\s*\((.*)\)\s*:\s*(.*)$", b)
            if m:
                args = [arg(a) for a in split_top(m.group(2))]
                fn = m.group(1)
                types[fn] = {a[0]: a[2] for a in args}
                r = "def %s(%s):%s" % (fn, ", ".join(a[0] + ("=" + a[1] if a[1] else "") for a in args), " " + m.group(3) if m.group(3) else "")
        elif re.match(r"^(from\s+\S+\s+)?cimport\b", b) or b.startswith("from __future__"):
            r = "pass"
        elif b.startswith("ctypedef"):
            m = re.match(r"^ctypedef\s+(.*?)\s+([A-Za-z_]\w*)$", b)
            if m:
                tdefs[m.group(2)] = m.group(1)
            r = "pass"
        elif b.startswith("cdef "):
            d = b[5:].strip()
            parts = split_top(d)
            m = re.match(r"^(.*?[\s\]*])([A-Za-z_]\w*)\s*(=.*)?$", parts[0].strip(), re.S)
            if not m:
                raise Und("declaration " + b)
            ty = m.group(1).strip()
            res = []
            for k, p in enumerate(parts):
                p = (m.group(2) + (m.group(3) or "")) if k == 0 else p.strip()
                mm = re.match(r"^\**([A-Za-z_]\w*)\s*(=(.*))?$", p, re.S)
                if not mm:
                    raise Und("declaration " + b)
                types.setdefault(fn, {})[mm.group(1)] = ty
                if mm.group(3):
                    res.append("%s = %s" % (mm.group(1), mm.group(3).strip()))
            r = "; ".join(res) or "pass"
        r = re.sub(r"^with\s+(nogil|gil|parallel\(.*\)|nogil\s*,\s*parallel\(.*\))\s*:", "if True:", r)
        r = re.sub(r"&\s*([A-Za-z_]\w*(?:\s*\[[^\]]*\])?)", r"_addr(\1)", r)
        r = re.sub(r"<\s*[A-Za-z_][\w.]*\s*\*?\s*>\s*(?=[A-Za-z_(])", "", r)
        out[i] = ind + r
        i = j + 1
    return "\n".join(out), types, tdefs


# ------------------------------------------------------------ values
class I(object):
    """an integer as a function of the shapes, the threads and the loop counters"""
    def __init__(self, f):
        self.f = f


class Entry(object):
    """a sum of products of entries"""
    def __init__(self, terms):
        self.terms = terms          # [(coef, ((name, conj, (labels)),...), {label: dom}), ...]


class Half(object):
    """real or imaginary part of an entry"""
    def __init__(self, part, e, sign=1):
        self.part, self.e, self.sign = part, e, sign


class Lab(object):
    """a loop counter that indexes entries: dom(env) -> list of values"""
    n = 0

    def __init__(self, dom, what):
        Lab.n += 1
        self.id, self.dom, self.what = "k%d" % Lab.n, dom, what


class Buf(object):
    def __init__(self, dims, cells=None, contig=False, name=""):
        self.dims, self.contig, self.name = dims, contig, name
        self.init = cells           # None: undefined, "zero", or function(labels)->Entry
        self.cells = {}
        self.partial = []


class Cell(object):
    """content of the trailing axes of a buffer at one leading index"""
    def __init__(self, axes, e, birth):
        self.axes, self.e, self.birth = axes, e, birth      # axes: placeholder labels
        self.part, self.half, self.dead = [], {}, None


class View(object):
    def __init__(self, buf, idx):
        self.buf, self.idx = buf, idx       # per axis: (lo I, hi I) or ("at", Lab|I)


class Eye(object):
    def __init__(self, d):
        self.d = d


class Diag(object):
    def __init__(self, buf):
        self.buf = buf


class Capsule(object):
    pass


class Hfun(object):
    pass


class Flags(object):
    def __init__(self, buf):
        self.buf = buf


class Addr(object):
    def __init__(self, v):
        self.v = v


class LibN(object):
    def __init__(self, name):
        self.name = name


def ren(e, mp):
    return Entry([(c, tuple((n, k, tuple(mp.get(x, x) for x in ls)) for n, k, ls in at), {mp.get(s, s): d for s, d in sm.items()}) for c, at, sm in e.terms])


def freshsums(e):
    r = []
    for c, at, sm in e.terms:
        mp = {}
        for s in sm:
            Lab.n += 1
            mp[s] = "k%d" % Lab.n
        r.append((c, tuple((n, k, tuple(mp.get(x, x) for x in ls)) for n, k, ls in at), {mp[s]: d for s, d in sm.items()}))
    return Entry(r)


def emul(a, b):
    a, b = freshsums(a), freshsums(b)
    return Entry([(c * d, x + y, dict(list(s.items()) + list(t.items()))) for c, x, s in a.terms for d, y, t in b.terms])


def econj(a):
    return Entry([(complex(c).conjugate(), tuple((n, not k, ls) for n, k, ls in at), s) for c, at, s in a.terms])


def eadd(a, b):
    return Entry(a.terms + b.terms)


def escale(a, c):
    return Entry([(x * c, at, s) for x, at, s in a.terms])


def number(c):
    return Entry([(c, (), {})] if c != 0 else [])


def one_env(dom, envs):
    return tuple(tuple(sorted(dom(e))) for e in envs)


def canon(e, axes, envs):
    """{(atoms, domains): coefficient} for an entry with the given axis labels"""
    out = Counter()
    for c, at, sm in e.terms:
        free = {x: "o%d" % i for i, x in enumerate(axes)}
        ss = sorted(sm)
        best = None
        for p in itertools.permutations(range(len(ss))):
            mp = dict(free)
            mp.update({s: "s%d" % i for s, i in zip(ss, p)})
            key = (tuple(sorted((n, k, tuple(mp.get(x, "?" + x) for x in ls)) for n, k, ls in at)),
                   tuple(one_env(sm[s], envs) for s, i in sorted(zip(ss, p), key=lambda z: z[1])))
            if best is None or key < best:
                best = key
        out[best] += c
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


def show(key):
    at = key[0]
    return " ".join("%s%s[%s]" % (n, "*" if k else "", ",".join(ls)) for n, k, ls in at) or "1"


def wth(env, **kw):
    if isinstance(env, Spy):
        r = Spy(env, env.k, env.hit)
        r.update(kw)
        return r
    return dict(env, **kw)


def needs(dom, lab, envs):
    """does the range depend on the counter?"""
    hit = [False]
    for e in envs[:3]:
        try:
            dom(Spy(e, lab.id, hit))
        except (KeyError, TypeError, ZeroDivisionError):
            hit[0] = True
    return hit[0]


class Spy(dict):
    def __init__(self, e, k, hit):
        dict.__init__(self, e)
        self.k, self.hit = k, hit

    def __getitem__(self, x):
        if x == self.k and not dict.__contains__(self, x):
            self.hit[0] = True
            return 0
        return dict.__getitem__(self, x) if dict.__contains__(self, x) else 0


# ------------------------------------------------------------ interpreter
class Cy(object):
    def __init__(self, tree, types, tdefs, fname):
        self.fns = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.types, self.tdefs, self.fname = types, tdefs, fname
        self.loops = []
        self.depth = 0
        self.stat = Counter()

    # --- integers
    def const(self, v, envs):
        s = {v.f(e) for e in envs}
        return s.pop() if len(s) == 1 else None

    def eq(self, a, b, envs):
        return all(a.f(e) == b.f(e) for e in self.ext(envs))

    def ext(self, envs):
        """the environments with every active counter of threads"""
        for lab, bind in self.loops:
            if bind:
                envs = [dict(e, **{lab.id: v}) for e in envs for v in lab.dom(e)]
        return envs

    def size(self, v):
        """[I] of the axes of a view or buffer"""
        if isinstance(v, Buf):
            return list(v.dims)
        r = []
        for ix in v.idx:
            if ix[0] != "at":
                r.append(I(lambda e, a=ix[0], b=ix[1]: max(0, b.f(e) - a.f(e))))
        return r

    def view(self, v):
        if isinstance(v, View):
            return v
        if isinstance(v, Buf):
            z = I(lambda e: 0)
            return View(v, [(z, I(d.f)) for d in v.dims])
        raise Und("not an array")

    # --- reading and writing entries
    def cellkey(self, v, envs, k):
        """key of the leading `at` indices of a view whose last k axes are free"""
        head = v.idx[:len(v.idx) - k]
        key = []
        for ix in head:
            if ix[0] != "at":
                raise Und("view of several leading indices")
            key.append(ix[1])
        return key

    def read(self, v, labs, envs, node):
        """Entry of the view at the labels of its free axes"""
        buf = v.buf
        full, j, shifts = [], 0, []
        for ax, ix in enumerate(v.idx):
            if ix[0] == "at":
                full.append(ix[1])
            else:
                lo = ix[0]
                if not all(lo.f(e) == 0 for e in self.ext(envs)):
                    shifts.append((labs[j], lo))
                full.append(labs[j])
                j += 1
        if callable(buf.init) and not buf.cells:
            names = []
            for x in full:
                if isinstance(x, Lab):
                    names.append(x.id)
                elif isinstance(x, str):
                    names.append(x)
                else:
                    c = self.const(x, envs)
                    if c is None:
                        raise Und("index")
                    names.append("#%d" % c)
            self.stat["reads"] += 1
            return buf.init(names)
        # temporaries: leading index, then whole trailing axes
        for k in buf.cells:
            nk = len(k)
            break
        else:
            if buf.init == "zero":
                return Entry([])
            raise Bad("%s is read before anything is stored in it" % (buf.name or "an array"), node)
        lead = full[:nk]
        for k, c in list(buf.cells.items()):
            mp = {}
            ok = True
            for a, b in zip(k, lead):
                if isinstance(a, Lab):
                    if isinstance(b, Lab):
                        mp[a] = b
                    else:
                        ok = False
                elif isinstance(b, Lab) or not all(a.f(e) == b.f(e) for e in envs):
                    ok = False
            if not ok:
                continue
            if c.dead:
                raise Bad(c.dead, node)
            for l in c.part:
                if any(l is x for x, _ in self.loops):
                    raise Bad("%s is read inside the loop over %s that is still adding to it" % (buf.name or "an array", l.what), node)
            e = c.e
            for a, b in mp.items():
                if a is b:
                    continue
                e = Entry([(co, at, {s: (lambda env, d=d, a=a, b=b: d(wth(env, **{a.id: env[b.id]})) if env[b.id] in a.dom(env) else []) if needs(d, a, envs) else d
                                     for s, d in sm.items()}) for co, at, sm in e.terms])
                if any(a.id in ls for _, at, _ in e.terms for _, _, ls in at):
                    e = ren(e, {a.id: b.id})
            return ren(freshsums(e), {p: (x.id if isinstance(x, Lab) else x) for p, x in zip(c.axes, full[nk:])})
        raise Und("entry of a temporary")

    def wholeof(self, v, k, envs):
        for ax in range(len(v.idx) - k, len(v.idx)):
            ix = v.idx[ax]
            if ix[0] == "at" or not all(ix[0].f(e) == 0 and ix[1].f(e) == v.buf.dims[ax].f(e) for e in self.ext(envs)):
                return False
        return True

    def cell(self, v, k, envs, node, axes=None):
        """the cell under a view with k free trailing axes, created from the initial content"""
        if callable(v.buf.init):
            raise Bad("the argument %s is overwritten" % v.buf.name, node)
        key = tuple(self.cellkey(v, envs, k))
        for kk, c in v.buf.cells.items():
            if len(kk) != len(key):
                raise Und("two granularities")
            if all((a is b) or (not isinstance(a, Lab) and not isinstance(b, Lab) and all(a.f(e) == b.f(e) for e in envs)) for a, b in zip(kk, key)):
                return c
        ax = []
        for _ in range(k):
            Lab.n += 1
            ax.append("p%d" % Lab.n)
        c = Cell(ax, Entry([]) if v.buf.init == "zero" else None, getattr(v.buf, "born", ()))
        v.buf.cells[key] = c
        return c

    def active(self):
        return [l for l, _ in self.loops]

    def race(self, v, labs, envs, node):
        for l, b in self.loops:
            if getattr(l, "par", False) and l not in getattr(v.buf, "born", ()) and l.id not in labs and not any(i[0] == "at" and i[1] is l for i in v.idx):
                raise Bad("the threads of the parallel loop over %s write to the same part of %s" % (l.what, v.buf.name), node)

    def accumulate(self, v, labs, e, envs, node):
        """entry [labs] += e, in the loops that are running"""
        self.race(v, labs, envs, node)
        k = len(labs)
        c = self.cell(v, k, envs, node)
        if c.dead:
            raise Bad(c.dead, node)
        if c.e is None:
            raise Bad("a sum is added to %s, whose initial content is undefined" % (v.buf.name or "an array"), node)
        lead = [x for x in self.cellkey(v, envs, k)]
        names = [x.id if isinstance(x, Lab) else x for x in labs]
        terms = []
        for co, at, sm in freshsums(e).terms:
            sm = dict(sm)
            for l in self.active():
                if l in c.birth or l.id in names or any(l is x for x in lead):
                    continue
                used = any(l.id in ls for _, _, ls in at)
                if used:
                    sm[l.id] = l.dom
                elif len([s for s in sm if needs(sm[s], l, envs)]) == 1:
                    # summed over a counter that only selects a part
                    for s in list(sm):
                        if needs(sm[s], l, envs):
                            sm[s] = (lambda env, d=sm[s], l=l: [y for i in l.dom(env) for y in d(wth(env, **{l.id: i}))])
                elif any(needs(sm[s], l, envs) for s in sm):
                    raise Und("two ranges with one counter")
                else:
                    raise Bad("%s is added to once for every value of %s, on which the summand does not depend" % (v.buf.name, l.what), node)
                c.part.append(l)
            terms.append((co, at, sm))
        c.e = eadd(c.e, ren(freshsums(Entry(terms)), dict(zip(names, c.axes))))
        self.stat["writes"] += 1

    def overwrite(self, v, labs, e, envs, node):
        self.race(v, labs, envs, node)
        k = len(labs)
        c = self.cell(v, k, envs, node)
        names = [x.id if isinstance(x, Lab) else x for x in labs]
        lead = self.cellkey(v, envs, k)
        c.e = ren(freshsums(e), dict(zip(names, c.axes)))
        c.birth = tuple(l for l in self.active() if l.id not in names and not any(l is x for x in lead))
        c.part, c.dead = [], None
        self.stat["writes"] += 1

    # --- BLAS
    def mat(self, ad, envs, node):
        """(view of the last two axes, rows, cols) of the row-major matrix that starts at an address"""
        v = ad.v if isinstance(ad, Addr) else None
        if not isinstance(v, View):
            raise Und("pointer")
        ix = list(v.idx)
        if len(ix) < 2 or any(i[0] != "at" for i in ix):
            raise Und("pointer")
        for i in ix[-2:]:
            if isinstance(i[1], Lab) or self.const(i[1], envs) != 0:
                raise Bad("the matrix passed to BLAS does not start at entry [0, 0]", node)
        if not v.buf.contig:
            raise Und("layout of %s" % v.buf.name)
        z = I(lambda e: 0)
        return View(v.buf, ix[:-2] + [(z, v.buf.dims[-2]), (z, v.buf.dims[-1])])

    def zgemm(self, a, envs, node):
        if len(a) != 13:
            raise Und("zgemm arguments")
        deref = lambda x: x.v if isinstance(x, Addr) else x
        ta, tb = a[0], a[1]
        M, N, K, al = [deref(x) for x in a[2:6]]
        A, lda, B, ldb, be, C, ldc = self.mat(a[6], envs, node), deref(a[7]), self.mat(a[8], envs, node), deref(a[9]), deref(a[10]), self.mat(a[11], envs, node), deref(a[12])
        if isinstance(al, I):
            al = self.const(al, envs)
        if isinstance(be, I):
            be = self.const(be, envs)
        if not isinstance(al, (int, float, complex)) or be not in (0, 1):
            raise Und("zgemm scale")
        dims = lambda v: (v.buf.dims[-2], v.buf.dims[-1])
        def need(x, y, what):
            self.stat["sizes"] += 1
            if not self.eq(x, y, envs):
                raise Bad("zgemm is given a %s that is not that of its operand" % what, node)
        ta, tb = str(ta).lower(), str(tb).lower()
        if ta not in "ntc" or tb not in "ntc":
            raise Und("zgemm flags")
        p, q = dims(A)
        need(lda, q, "leading dimension of the first matrix")
        need(q if ta == "n" else p, M, "number M")
        need(p if ta == "n" else q, K, "number K")
        p, q = dims(B)
        need(ldb, q, "leading dimension of the second matrix")
        need(q if tb == "n" else p, K, "number K")
        need(p if tb == "n" else q, N, "number N")
        p, q = dims(C)
        need(ldc, q, "leading dimension of the result")
        need(q, M, "number M")
        need(p, N, "number N")
        m, n, k = [Lab((lambda e, x=x: list(range(x.f(e)))), w) for x, w in ((M, "m"), (N, "n"), (K, "k"))]
        ea = self.read(A, [k, m] if ta == "n" else [m, k], envs, node)
        eb = self.read(B, [n, k] if tb == "n" else [k, n], envs, node)
        if ta == "c":
            ea = econj(ea)
        if tb == "c":
            eb = econj(eb)
        e = emul(ea, eb)
        e = Entry([(c * al, at, dict(sm, **{k.id: k.dom})) for c, at, sm in e.terms])
        if be == 0:
            self.overwrite(C, [n.id, m.id], e, envs, node)
        else:
            self.accumulate(C, [n.id, m.id], e, envs, node)
        self.stat["products"] += 1

    def zaxpy(self, a, envs, node):
        deref = lambda x: x.v if isinstance(x, Addr) else x
        N, al, ix, iy = deref(a[0]), deref(a[1]), deref(a[3]), deref(a[5])
        X, Y = self.mat(a[2], envs, node), self.mat(a[4], envs, node)
        for x in (X, Y):
            tot = I(lambda e, d=x.buf.dims: d[-2].f(e) * d[-1].f(e))
            if not self.eq(N, tot, envs):
                raise Bad("zaxpy is given a length that is not that of its operand", node)
        if not self.eq(ix, I(lambda e: 1), envs) or not self.eq(iy, I(lambda e: 1), envs):
            raise Bad("zaxpy is given a stride other than one", node)
        if isinstance(al, I):
            al = self.const(al, envs)
        if not isinstance(al, (int, float, complex)):
            raise Und("zaxpy scale")
        if not all(self.eq(x, y, envs) for x, y in zip(X.buf.dims[-2:], Y.buf.dims[-2:])):
            raise Bad("zaxpy adds matrices of different shape", node)
        m, n = [Lab((lambda e, x=x: list(range(x.f(e)))), w) for x, w in ((Y.buf.dims[-2], "m"), (Y.buf.dims[-1], "n"))]
        e = self.read(X, [m, n], envs, node)
        self.accumulate(Y, [m.id, n.id], escale(e, al), envs, node)
        self.stat["products"] += 1

    # --- statements; each returns nothing or raises Ret
    def isbuf(self, v):
        return isinstance(v, (Buf, View))

    def bind(self, name, v, st, envs, node):
        ty = self.types.get(self.cur, {}).get(name, "")
        ty = self.tdefs.get(ty, ty)
        mv = re.search(r"\[([:,\s0-9]*)\]\s*$", ty)
        if isinstance(v, (Buf, View)) and mv and ":" in mv.group(1):
            nd = mv.group(1).count(",") + 1
            if nd != len(self.size(v)):
                raise Bad("an array of %d indices is given to a view declared with %d" % (len(self.size(v)), nd), node)
            if "::1" in mv.group(1).replace(" ", ""):
                b = v if isinstance(v, Buf) else v.buf
                if not b.contig:
                    raise Bad("%s may be an array that is not C-contiguous, which the view declared for it refuses" % (b.name or "the array"), node)
        st[name] = v

    def call_fn(self, name, args, envs, node):
        fn = self.fns[name]
        if self.depth > 8:
            raise Und("depth")
        ps = [p.arg for p in fn.args.args]
        if len(args) > len(ps) or len(args) < len(ps) - len(fn.args.defaults):
            raise Bad("%s is called with %d arguments and takes %d" % (name, len(args), len(ps)), node)
        st = {}
        old, self.cur = self.cur, name
        self.depth += 1
        try:
            for p, v in zip(ps, args):
                self.bind(p, v, st, envs, node)
            self.block(fn.body, st, envs)
        except Ret as r:
            return r.v
        finally:
            self.cur = old
            self.depth -= 1
        return None

    def block(self, body, st, envs):
        for s in body:
            self.stmt(s, st, envs)

    def stmt(self, s, st, envs):
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, st, envs)
            return
        if isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, st, envs))
        if isinstance(s, ast.Assert):
            if not self.cond(s.test, st, envs):
                raise Bad("the assertion refuses arguments of valid shape", s)
            self.stat["shape tests"] += 1
            return
        if isinstance(s, ast.Raise):
            raise Bad("arguments of valid shape are refused", s)
        if isinstance(s, ast.If):
            if self.guard(s.test, st, envs):
                for b in s.body:
                    if not self.isacc(b) and not isinstance(b, ast.For):
                        raise Und("statement under a test of an entry")
                self.block(s.body, st, envs)
                return
            self.block(s.body if self.cond(s.test, st, envs) else s.orelse, st, envs)
            return
        if isinstance(s, ast.For):
            return self.loop(s, st, envs)
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)):
            if isinstance(s.target, ast.Subscript):
                e = self.entry(self.ev(s.value, st, envs))
                self.store(s.target, e if isinstance(s.op, ast.Add) else escale(e, -1), st, envs, s, True)
                return
            v = self.ev(ast.copy_location(ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value), s), st, envs)
            if isinstance(v, Entry):
                raise Und("accumulated scalar")
            st[s.target.id] = v
            return
        if isinstance(s, ast.Assign):
            for t in s.targets:
                acc = self.isacc(s)
                if acc is not None and isinstance(t, ast.Subscript):
                    e = self.entry(self.ev(acc, st, envs))
                    self.store(t, e, st, envs, s, True)
                    continue
                v = self.ev(s.value, st, envs)
                if isinstance(t, ast.Name):
                    self.bind(t.id, v, st, envs, s)
                elif isinstance(t, ast.Subscript):
                    self.store(t, v, st, envs, s, False)
                elif isinstance(t, ast.Attribute) and t.attr in ("real", "imag") and isinstance(t.value, ast.Subscript):
                    self.store_half(t, v, st, envs, s)
                else:
                    raise Und("assignment")
            return
        raise Und(type(s).__name__)

    def isacc(self, s):
        """the summand of `x[..] = x[..] + summand` or None"""
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add):
            return s.value
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
            t = ast.unparse(s.targets[0])
            if ast.unparse(s.value.left) == t:
                return s.value.right
            if ast.unparse(s.value.right) == t:
                return s.value.left
        return None

    def guard(self, test, st, envs):
        """`if entry != 0`"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.NotEq):
            try:
                a, b = self.ev(test.left, st, envs), self.ev(test.comparators[0], st, envs)
            except Und:
                return False
            if isinstance(a, Entry) and isinstance(b, I) and self.const(b, envs) == 0:
                return True
        return False

    def loop(self, s, st, envs):
        it = s.iter
        if s.orelse or not isinstance(it, ast.Call) or not isinstance(s.target, ast.Name):
            raise Und("loop")
        f = ast.unparse(it.func)
        if f.split(".")[-1] not in ("range", "xrange", "prange") or len(it.args) > 2:
            raise Und("loop over " + f)
        a = [self.ev(x, st, envs) for x in it.args]
        if not all(isinstance(x, I) for x in a):
            raise Und("loop bounds")
        lo, hi = (I(lambda e: 0), a[0]) if len(a) == 1 else a
        lab = Lab((lambda e: list(range(lo.f(e), hi.f(e)))), s.target.id)
        bindit = True
        lab.par = f.split(".")[-1] == "prange"
        st[s.target.id] = lab
        self.loops.append((lab, bindit))
        before = {id(v): v for v in st.values() if isinstance(v, (Buf, View))}
        try:
            self.block(s.body, st, envs)
        finally:
            self.loops.pop()
        for v in list(st.values()):
            b = v.buf if isinstance(v, View) else v
            if not isinstance(b, Buf):
                continue
            for key, c in b.cells.items():
                if c.dead or c.e is None or any(x is lab for x in key):
                    continue
                if lab in c.birth:
                    used = any(lab.id in ls for _, at, _ in c.e.terms for _, _, ls in at)
                    c.birth = tuple(x for x in c.birth if x is not lab)
                    if used:
                        c.dead = "after the loop over %s, %s holds the result of its last iteration only" % (s.target.id, b.name or "the array")
        st[s.target.id] = I(lambda e: hi.f(e) - 1)

    def labels(self, sl, st, envs):
        ix = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        return [self.ev(x, st, envs) if not isinstance(x, ast.Slice) else x for x in ix]

    def subview(self, node, st, envs):
        """View for a subscript; indices are labels, integers or slices"""
        base = self.view(self.ev(node.value, st, envs))
        ix = self.labels(node.slice, st, envs)
        res, j = [], 0
        for b in base.idx:
            if b[0] == "at":
                res.append(b)
                continue
            if j >= len(ix):
                res.append(b)
                continue
            x = ix[j]
            j += 1
            if isinstance(x, ast.Slice):
                if x.step is not None:
                    raise Und("step")
                lo = self.ev(x.lower, st, envs) if x.lower else I(lambda e: 0)
                hi = self.ev(x.upper, st, envs) if x.upper else None
                n = I(lambda e, b=b: b[1].f(e) - b[0].f(e))
                clip = lambda v, e, n=n: max(0, min(v, n.f(e)))
                lo, hi = self.asint(lo), (self.asint(hi) if hi is not None else n)
                res.append((I(lambda e, lo=lo, b=b, clip=clip: b[0].f(e) + clip(lo.f(e), e)), I(lambda e, hi=hi, b=b, clip=clip: b[0].f(e) + clip(hi.f(e), e))))
            elif isinstance(x, Lab):
                n = I(lambda e, b=b: b[1].f(e) - b[0].f(e))
                for e in self.ext(envs):
                    if any(y >= n.f(e) or y < 0 for y in getattr(x, "raw", x.dom)(e)):
                        raise Bad("the counter %s runs past the end of the index it is used for" % x.what, node)
                z = all(b[0].f(e) == 0 for e in self.ext(envs))
                if z and not hasattr(x, "shift"):
                    res.append(("at", x))
                    x.plain = True
                elif hasattr(x, "plain"):
                    raise Bad("different slices of the same index are paired", node)
                else:
                    res.append(("at", self.shifted(x, b[0], envs)))
            elif isinstance(x, I):
                res.append(("at", x if self.const(b[0], envs) == 0 else I(lambda e, x=x, b=b: x.f(e) + b[0].f(e))))
            else:
                raise Und("index")
        if j < len(ix):
            raise Bad("too many indices", node)
        return View(base.buf, res)

    def shifted(self, x, off, envs):
        """the counter x read at offset off: x itself with a shifted range"""
        sh = getattr(x, "shift", None)
        if sh is None:
            x.shift = off
            d = x.dom
            x.dom = lambda e: [y + off.f(e) for y in d(e)]
            x.raw = d
            return x
        if not all(sh.f(e) == off.f(e) for e in self.ext0(envs, x)):
            raise Bad("different slices of the same index are paired")
        return x

    def ext0(self, envs, x):
        for lab, b in self.loops:
            if lab is x:
                break
            envs = [dict(e, **{lab.id: v}) for e in envs for v in lab.dom(e)]
        return envs

    def entry(self, v):
        if isinstance(v, Entry):
            return v
        if isinstance(v, (int, float, complex)):
            return number(v)
        if isinstance(v, I):
            raise Und("integer as an entry")
        raise Und("not an entry")

    def asint(self, v):
        if isinstance(v, Lab):
            return I(lambda e, v=v: e[v.id])
        if isinstance(v, I):
            return v
        raise Und("not an integer")

    def target(self, node, st, envs):
        v = self.subview(node, st, envs)
        if any(i[0] != "at" for i in v.idx):
            raise Und("block assignment")
        k, labs = 0, []
        for i in reversed(v.idx):
            if isinstance(i[1], Lab):
                labs.insert(0, i[1])
                k += 1
            else:
                break
        if len({id(l) for l in labs}) != len(labs):
            raise Bad("only the diagonal is written", node)
        z = I(lambda e: 0)
        n = len(v.idx)
        w = View(v.buf, v.idx[:n - k] + [(z, v.buf.dims[n - k + t]) for t in range(k)])
        for t, l in enumerate(labs):
            for e in self.ext0(envs, l):
                if sorted(l.dom(e)) != list(range(v.buf.dims[n - k + t].f(e))):
                    raise Bad("the loop over %s does not cover the index it writes" % l.what, node)
        return w, labs

    def store(self, node, v, st, envs, s, acc):
        w, labs = self.target(node, st, envs)
        e = self.entry(v)
        (self.accumulate if acc else self.overwrite)(w, [l.id for l in labs], e, envs, s)

    def store_half(self, t, v, st, envs, s):
        w, labs = self.target(t.value, st, envs)
        if not isinstance(v, Half) or v.part != t.attr:
            raise Und("real or imaginary part")
        c = self.cell(w, len(labs), envs, s)
        names = [l.id for l in labs]
        c.half[t.attr] = (v, tuple(names))
        if len(c.half) == 2:
            (a, na), (b, nb) = c.half["real"], c.half["imag"]
            ca, cb = canon(a.e, names, envs[:1]), canon(b.e, names, envs[:1])
            if na != nb or ca != cb or a.sign != 1:
                raise Und("parts of different entries")
            self.overwrite(w, names, a.e if b.sign == 1 else econj(a.e), envs, s)
            self.cell(w, len(labs), envs, s).half = {}

    # --- expressions
    def cond(self, node, st, envs):
        v = self.test(node, st, envs)
        if isinstance(v, bool):
            return v
        s = [v(e) for e in self.ext(envs)]
        if not s or all(s):
            return True
        if not any(s):
            return False
        if any(b for _, b in self.loops if b and self.depends(v, envs)):
            raise Und("condition on a counter")
        raise Split(v)

    def depends(self, v, envs):
        try:
            for e in envs:
                v(e)
            return False
        except KeyError:
            return True

    def test(self, node, st, envs):
        """bool or function of the environment"""
        if isinstance(node, ast.BoolOp):
            vs = [self.test(x, st, envs) for x in node.values]
            fs = [(lambda e, v=v: v) if isinstance(v, bool) else v for v in vs]
            return (lambda e: all(f(e) for f in fs)) if isinstance(node.op, ast.And) else (lambda e: any(f(e) for f in fs))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            v = self.test(node.operand, st, envs)
            return (not v) if isinstance(v, bool) else (lambda e: not v(e))
        if isinstance(node, ast.Compare):
            ops, vals = node.ops, [self.ev(x, st, envs) for x in [node.left] + node.comparators]
            if len(ops) == 1 and isinstance(ops[0], (ast.Is, ast.IsNot)):
                if vals[1] is None:
                    return (vals[0] is None) == isinstance(ops[0], ast.Is)
                raise Und("identity")
            fs = []
            for o, a, b in zip(ops, vals, vals[1:]):
                a, b = self.asint(a), self.asint(b)
                g = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
                     ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}.get(type(o))
                if g is None:
                    raise Und("comparison")
                fs.append(lambda e, a=a, b=b, g=g: g(a.f(e), b.f(e)))
            return lambda e: all(f(e) for f in fs)
        v = self.ev(node, st, envs)
        if isinstance(v, bool):
            return v
        if isinstance(v, Flag):
            if v.buf.contig:
                return True
            if v.buf.name in self.cont:
                if self.cont[v.buf.name]:
                    v.buf.contig = True
                return self.cont[v.buf.name]
            raise Fork(v.buf.name)
        if isinstance(v, I):
            return lambda e: bool(v.f(e))
        if v is None:
            return False
        raise Und("condition")

    def ev(self, n, st, envs):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or n.value is None or isinstance(n.value, str):
                return n.value
            if isinstance(n.value, int):
                return I(lambda e, c=n.value: c)
            return n.value
        if isinstance(n, ast.Name):
            if n.id in st:
                return st[n.id]
            if n.id in ("True", "False"):
                return n.id == "True"
            return LibN(n.id)
        if isinstance(n, (ast.Tuple, ast.List)):
            return [self.ev(x, st, envs) for x in n.elts]
        if isinstance(n, ast.Attribute):
            v = self.ev(n.value, st, envs)
            a = n.attr
            if a == "shape" and isinstance(v, (Buf, View)):
                return self.size(v)
            if a == "shape" and isinstance(v, Eye):
                return [v.d, v.d]
            if a == "shape" and isinstance(v, Diag):
                return [v.buf.dims[0]] * 2
            if a == "diag" and isinstance(v, Diag):
                return v.buf
            if a == "flags" and isinstance(v, (Buf, View)):
                return Flags(v if isinstance(v, Buf) else v.buf)
            if a == "flags":
                raise Bad("an identity or diagonal matrix has no `flags`", n)
            if a in ("real", "imag") and isinstance(v, Entry):
                return Half(a, v)
            if a == "T" and isinstance(v, Buf) and callable(v.init) and not v.cells:
                return Buf(v.dims[::-1], (lambda ls, f=v.init: f(ls[::-1])), False, v.name)
            if a == "T" and isinstance(v, (Buf, View)):
                raise Und("transpose")
            if a == "dtype":
                return None
            if isinstance(v, LibN):
                return LibN(v.name + "." + a)
            return ("attr", v, a)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, st, envs)
            if isinstance(v, list):
                i = self.ev(n.slice, st, envs)
                c = self.const(i, envs)
                if c is None or not -len(v) <= c < len(v):
                    raise Bad("index of a shape out of range", n)
                return v[c]
            if isinstance(v, Flags):
                k = self.ev(n.slice, st, envs)
                if k in ("C_CONTIGUOUS", "C", "CONTIGUOUS"):
                    return Flag(v.buf)
                if k in ("F_CONTIGUOUS", "F"):
                    raise Und("Fortran flag")
                raise Und("flag")
            if isinstance(v, (Buf, View)):
                w = self.subview(n, st, envs)
                if all(i[0] == "at" for i in w.idx) and not getattr(self, "addr", False):
                    # a single entry
                    labs = []
                    z = I(lambda e: 0)
                    return self.read(w, [], envs, n) if callable(w.buf.init) else self.readtemp(w, envs, n)
                return w
            raise Und("subscript")
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, st, envs)
            if isinstance(n.op, ast.USub):
                if isinstance(v, I):
                    return I(lambda e: -v.f(e))
                if isinstance(v, Half):
                    return Half(v.part, v.e, -v.sign)
                if isinstance(v, Entry):
                    return escale(v, -1)
                if isinstance(v, (int, float, complex)):
                    return -v
            raise Und("unary")
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, st, envs), self.ev(n.right, st, envs)
            if isinstance(a, Lab):
                a = self.asint(a)
            if isinstance(b, Lab):
                b = self.asint(b)
            if isinstance(a, I) and isinstance(b, I):
                g = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.FloorDiv: lambda x, y: x // y if y else 0,
                     ast.Mod: lambda x, y: x % y if y else 0, ast.Div: lambda x, y: x / y if y else 0}.get(type(n.op))
                if g is None:
                    raise Und("arithmetic")
                return I(lambda e: g(a.f(e), b.f(e)))
            num = lambda v: self.const(v, envs) if isinstance(v, I) else v
            if isinstance(a, Entry) or isinstance(b, Entry):
                a, b = num(a), num(b)
                if isinstance(n.op, ast.Mult):
                    return emul(self.entry(a), self.entry(b))
                if isinstance(n.op, ast.Add):
                    return eadd(self.entry(a), self.entry(b))
                if isinstance(n.op, ast.Sub):
                    return eadd(self.entry(a), escale(self.entry(b), -1))
            raise Und("arithmetic")
        if isinstance(n, ast.IfExp):
            c = self.test(n.test, st, envs)
            if isinstance(c, bool):
                return self.ev(n.body if c else n.orelse, st, envs)
            a, b = self.ev(n.body, st, envs), self.ev(n.orelse, st, envs)
            a, b = self.asint(a), self.asint(b)
            return I(lambda e: a.f(e) if c(e) else b.f(e))
        if isinstance(n, ast.Compare) or isinstance(n, ast.BoolOp):
            return self.cond(n, st, envs)
        if isinstance(n, ast.Call):
            return self.call(n, st, envs)
        raise Und(type(n).__name__)

    def readtemp(self, w, envs, n):
        labs, k = [], 0
        key = [i[1] for i in w.idx]
        for kk in w.buf.cells:
            nk = len(kk)
            z = I(lambda e: 0)
            v = View(w.buf, [("at", x) for x in key[:nk]] + [(z, d) for d in w.buf.dims[nk:]])
            return self.read(v, key[nk:], envs, n)
        if w.buf.init == "zero":
            return Entry([])
        raise Bad("%s is read before anything is stored in it" % (w.buf.name or "an array"), n)

    def call(self, n, st, envs):
        f = ast.unparse(n.func)
        if f == "_addr":
            old = getattr(self, "addr", False)
            self.addr = True
            try:
                return Addr(self.ev(n.args[0], st, envs))
            finally:
                self.addr = old
        if f == "isinstance":
            v = self.ev(n.args[0], st, envs)
            ty = ast.unparse(n.args[1])
            r = False
            for t in re.findall(r"[A-Za-z_]\w*(?=[,)\s]|$)", ty):
                if t in ("eyemat",):
                    r = r or isinstance(v, Eye)
                elif t in ("simple_diag_matrix",):
                    r = r or isinstance(v, Diag)
                elif t == "ndarray":
                    r = r or isinstance(v, (Buf, View))
                else:
                    raise Und("isinstance " + t)
            return r
        if isinstance(n.func, ast.Attribute) and n.func.attr == "fill":
            v = self.ev(n.func.value, st, envs)
            c = self.ev(n.args[0], st, envs)
            if not isinstance(v, Buf) or callable(v.init) or not isinstance(c, I) or self.const(c, envs) != 0:
                raise Und("fill")
            v.init, v.cells = "zero", {}
            v.born = tuple(self.active())
            return None
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "conjugate"):
            v = self.ev(n.func.value, st, envs)
            if isinstance(v, Entry):
                return econj(v)
            raise Und("conj")
        args = [self.ev(x, st, envs) for x in n.args]
        if f in st and isinstance(st[f], Hfun):
            if not all(isinstance(x, Lab) for x in args):
                raise Und("operator arguments")
            return Entry([(1, (("h", False, tuple(x.id for x in args)),), {})])
        if f in self.fns:
            if f in ("int_min", "int_max") or all(isinstance(x, I) for x in args):
                return self.intfn(f, args, envs, n)
            return self.call_fn(f, args, envs, n)
        b = f.split(".")[-1]
        if b in ("min", "max") and all(isinstance(x, (I, Lab)) for x in args):
            args = [self.asint(x) for x in args]
            g = min if b == "min" else max
            return I(lambda e: g(x.f(e) for x in args))
        if b == "int" and isinstance(args[0], I):
            return I(lambda e: int(args[0].f(e)))
        if b == "len" and isinstance(args[0], (Buf, View)):
            return self.size(args[0])[0]
        if b in ("omp_get_max_threads", "omp_get_num_procs"):
            return I(lambda e: e["threads"])
        if b == "ascontiguousarray":
            v = args[0]
            if not isinstance(v, Buf):
                raise Und("copy of a view")
            return Buf(v.dims, v.init, True, v.name) if not v.cells else v
        if b in ("zeros", "empty"):
            sh = args[0] if isinstance(args[0], list) else [args[0]]
            if not all(isinstance(x, I) for x in sh):
                raise Und("shape")
            r = Buf(sh, "zero" if b == "zeros" else None, True, "the new array")
            r.born = tuple(self.active())
            return r
        if b == "zgemm":
            return self.zgemm(args, envs, n)
        if b == "zaxpy":
            return self.zaxpy(args, envs, n)
        if b == "PyCapsule_CheckExact":
            return isinstance(args[0], Capsule)
        if b == "PyCapsule_GetPointer":
            return Hfun() if isinstance(args[0], Capsule) else None
        raise Und("call of " + f)

    def intfn(self, f, args, envs, node):
        fn = self.fns[f]
        body = [s for s in fn.body if not isinstance(s, ast.Pass)]
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            raise Und("integer helper")
        st = dict(zip([p.arg for p in fn.args.args], [self.asint(a) for a in args]))
        return self.ev(body[0].value, st, envs)


class Split(Exception):
    def __init__(self, f):
        self.f = f


class Fork(Exception):
    def __init__(self, name):
        self.name = name


class Flag(object):
    def __init__(self, buf):
        self.buf = buf


# ------------------------------------------------------------ specification
def dim(k):
    return I(lambda e: e[k])


def inp(name, dims, contig=False):
    return Buf(dims, (lambda ls: Entry([(1, ((name, False, tuple(ls)),), {})])), contig, name)


GRID = [dict(d=d, a=2, b=3, c=5, g=7, q1=4, q2=6, threads=t) for d in (1, 4, 9) for t in (1, 2, 3, 16)]


def full(k):
    return lambda e: list(range(e[k]))


def cases():
    """(file, function, tag, () -> args, result dims, expected Entry over o0 o1 ..)"""
    D = {k: dim(k) for k in ("d", "a", "b", "c", "g", "q1", "q2")}
    def sites():
        return inp("A1", [D["d"], D["a"], D["b"]]), inp("A2", [D["d"], D["c"], D["g"]])
    for side in "lr":
        i, j = (D["a"], D["c"]) if side == "l" else (D["b"], D["g"])
        od = ("b", "g") if side == "l" else ("a", "c")
        for kind in ("dense", "diag", "eye"):
            for place in ("", "_inplace"):
                def args(side=side, kind=kind, place=place, i=i, j=j, od=od):
                    if kind == "dense":
                        A1, A2 = sites()
                        x = inp("x", [i, j])
                    else:
                        # the structured matrices are square: equal dimensions on that bond
                        dd = dict(D)
                        if side == "l":
                            A1, A2 = inp("A1", [D["d"], D["a"], D["b"]]), inp("A2", [D["d"], D["a"], D["g"]])
                        else:
                            A1, A2 = inp("A1", [D["d"], D["a"], D["b"]]), inp("A2", [D["d"], D["c"], D["b"]])
                        x = Diag(inp("x", [i])) if kind == "diag" else Eye(i)
                    r = [x, A1, A2]
                    if place:
                        r.append(Buf([D[od[0]], D[od[1]]], None, True, "out"))
                    return r
                ki, kj = ("a", "c") if side == "l" else ("b", "g")
                if side == "l":
                    at = [("A1", True, ("s", "k", "o0")), ("A2", False, ("s", "k2", "o1"))]
                else:
                    at = [("A1", False, ("s", "o0", "k")), ("A2", True, ("s", "o1", "k2"))]
                if kind == "dense":
                    at.append(("x", False, ("k", "k2")))
                    sm = {"s": full("d"), "k": full(ki), "k2": full(kj)}
                else:
                    at = [(n, c, tuple("k" if z == "k2" else z for z in ls)) for n, c, ls in at]
                    if kind == "diag":
                        at.append(("x", False, ("k",)))
                    sm = {"s": full("d"), "k": full(ki)}
                yield "eps_maps_c", "eps_%s_noop%s" % (side, place), kind, args, [D[od[0]], D[od[1]]], Entry([(1, tuple(at), sm)])
    for tag in ("", "out"):
        def args(tag=tag):
            AA = inp("AA", [D["q1"], D["q2"], D["a"], D["g"]], True)
            return [AA, Capsule(), Buf([D["q1"], D["q2"], D["a"], D["g"]], None, True, "out") if tag else None]
        yield ("tdvp_calc_C", "calc_C", tag, args, [D["q1"], D["q2"], D["a"], D["g"]],
               Entry([(1, (("h", False, ("o0", "o1", "u", "v")), ("AA", False, ("u", "v", "o2", "o3"))), {"u": full("q1"), "v": full("q2")})]))


def run_case(cy, fname, mk, envs, dims, exp, cont):
    """[(status, why, node)] over the parts of the grid"""
    cy.cur, cy.loops, cy.depth, cy.cont = "", [], 0, cont
    try:
        v = cy.call_fn(fname, mk(), envs, cy.fns[fname])
        if not isinstance(v, (Buf, View)):
            raise Und("result")
        w = cy.view(v)
        if len(cy.size(w)) != len(dims) or not all(cy.eq(a, b, envs) for a, b in zip(cy.size(w), dims)):
            raise Bad("the result does not have the shape of the map", cy.fns[fname])
        labs = [Lab((lambda e, d=d: list(range(d.f(e)))), "o%d" % i) for i, d in enumerate(dims)]
        got = cy.readtemp(View(w.buf, [("at", l) for l in labs]), envs, cy.fns[fname])
        a = canon(got, [l.id for l in labs], envs)
        b = canon(exp, ["o%d" % i for i in range(len(dims))], envs)
        if a == b:
            return [("ok", None, None)]
        ka, kb = {k[0] for k in a}, {k[0] for k in b}
        if ka == kb and {k: sum(v for q, v in a.items() if q[0] == k) for k in ka} == {k: sum(v for q, v in b.items() if q[0] == k) for k in kb}:
            return [("bad", "the sum over the site index does not cover each of its values exactly once for every number of threads", cy.fns[fname])]
        return [("bad", "gives %s where the map is %s" % (" + ".join("%g %s" % (complex(v).real, show(k)) for k, v in sorted(a.items(), key=lambda z: z[0][0])[:2]) or "0",
                                                       " + ".join(show(k) for k in b)), cy.fns[fname])]
    except Bad as x:
        return [("bad", x.why, x.node)]
    except Split as x:
        t = [e for e in envs if x.f(e)]
        f = [e for e in envs if not x.f(e)]
        return run_case(cy, fname, mk, t, dims, exp, cont) + run_case(cy, fname, mk, f, dims, exp, cont)
    except Fork as x:
        return run_case(cy, fname, mk, envs, dims, exp, dict(cont, **{x.name: True})) + run_case(cy, fname, mk, envs, dims, exp, dict(cont, **{x.name: False}))
    except Und as x:
        return [("und", str(x), None)]
    except (KeyError, RecursionError, AttributeError, TypeError, ValueError, IndexError) as x:
        return [("und", "%s %s" % (type(x).__name__, x), None)]


def parse(path):
    src = open(path).read()
    py, types, tdefs = to_python(src)
    for ext in (".pxd",):
        p = path[:-4] + ext
        if os.path.exists(p):
            _, _, t2 = to_python(open(p).read())
            for k, v in t2.items():
                tdefs.setdefault(k, v)
    return ast.parse(py), types, tdefs


def run(prog, ctx):
    base = os.path.dirname(next(m.path for m in prog.mods.values() if m.rel.endswith("core_common.py")))
    cache = {}
    for mod, fn, tag, mk, dims, exp in cases():
        rel = "evoMPS/%s.pyx" % mod
        label = "%s.%s%s" % (mod, fn, (" (%s)" % tag) if tag else "")
        if mod not in cache:
            try:
                cache[mod] = parse(os.path.join(base, mod + ".pyx"))
            except (OSError, SyntaxError, Und) as x:
                cache[mod] = None
                ctx.undec(rel, "not reduced to Python syntax: %s" % x)
        if cache[mod] is None:
            continue
        cy = Cy(*cache[mod], fname=mod)
        if fn not in cy.fns:
            ctx.undec(label, "no such function")
            continue
        for status, why, node in run_case(cy, fn, mk, GRID, dims, exp, {}):
            if status == "ok":
                ctx.count("compiled kernels equal to the map, by case of shapes, threads and layout")
            elif status == "und":
                ctx.undec(label, why)
            else:
                where = [f for f in cy.fns.values() if node is not None and getattr(node, "lineno", -1) in range(f.lineno, (f.end_lineno or f.lineno) + 1)]
                f = where[0].name if where else fn
                ctx.violation("compiled-kernel", rel, "%s.%s" % (mod, f), "%s.%s" % (mod, f), "%s: %s" % (label, why), getattr(node, "lineno", None))
        ctx.count("BLAS calls of compiled kernels", cy.stat["products"])
        ctx.count("sizes passed to BLAS compared", cy.stat["sizes"])
