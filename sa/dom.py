"""Abstract domain of the tensor-leg type system.

A tensor is described by the *type* of each axis (which bond or site space it
indexes, in which layer - ket or conjugated bra -, and how it transforms under
a change of gauge of that bond), plus the multiset of factors it is built of.
No numerical value, array content or concrete input is ever represented."""
from .alg import Poly, aspoly, t_subst, t_repr, t_key, subst_sym, symname


class TypeErr(Exception):
    def __init__(self, msg, rule="leg"):
        Exception.__init__(self, msg)
        self.msg = msg
        self.rule = rule


ENDS = (Poly.sym("N"), Poly.const(0))


class Leg(object):
    __slots__ = ("space", "conj", "up", "_k")

    def __init__(self, space, conj, up):
        if space[0] == "B" and space[1] not in ("s", "") and len(space) > 2 and space[2] in ENDS:
            space = (space[0], "s") + tuple(space[2:])       # the outer bonds of a finite chain have dimension one
        if space[0] != "B":
            # unitary space: lowering == conjugating
            if not up:
                conj, up = (not conj), True
        self.space, self.conj, self.up = space, conj, up
        self._k = (space, conj, up)

    def __eq__(self, o):
        return isinstance(o, Leg) and self._k == o._k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._k)

    def dual(self):
        if self.space[0] == "B":
            return Leg(self.space, self.conj, not self.up)
        return Leg(self.space, not self.conj, True)

    def cj(self):
        return Leg(self.space, not self.conj, self.up)

    def sub(self, m):
        return Leg(subst_sym(self.space, m), self.conj, self.up)

    def __repr__(self):
        k = self.space[0]
        nm = {"B": "bond", "P": "site", "F": "frame", "V": "tangent", "M": "root", "W": "mpo", "TP": "term", "U": "obond"}.get(k, k)
        args = ",".join(repr(x) if isinstance(x, Poly) else symname(x) for x in self.space[1:] if x not in ("", None))
        if k == "B":
            return "%s(%s)%s%s" % (nm, args, "*" if self.conj else "", "^" if self.up else "_")
        return "%s(%s)%s" % (nm, args, "-" if self.conj else "+")


class Comp(object):
    __slots__ = ("legs",)

    def __init__(self, legs):
        self.legs = tuple(legs)

    def __eq__(self, o):
        return isinstance(o, Comp) and self.legs == o.legs

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Comp", self.legs))

    def dual(self):
        return Comp([x.dual() for x in self.legs])

    def cj(self):
        return Comp([x.cj() for x in self.legs])

    def sub(self, m):
        return Comp([x.sub(m) for x in self.legs])

    def __repr__(self):
        return "(" + ".".join(map(repr, self.legs)) + ")"


class Unk(object):
    """axis of unknown type; dim is a Poly or None"""
    __slots__ = ("dim",)

    def __init__(self, dim=None):
        self.dim = dim

    def __eq__(self, o):
        return isinstance(o, Unk) and self.dim == o.dim

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Unk", self.dim))

    def dual(self):
        return self

    def cj(self):
        return self

    def sub(self, m):
        return Unk(self.dim.subst(m) if self.dim is not None else None)

    def __repr__(self):
        return "?[%s]" % (self.dim,)


class Ten(object):
    """axes: tuple of Leg|Comp|Unk; terms: dict or None; free: tuple of (idx, Leg)"""
    __slots__ = ("axes", "terms", "free", "zero", "kind", "_k")

    def __init__(self, axes, terms=None, free=(), zero=False, kind=None):
        self.axes = tuple(axes)
        self.terms = terms
        self.free = tuple(sorted(free, key=repr))
        self.zero = zero
        self.kind = kind      # None | 'eye' | 'diagvec' ...
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.axes, t_key(self.terms), self.free, self.zero, self.kind)
        return self._k

    def __eq__(self, o):
        return isinstance(o, Ten) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def sub(self, m):
        return Ten([a.sub(m) for a in self.axes], t_subst(self.terms, m),
                   [(i, l.sub(m)) for i, l in self.free], self.zero, self.kind)

    def with_(self, **kw):
        d = dict(axes=self.axes, terms=self.terms, free=self.free, zero=self.zero, kind=self.kind)
        d.update(kw)
        return Ten(**d)

    def __repr__(self):
        return "T<%s%s%s | %s>" % ("0:" if self.zero else "", " ".join(map(repr, self.axes)),
                                   (" ;free " + ",".join("%s:%r" % (i[0] if isinstance(i, tuple) else i, l) for i, l in self.free)) if self.free else "",
                                   t_repr(self.terms))


class Alt(object):
    """intersection type: the value has every one of these types"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, Alt) and set(self.alts) == set(o.alts)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self.alts))

    def sub(self, m):
        return Alt([a.sub(m) for a in self.alts])

    def __repr__(self):
        return "Alt{" + " & ".join(map(repr, self.alts)) + "}"


def mkalt(ts):
    out = []
    for t in ts:
        if t not in out:
            out.append(t)
    return out[0] if len(out) == 1 else Alt(out)


def alts(v):
    return v.alts if isinstance(v, Alt) else (v,)


class _Top(object):
    def __repr__(self):
        return "TOP"

    def sub(self, m):
        return self


TOP = _Top()


class Const(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) == type(o.v) and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self.v), repr(self.v)))

    def sub(self, m):
        return self

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)


class Idx(object):
    """a loop/comprehension variable that runs over a whole tensor axis"""
    __slots__ = ("id", "dim", "name")

    def __init__(self, id, dim, name):
        self.id, self.dim, self.name = id, dim, name

    def __eq__(self, o):
        return isinstance(o, Idx) and self.id == o.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Idx", self.id))

    def sub(self, m):
        return self

    def __repr__(self):
        return "Idx(%s:%s)" % (self.name, self.id)


class IdxC(object):
    """joint index  i*dim(j) + j ; stride is set while incomplete"""
    __slots__ = ("items", "stride")

    def __init__(self, items, stride=None):
        self.items, self.stride = tuple(items), stride

    def __eq__(self, o):
        return isinstance(o, IdxC) and self.items == o.items and self.stride == o.stride

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.items)

    def sub(self, m):
        return self


class TupV(object):
    __slots__ = ("items", "lst")

    def __init__(self, items, lst=False):
        self.items = tuple(items)
        self.lst = lst

    def __eq__(self, o):
        return isinstance(o, TupV) and self.items == o.items

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.items)

    def sub(self, m):
        return TupV([sub(x, m) for x in self.items], self.lst)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Arr1(object):
    """1-d array (list) of values indexed by site.  default: callable(Poly)->value or
    None.  writes: tuple of (idx Poly, value, qvar or None, lo, hi, prev)."""
    __slots__ = ("default", "writes", "length", "tag")

    def __init__(self, default=None, writes=(), length=None, tag=None):
        self.default, self.writes, self.length, self.tag = default, tuple(writes), length, tag

    def __eq__(self, o):
        return isinstance(o, Arr1) and self.tag == o.tag and self.default is o.default and self.writes == o.writes and self.length == o.length

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.tag, len(self.writes)))

    def sub(self, m):
        return Arr1(self.default, [(w[0].subst(m), sub(w[1], m)) + tuple(w[2:]) for w in self.writes],
                    self.length.subst(m) if self.length is not None else None, self.tag)

    def __repr__(self):
        return "Arr1(%s,%d writes%s)" % (self.tag, len(self.writes), ("," + repr(self.writes[-1])) if self.writes else "")


class Ref(object):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Ref", self.id))

    def sub(self, m):
        return self

    def __repr__(self):
        return "Ref(%s)" % (self.id,)


class Obj(object):
    """an object of an analysed class; name identifies it (e.g. 'self')"""
    __slots__ = ("cls", "name", "schema")

    def __init__(self, cls, name, schema):
        self.cls, self.name, self.schema = cls, name, schema

    def __eq__(self, o):
        return isinstance(o, Obj) and self.name == o.name and self.cls == o.cls

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.cls, self.name))

    def sub(self, m):
        return self

    def __repr__(self):
        return "Obj(%s:%s)" % (self.cls, self.name)


class Fn(object):
    """function value: a package FunctionDef/Lambda with optional bound self and closure"""
    __slots__ = ("node", "mod", "bound", "closure", "cls")

    def __init__(self, node, mod, bound=None, closure=None, cls=None):
        self.node, self.mod, self.bound, self.closure, self.cls = node, mod, bound, closure, cls

    def __eq__(self, o):
        return isinstance(o, Fn) and self.node is o.node and self.bound == o.bound

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.node),))

    def sub(self, m):
        return self

    def __repr__(self):
        return "Fn(%s)" % getattr(self.node, "name", "lambda")


class Lib(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Lib) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def sub(self, m):
        return self

    def __repr__(self):
        return "Lib(%s)" % self.name


class Meth(object):
    """bound method of a tensor / list value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def sub(self, m):
        return self


class OpFn(object):
    """a user supplied callable operator op(s,t,...) with typed index slots"""
    __slots__ = ("ten",)

    def __init__(self, ten):
        self.ten = ten

    def __eq__(self, o):
        return isinstance(o, OpFn) and self.ten == o.ten

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("OpFn", self.ten))

    def sub(self, m):
        return OpFn(self.ten.sub(m))


class Cls(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def sub(self, m):
        return self


class ModV(object):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def sub(self, m):
        return self


class Range(object):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def sub(self, m):
        return Range(self.lo.subst(m), self.hi.subst(m), self.step)


def sub(v, m):
    if isinstance(v, Poly):
        return v.subst(m)
    return v.sub(m)


def veq(a, b):
    if a is b:
        return True
    try:
        return a == b
    except Exception:
        return False
