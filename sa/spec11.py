"""C11 scenarios: save, then load into another object, for every state class."""
import ast
from .repo import qualname
from .rules11 import Interp, At, Lst, Obj, Raised, Undecided, Ret, Bound, ClsV, DERIVED, layout, get, leaves, spath


def run_paths(prog, order, body, cap=96):
    """body(it) is re-run for every choice of the undecided conditions"""
    dec = []
    n = 0
    while True:
        it = Interp(prog, order, dec)
        yield it, body
        n += 1
        dec = it.dec[:it.used] if it.used <= len(it.dec) else it.dec
        while dec and dec[-1] is False:
            dec = dec[:-1]
        if not dec or n > cap:
            return
        dec = dec[:-1] + [False]


class Check(object):
    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx

    # ------------------------------------------------------------ helpers
    def cls(self, name):
        return self.prog.classes.get(name)

    def meth(self, cls, name):
        return self.prog.method(cls.name, name)

    def viol(self, rule, fn, construct, msg):
        self.ctx.violation(rule, "evoMPS/%s.py" % fn._mod.name, qualname(fn), construct, msg, fn.lineno)

    def go(self, name, order, mk_save, mk_load, judge):
        ctx = self.ctx
        npaths = 0
        for it, _ in run_paths(self.prog, order, None):
            npaths += 1
            where = {"fn": None}
            try:
                sv, fn_s, call_s = mk_save(it)
                where["fn"] = fn_s
                call_s()
                fn_l, call_l = mk_load(it)
                where["fn"] = fn_l
                del it.events[:]
                it.reports = 0
                obj, ret = call_l()
            except Undecided as e:
                ctx.undec("%s (%s)" % (name, qualname(where["fn"]) if where["fn"] else "?"), str(e))
                continue
            except Raised as e:
                if where["fn"] is None:
                    continue
                if judge is None:
                    continue
                self.viol("load-raises", where["fn"], "%s: %s" % (name, e.name.split(":")[0]),
                          "%s: saving and loading ends in %s%s" % (name, e.name, " at line %d" % e.node.lineno if getattr(e, "node", None) is not None and hasattr(e.node, "lineno") else ""))
                continue
            ctx.analysed |= it.funcs
            judge(it, sv, obj, ret, fn_s, fn_l)
        ctx.count("save/load scenarios")
        ctx.count("save/load paths", npaths)

    # the state at the first derived event
    def view(self, it, obj):
        for o, nm, args, kw, snap in it.events:
            if o is obj and nm in DERIVED and snap is not None:
                return snap, nm
        return obj.f, None

    def restored(self, name, it, sv, obj, fn_s, fn_l, only=None, skip=()):
        snap, ev = self.view(it, obj)
        kind, content = it.file
        seen = set()
        n, lost = 0, []
        for lf in leaves(content):
            if not (isinstance(lf.tag, tuple) and lf.tag and lf.tag[0] == "sv"):
                continue
            p = lf.tag[1:]
            if p == ("userdata",) or (only is not None and not only(p)):
                continue
            if p in seen:
                continue
            seen.add(p)
            n += 1
            v = get(snap, p)
            if not (isinstance(v, At) and v.tag == lf.tag):
                lost.append("%s (%s)" % (spath(p), show(v)))
        if lost:
            self.viol("not-restored", fn_l, "%s: %s" % (name, lost[0].split(" (")[0]),
                      "%s: %d saved values are not what the loading object has in their place%s: %s" %
                      (name, len(lost), " when %s() starts" % ev if ev else "", ", ".join(lost[:6])))
        self.ctx.count("saved arrays followed to the loading object", n)
        # the state itself must be in the file
        for p in required(sv):
            if p not in seen and (only is None or only(p)):
                self.viol("not-saved", fn_s, "%s: %s" % (name, spath(p)), "%s: %s is not written to the file as it is" % (name, spath(p)))
        # recorded sizes describe the tensors
        for bad in sizes(snap):
            self.viol("size-record", fn_l, "%s: %s" % (name, bad[0]), "%s: after loading %s is %s, the tensors have %s%s" %
                      (name, bad[0], bad[1], bad[2], " when %s() starts" % ev if ev else ""))
        self.ctx.count("recorded sizes compared with the tensors")


def show(v):
    if v is None:
        return "nothing"
    if isinstance(v, At):
        t = v.tag
        if isinstance(t, tuple) and t and t[0] in ("sv", "old", "new"):
            return {"sv": "the saved ", "old": "its own old ", "new": "the fresh "}[t[0]] + spath(t[1:])
        return str(t)[:60]
    return type(v).__name__


def required(o):
    out = []
    for k in ("A",):
        v = o.f[k]
        for i, x in enumerate(v.items):
            if isinstance(x, At) and x.tag[0] == "sv":
                out.append(x.tag[1:])
    for u in ("uni_l", "uni_r"):
        if isinstance(o.f.get(u), Obj):
            out += [x.tag[1:] for x in o.f[u].f["A"].items]
    for k in ("grown_left", "grown_right", "shrunk_left", "shrunk_right"):
        if k in o.f:
            out.append((k,))
    return out


def num(v):
    if isinstance(v, At) and isinstance(v.tag, tuple) and v.tag[0] == "dim":
        return v.tag[1]
    return v


def sizes(f):
    """D and N (or D, q, L) against the shapes of the tensors"""
    out = []
    A = f.get("A")
    if not isinstance(A, Lst):
        return [("A", type(A).__name__, "a container of tensors")]
    D = f.get("D")
    if isinstance(D, Lst):
        for n, x in enumerate(A.items):
            if isinstance(x, At) and x.shape is not None and len(x.shape) == 3:
                for k, ax in ((n - 1, 1), (n, 2)):
                    if 0 <= k < len(D.items) and num(D.items[k]) != x.shape[ax]:
                        out.append(("D[%d]" % k, num(D.items[k]), x.shape[ax]))
        N = f.get("N")
        for u, k in (("uni_l", 0), ("uni_r", N), ("uni_r", N + 1 if isinstance(N, int) else N)):
            o = f.get(u)
            if isinstance(o, Obj) and isinstance(k, int) and k < len(D.items):
                if num(o.f.get("D")) != num(D.items[k]):
                    out.append((u + ".D", num(o.f.get("D")), num(D.items[k])))
                out += [(u + "." + a, b, c) for a, b, c in sizes(o.f)]
    elif D is not None:
        for n, x in enumerate(A.items):
            if isinstance(x, At) and x.shape is not None:
                if len(x.shape) != 3:
                    out.append(("A[%d]" % n, "%d-dimensional" % len(x.shape), 3))
                elif num(D) != x.shape[1]:
                    out.append(("D", num(D), x.shape[1]))
        if isinstance(f.get("L"), int) and f["L"] != len(A.items):
            out.append(("L", f["L"], len(A.items)))
    return out


def last_is_update(it, obj):
    ev = [e[1] for e in it.events if e[0] is obj and e[1] in DERIVED]
    return bool(ev) and (ev[-1] == "update" or ev[-1] == "truncate")


def run(prog, ctx):
    K = Check(prog, ctx)
    missing = []

    def need(*names):
        for n in names:
            if K.cls(n) is None:
                ctx.undec("class " + n, "not found")
                missing.append(n)
        return not any(K.cls(n) is None for n in names)

    # ---------------------------------------------------------------- finite chains
    for cn in ("EvoMPS_MPS_Generic", "EvoMPS_TDVP_Generic"):
        if not need(cn):
            continue
        c = K.cls(cn)
        for upd in (None, False):
            name = "%s save_state/load_state%s" % (cn, "" if upd is None else "(do_update=False)")

            def mk_save(it, c=c):
                sv = layout(prog, c, "sv", N=3, dim=lambda n: "S%d" % n)
                fs = K.meth(c, "save_state")
                it.sv = sv
                return sv, fs, lambda: it.callfn(fs, ["file"], {}, sv)

            def mk_load(it, c=c, upd=upd):
                old = layout(prog, c, "old", N=3, dim=lambda n: "O%d" % n)
                fl = K.meth(c, "load_state")
                return fl, lambda: (old, it.callfn(fl, ["file"], {} if upd is None else {"do_update": upd}, old))

            def judge(it, sv, obj, ret, fs, fl, name=name, upd=upd):
                K.restored(name, it, sv, obj, fs, fl)
                ev = [e[1] for e in it.events if e[0] is obj]
                if upd is None and "update" not in ev:
                    K.viol("no-update", fl, name, "%s: the derived data are not rebuilt" % name)
                if upd is False and "update" in ev:
                    K.viol("update-not-wanted", fl, name, "%s: update() is called although do_update=False" % name)
            K.go(name, {}, mk_save, mk_load, judge)

    # ---------------------------------------------------------------- uniform states
    cn = "EvoMPS_TDVP_Uniform"
    if need(cn):
        c = K.cls(cn)
        for L in (1, 2, 3):
            for direct in (False, True):
                cases = [("same", "S", "S", {}, "ok"),
                         ("expand", "S", "B", {"expand": True}, "ok"),
                         ("truncate", "B", "S", {"truncate": True}, "ok"),
                         ("larger file", "B", "S", {}, "fail"),
                         ("smaller file", "S", "B", {}, "fail"),
                         ("larger file, expand", "B", "S", {"expand": True}, "fail"),
                         ("smaller file, truncate", "S", "B", {"truncate": True}, "fail"),
                         ("other block length", "S", "S", {}, "L")]
                if direct:
                    cases.append(("same, do_update=False", "S", "S", {"do_update": False}, "ok"))
                    cases.append(("expand, do_update=False", "S", "B", {"expand": True, "do_update": False}, "ok"))
                for nm, ds, do, kw, kind in cases:
                    for own_ud in (True, False):
                        uniform(K, c, L, direct, nm, ds, do, kw, kind, own_ud)
            for upd in (None, False):
                uniform_from_file(K, c, L, upd)

    # ---------------------------------------------------------------- sandwich states
    SM, STV = "EvoMPS_MPS_Sandwich", "EvoMPS_TDVP_Sandwich"
    if need(SM, STV, "EvoMPS_MPS_Uniform", cn):
        for a in (SM, STV):
            for b in (SM, STV):
                for L in (1, 2):
                    sandwich(K, K.cls(a), K.cls(b), L, 4, 4, {}, "ok")
                    sandwich(K, K.cls(a), K.cls(b), L, 4, 4, {"do_update": False}, "ok")
                    sandwich(K, K.cls(a), K.cls(b), L, 4, 2, {"autogrow": True}, "ok")
                    sandwich(K, K.cls(a), K.cls(b), L, 4, 2, {}, "fail")
                    sandwich(K, K.cls(a), K.cls(b), L, 2, 4, {}, "fail")
        for a in (SM, STV):
            for L in (1, 2):
                sandwich_from_file(K, K.cls(a), K.cls(SM), L)


def udata(sv, own):
    return None if own else At(("arg", "userdata"))


def ud_ok(v, sv, own):
    want = ("sv", "userdata") if own else ("arg", "userdata")
    return isinstance(v, At) and v.tag == want


def uniform(K, c, L, direct, nm, ds, do, kw, kind, own):
    prog = K.prog
    s_n, l_n = ("export_state", "import_state") if direct else ("save_state", "load_state")
    name = "%s %s/%s [L=%d, %s%s]" % (c.name, s_n, l_n, L, nm, "" if own else ", userdata given")
    order = {"S": ("D", 1), "B": ("D", 2)}
    Lo = L + 1 if kind == "L" else L

    def mk_save(it):
        sv = layout(prog, c, "sv", L=L, dim=lambda n: ds)
        fs = K.meth(c, s_n)

        def call():
            args = [] if direct else ["file"]
            if not own:
                args.append(udata(sv, own))
            r = it.callfn(fs, args, {}, sv)
            if direct:
                it.file = ("direct", r)
        return sv, fs, call

    def mk_load(it):
        old = layout(prog, c, "old", L=Lo, dim=lambda n: do)
        fl = K.meth(c, l_n)
        names = [a.arg for a in fl.args.args]
        k2 = {k: v for k, v in kw.items() if k in names}
        return fl, lambda: (old, it.callfn(fl, [it.file[1] if direct else "file"], k2, old))

    def judge(it, sv, obj, ret, fs, fl):
        ev = [e for e in it.events if e[0] is obj]
        if kind in ("fail", "L"):
            if ret is not False:
                K.viol("failure-hidden", fl, name, "%s: the state does not fit, but %s returns %s" % (name, l_n, show(ret) if not isinstance(ret, bool) else ret))
            if not it.reports:
                K.viol("failure-hidden", fl, name, "%s: the state does not fit, and nothing is reported" % name)
            for k in ("A", "l", "r", "K"):
                for lf in leaves(obj.f[k]):
                    if not (isinstance(lf.tag, tuple) and lf.tag[0] == "old"):
                        K.viol("failed-load-changes", fl, name + " " + k, "%s: the state does not fit, but %s is changed" % (name, k))
                        break
            K.ctx.count("rejected files")
            return
        K.restored(name, it, sv, obj, fs, fl)
        if ret is not True:
            K.viol("wrong-status", fl, name, "%s: the state was loaded, but %s returns %s" % (name, l_n, ret if isinstance(ret, bool) or ret is None else show(ret)))
        snap, _ = K.view(it, obj)
        if not ud_ok(snap.get("userdata"), sv, own):
            K.viol("userdata-lost", fl, name, "%s: userdata after loading is %s" % (name, show(snap.get("userdata"))))
        names_ = [e[1] for e in ev]
        want = "expand_D" if "expand" in kw else "truncate" if "truncate" in kw else None
        if want is not None:
            h = [e for e in ev if e[1] == want]
            if not h or not h[0][2] or num(h[0][2][0]) != do:
                K.viol("wrong-dimension", fl, name, "%s: %s() must be called with the bond dimension of the loading object" % (name, want))
        elif {"expand_D", "truncate"} & set(names_):
            K.viol("wrong-dimension", fl, name, "%s: the bond dimension is changed although the state fits" % name)
        upd = kw.get("do_update", True)
        if upd and not last_is_update(it, obj):
            K.viol("no-update", fl, name, "%s: the derived data are not rebuilt at the end" % name)
        if not upd and "update" in names_:
            K.viol("update-not-wanted", fl, name, "%s: update() is called although do_update=False" % name)

    K.go(name, order, mk_save, mk_load, judge)


def uniform_from_file(K, c, L, upd):
    prog = K.prog
    name = "%s save_state/from_file [L=%d%s]" % (c.name, L, "" if upd is None else ", do_update=False")

    def mk_save(it):
        sv = layout(prog, c, "sv", L=L, dim=lambda n: "S")
        fs = K.meth(c, "save_state")
        return sv, fs, lambda: it.callfn(fs, ["file"], {}, sv)

    def mk_load(it):
        fl = K.meth(c, "from_file")

        def call():
            ham, hs = At(("arg", "ham")), At(("arg", "ham_sites"))
            r = it.callfn(fl, ["file", ham, hs], {} if upd is None else {"do_update": upd}, ClsV(c))
            return r, r
        return fl, call

    def judge(it, sv, obj, ret, fs, fl):
        if not isinstance(obj, Obj):
            K.viol("no-object", fl, name, "%s: from_file does not return the loaded state" % name)
            return
        K.restored(name, it, sv, obj, fs, fl)
        ev = [e[1] for e in it.events if e[0] is obj]
        if (upd is None) != ("update" in ev):
            K.viol("no-update" if upd is None else "update-not-wanted", fl, name, "%s: update() %s called" % (name, "is not" if upd is None else "is"))
        b = getattr(obj, "init", {})
        for k in ("ham", "ham_sites"):
            if not (isinstance(b.get(k), At) and b[k].tag == ("arg", k)):
                K.viol("argument-lost", fl, name + " " + k, "%s: the new state is not constructed with the given %s" % (name, k))

    K.go(name, {}, mk_save, mk_load, judge)


def sandwich(K, ca, cb, L, Ns, No, kw, kind):
    prog = K.prog
    name = "%s.save_state/%s.load_state [%d -> %d sites, L=%d%s]" % (ca.name, cb.name, Ns, No, L, "".join(", %s=%s" % i for i in sorted(kw.items())))
    same = lambda p: p[-1] not in () and not (p[0] in ("uni_l", "uni_r") and p[1] in ("K", "K_left") and "TDVP" not in cb.name)

    def mk_save(it):
        sv = layout(prog, ca, "sv", N=Ns, L=L, dim=lambda n: "S%d" % n)
        fs = K.meth(ca, "save_state")
        return sv, fs, lambda: it.callfn(fs, ["file", At(("arg", "userdata"))], {}, sv)

    def mk_load(it):
        old = layout(prog, cb, "old", N=No, L=L, dim=lambda n: "O%d" % n)
        fl = K.meth(cb, "load_state")
        return fl, lambda: (old, it.callfn(fl, ["file"], dict(kw), old))

    def judge(it, sv, obj, ret, fs, fl):
        ev = [e[1] for e in it.events if e[0] is obj]
        if kind == "fail":
            if not it.reports:
                K.viol("failure-hidden", fl, name, "%s: the state does not fit, and nothing is reported" % name)
            K.ctx.count("rejected files")
            return
        K.restored(name, it, sv, obj, fs, fl, only=same)
        if not (isinstance(ret, At) and ret.tag == ("arg", "userdata")):
            K.viol("userdata-lost", fl, name, "%s: load_state must return the saved userdata, it returns %s" % (name, show(ret)))
        if kw.get("do_update", True):
            if not last_is_update(it, obj):
                K.viol("no-update", fl, name, "%s: the derived data are not rebuilt at the end" % name)
        elif "update" in ev:
            K.viol("update-not-wanted", fl, name, "%s: update() is called although do_update=False" % name)

    K.go(name, {}, mk_save, mk_load, judge if kind != "fail" else judge)


def sandwich_from_file(K, ca, cb, L):
    prog = K.prog
    name = "%s.save_state/%s.from_file [L=%d]" % (ca.name, cb.name, L)

    def mk_save(it):
        sv = layout(prog, ca, "sv", N=4, L=L, dim=lambda n: "S%d" % n)
        fs = K.meth(ca, "save_state")
        return sv, fs, lambda: it.callfn(fs, ["file"], {}, sv)

    def mk_load(it):
        fl = K.meth(cb, "from_file")

        def call():
            r = it.callfn(fl, ["file"], {}, ClsV(cb))
            return r, r
        return fl, call

    def judge(it, sv, obj, ret, fs, fl):
        if not isinstance(obj, Obj):
            K.viol("no-object", fl, name, "%s: from_file does not return the loaded state" % name)
            return
        K.restored(name, it, sv, obj, fs, fl, only=lambda p: "A" in p)
        if "update" not in [e[1] for e in it.events if e[0] is obj]:
            K.viol("no-update", fl, name, "%s: update() is not called" % name)

    K.go(name, {}, mk_save, mk_load, judge)
