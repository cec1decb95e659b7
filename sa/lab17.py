"""Scenario runner and comparisons shared by the checks that use the gauge-algebra interpreter."""
import os, pickle, sys
from .report import Ctx
from .repo import qualname
from .rules17 import Ar, Lst, Obj, Undecided, Raised
from .rig17 import explore, show, state_change, block_change, kernels, sym_kernels


class Lab(object):
    def __init__(self, prog, ctx, what):
        self.prog, self.ctx, self.what = prog, ctx, what
        self.queue = None

    def later(self):
        """collect the scenarios instead of running them one by one; go() spreads them over the cores"""
        self.queue = []

    def go(self, workers=None):
        q, self.queue = self.queue, None
        n = min(workers or os.cpu_count() or 1, 8, len(q))
        if n < 2:
            for a in q:
                self.scen(*a)
            return
        ctx, kids = self.ctx, []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    out = []
                    for i in range(w, len(q), n):
                        self.ctx = Ctx(ctx.pid, ctx.tier)
                        self.scen(*q[i])
                        c = self.ctx
                        out.append((i, c.viol, c.counts, c.samples, c.undecided, c.analysed, c.notes))
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, rd))
        got = []
        for pid, rd in kids:
            with os.fdopen(rd, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st:
                raise RuntimeError("a worker failed")
            got += pickle.loads(data)
        for i, viol, counts, samples, undecided, analysed, notes in sorted(got, key=lambda x: x[0]):
            for k, v in viol.items():
                ctx.viol.setdefault(k, v)
            for k, v in counts.items():
                ctx.count(k, v)
            for x in samples:
                ctx.sample(x)
            for k, v in undecided.items():
                ctx.undec(k, v)
            ctx.analysed |= analysed
            ctx.notes += notes

    def scen(self, label, make, body, cap=16, raised=None, need=None):
        """make(decisions) -> rig (with .g); body(rig) reports; every combination of undecided conditions.
        raised(exc, rig): called when the interpreted code raises; otherwise that leaves the scenario undecided"""
        if self.queue is not None:
            self.queue.append((label, make, body, cap, raised, need))
            return
        def run(dec):
            rig = None
            try:
                rig = make(dec)
                body(rig)
                self.note_calls(rig)
                self.ctx.count(self.what)
            except Undecided as e:
                self.ctx.undec(str(label), "not decided: %s" % e)
            except Raised as e:
                if raised is None or rig is None or not raised(e, rig):
                    self.ctx.undec(str(label), "the interpreted code raises: %s (line %s)" % (e, getattr(getattr(e, "node", None), "lineno", "?")))
            except RecursionError:
                self.ctx.undec(str(label), "recursion")
            except Exception as e:          # a construct the interpreter has no rule for
                self.ctx.undec(str(label), "no rule: %s: %s" % (type(e).__name__, e))
            return rig.g if rig is not None else None
        return explore(run, cap)

    def anchor(self, rig, name):
        fn = rig.g.method(rig.cls, name)
        if fn is None:
            return "evoMPS", name, None
        self.ctx.analysed.add(qualname(fn))
        return fn._mod.path, qualname(fn), fn.lineno

    def viol(self, rig, rule, name, construct, msg):
        p, q, ln = self.anchor(rig, name)
        self.ctx.violation(rule, p, q, construct, msg, ln)

    def note_calls(self, rig):
        for nm, o in rig.g.calls:
            if isinstance(o, Obj) and o.cls is not None:
                fn = rig.g.method(o.cls, nm)
                if fn is not None:
                    self.ctx.analysed.add(qualname(fn))


def lc_of(g, v):
    a = g.asar(v)
    return None if a is None else a.lc
