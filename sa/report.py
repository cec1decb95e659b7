"""Collects obligations and violations of one property, filters the committed
known findings, writes the evidence file and decides the exit status."""
import hashlib, json, os, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Ctx(object):
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.undecided = {}
        self.analysed = set()
        self.notes = []
        self.t0 = time.time()
        self.minima = {}

    def violation(self, rule, file, func, construct, msg, line=None):
        key = "|".join((rule, file, func, " ".join(str(construct).split())))
        if key not in self.viol:
            self.viol[key] = dict(rule=rule, file=file, function=func, construct=construct, message=msg, line=line)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def undec(self, what, why=""):
        self.undecided[what] = why

    def require(self, what, minimum):
        """the check must have looked at at least this many instances"""
        self.minima[what] = minimum


def load_known():
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for ln in open(KNOWN, encoding="utf-8"):
        ln = ln.strip()
        if not ln.startswith("known:"):
            continue
        # known: property=C07 key=<key> :: text
        body = ln[len("known:"):].strip()
        head, _, text = body.partition(" :: ")
        p, _, k = head.partition(" key=")
        out.setdefault(p.replace("property=", "").strip(), {})[k.strip()] = text.strip()
    return out


def finish(ctx, level, explanation, assumptions=(), extra=None):
    known = load_known().get(ctx.pid, {})
    new, old = {}, {}
    for k, v in ctx.viol.items():
        (old if k in known else new)[k] = v
    # a recorded construct that has moved to another function is the same finding
    # (one for one; it must have vanished from where it was recorded)
    gone = [k for k in known if k not in old]
    for k in sorted(new):
        r, f, q, c = k.split("|", 3)
        for g in gone:
            r2, f2, q2, c2 = g.split("|", 3)
            if (r, f, c) == (r2, f2, c2):
                gone.remove(g)
                old[k] = new.pop(k)
                known = dict(known)
                known[k] = known[g]
                break
    short = [(w, ctx.counts.get(w, 0), m) for w, m in ctx.minima.items() if ctx.counts.get(w, 0) < m]
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = dict(explanation=explanation, counts=dict(sorted(ctx.counts.items())), samples=ctx.samples or ["(none)"],
               functions_analysed=len(ctx.analysed), functions=sorted(ctx.analysed),
               undecided=len(ctx.undecided), undecided_constructs=sorted("%s: %s" % kv for kv in ctx.undecided.items())[:60],
               violations=list(new.values()), known_findings=sorted(old))
    if level == "proof":
        cov["obligations"] = sum(ctx.counts.values())
        cov["discharged"] = cov["obligations"]
    cov.update(extra or {})
    doc = dict(property=ctx.pid, tier=ctx.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
               assumptions=list(assumptions), wall_s=round(time.time() - ctx.t0, 3), violations=len(new))
    tmp = os.path.join(ev, ".%s.tmp" % ctx.pid)
    json.dump(doc, open(tmp, "w"), indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(ev, ctx.pid + ".json"))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s [%s]" % (ctx.pid, known[k], k))
    print("%s: analysed %d functions; %s" % (ctx.pid, len(ctx.analysed), ", ".join("%s=%d" % kv for kv in sorted(ctx.counts.items()))))
    if new:
        for i, k in enumerate(sorted(new)):
            v = new[k]
            rp = os.path.join(ev, "%s-%s.violation.json" % (ctx.pid, hashlib.sha1(k.encode()).hexdigest()[:10]))
            json.dump(dict(v, key=k), open(rp, "w"), indent=1, default=str)
            print("%s:%s: in %s: [%s] %s   (construct: %s)" % (v["file"], v["line"], v["function"], v["rule"], v["message"], v["construct"]))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if short:
        for w, n, m in short:
            print("ANALYSIS-BROKEN: only %d instances of '%s' found (at least %d expected)" % (n, w, m))
        return 3
    return 0
