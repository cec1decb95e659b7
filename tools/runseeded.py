"""Development tool: run the checks on every seeded bug in a scratch copy.
usage: runseeded.py [ids or property ids...]  (-a: all checks, not only the bug's own property)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
allc = "-a" in sys.argv
claimed = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]


def one(i):
    d = HERE + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/rs/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns("seeded", ".git"))
    r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w[1:] + "/repo", d + "/patch.diff"], cwd="/", capture_output=True, text=True)
    if r.returncode:
        return "%s PATCH FAILS %s" % (i, r.stderr)
    out = []
    for p in (claimed if allc else [meta["property"]]):
        if p not in claimed:
            out.append("%s:unclaimed" % p); continue
        c = subprocess.run(["python3", "check.py", p], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo"), capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if "]" in l and ": in " in l]
        out.append("%s:%s %s" % (p, {0: "missed", 1: "CAUGHT"}.get(c.returncode, "BROKEN " + c.stdout[-300:] + c.stderr[-500:]), (v[0][:230] if v and not allc else "")))
    if allc:
        out = [o for o in out if "missed" not in o] or ["none"]
    shutil.rmtree(w)
    return "%-28s %s" % (i, "; ".join(out))


ids = [i for i in sorted(os.listdir(HERE + "/seeded")) if not args or i in args or json.load(open(HERE + "/seeded/" + i + "/meta.json"))["property"] in args]
with ThreadPoolExecutor(8) as ex:
    for s in ex.map(one, ids):
        print(s)
