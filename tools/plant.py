"""Development tool: build one seeded bug (never used by a check).
usage: plant.py DEFS.py [id...]   DEFS.py calls bug(id, prop, edits, demo, needs, breaks)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/sh
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/pypyvenv/bin/python "$here/demo.py"
"""
only = sys.argv[2:]
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def bug(id, prop, edits, demo, needs, breaks):
    if only and id not in only:
        return
    w = "/tmp/pl/%s" % id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    r = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    for f, old, new in edits:
        p = r + "/evoMPS/" + f
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if n != 1:
            print(id, "EDIT MATCHES", n, f, old[:60]); return
        open(p, "w", newline="").write(s.replace(old, new))
    d = w + "/seed"
    os.makedirs(d)
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", r, "diff", "--binary"]))
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    a = sh(["sh", d + "/demo.sh"], cwd="/repo")
    b = sh(["sh", d + "/demo.sh"], cwd=r)
    ok = a.returncode == 0 and b.returncode != 0
    print(a.stdout[-200:],b.stdout[-200:]) if os.environ.get("V") else 0
    print(id, "demo: clean", a.returncode, "bug", b.returncode, "" if ok else "BAD\n" + a.stdout[-800:] + a.stderr[-1500:] + b.stdout[-300:])
    if not ok:
        return
    c = sh(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    if c.returncode:
        print(id, "PATCH", c.stderr); return
    print("    bug says:", (b.stderr or b.stdout).strip().splitlines()[-1:])
    bc = open("/opt/vp/build_check.py").read().replace("/repo", r)
    e = sh(["/opt/pypyvenv/bin/python", "-c", bc], cwd=r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r))
    if e.returncode:
        print(id, "build_check fails", e.stderr[-500:])
    t = open("/opt/vp/test.sh").read().replace("/repo", r)
    open(w + "/test.sh", "w").write(t)
    sh(["bash", w + "/test.sh", w + "/o.json"])
    o = json.load(open(w + "/o.json"))
    st = BASE.get("stable") or BASE.get("stable_pass") or BASE.get("tests") or BASE
    st = list(st if not isinstance(st, dict) else st.keys())
    passed = set(o.get("passed") or [k for k, v in o.get("tests", {}).items() if v in ("passed", "pass", True)])
    miss = [x for x in st if x not in passed]
    if miss:
        print(id, "TESTS FAIL", len(miss), miss[:3]); return
    dst = HERE + "/seeded/" + id
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    shutil.rmtree(w)
    print(id, "KEPT")


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
