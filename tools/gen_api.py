"""Freezes the list of functions of the package (names and parameters) that the
entry-point rules start from; helpers that appear later are judged through
their callers."""
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.repo import Program, qualname
prog = Program()
out = {}
for m, f in prog.all_functions():
    if isinstance(f, ast.Lambda):
        continue
    a = f.args
    out[m.name + ":" + qualname(f)] = [p.arg for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)] + \
        (["*" + a.vararg.arg] if a.vararg else []) + (["**" + a.kwarg.arg] if a.kwarg else [])
json.dump(out, open(os.path.join(ROOT, "data", "api.json"), "w"), indent=0, sort_keys=True)
print(len(out))
