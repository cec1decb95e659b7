"""Freezes the inventory of failure reports (raise, assert, log records), wide
handlers and functions that C12 compares the tree with."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.repo import Program
from sa.rules12 import inventory
inv = inventory(Program())
for r in inv["reports"]:
    r.pop("lineno")
json.dump(inv, open(os.path.join(ROOT, "data", "reports.json"), "w"), indent=0, sort_keys=True)
print(len(inv["reports"]), "reports", len(inv["wide"]), "functions with wide handlers")
