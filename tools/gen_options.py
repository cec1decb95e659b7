import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.repo import Program
from sa.spec15 import freeze
json.dump(freeze(Program()), open(os.path.join(ROOT, "data", "options.json"), "w"), indent=0, sort_keys=True)
