"""Helper to write a planted bug folder (edit.json is turned into patch.diff by mkbug.py)."""
import json, os, shutil
from pathlib import Path
V = Path(__file__).resolve().parent.parent
T = "src/acetone_nnet/"
def bug(bid, prop, needs, breaks, edits, demo):
    d = f"{V}/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    shutil.copy(f"{V}/tools/demo_lib.py", d + "/demo_lib.py")
    json.dump([[T + p, a, b] for p, a, b in edits], open(d + "/edit.json", "w"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write("from demo_lib import *\n" + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
