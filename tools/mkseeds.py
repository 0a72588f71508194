"""Write seeded/<id>/ folders from the definitions in seeds_def.py (planted bugs; used by no check)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS, COMMON
only = set(sys.argv[1:])
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    edits = s["edits"]
    originals = {}
    for f, old, new in edits:
        p = "/repo/" + f
        t = open(p).read()
        originals.setdefault(p, t)
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    for p, t in originals.items():
        open(p, "w").write(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(COMMON + s["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"], "ok")
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
