"""Append a line to known_findings.json's "fixed" list: fixed.py PROP COMMIT TEXT"""
import json, os, sys
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
data = json.load(open(path))
data["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
with open(path, "w") as fh:
    json.dump(data, fh, indent=1)
    fh.write("\n")
