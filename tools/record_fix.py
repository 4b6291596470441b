"""Commit the working tree of /repo as a fix and record it: record_fix.py <property> <what failed>"""
import json, subprocess, sys
pid, what = sys.argv[1], sys.argv[2]
subprocess.check_call(["git", "-C", "/repo", "commit", "-qam", f"fix: {what}"])
sha = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=12", "HEAD"], text=True).strip()
path = "/verif/known_findings.json"
try:
    data = json.load(open(path))
except FileNotFoundError:
    data = {"findings": [], "fixed": []}
data["fixed"].append(f"fixed: property={pid} {sha} {what}")
json.dump(data, open(path, "w"), indent=1)
print(data["fixed"][-1])
