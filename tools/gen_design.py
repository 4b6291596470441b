"""Write DESIGN.md: hand-written text (tools/design_*.md), findings and planted bugs."""

import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(name: str) -> str:
    with open(os.path.join(root, name)) as file:
        return file.read()


out = [read("tools/design_head.md"), read("tools/design_props.md")]
findings = json.loads(read("known_findings.json"))
out.append("## Genuine defects found in the code\n")
out.append(
    "Every defect below was shown by a check on the real code, and repaired by one `fix:` commit in"
    " /repo.  None is left as a known finding.\n"
    if not findings["findings"]
    else "Repaired defects (one `fix:` commit each), then known findings that were not repaired.\n"
)
for line in findings["fixed"]:
    _, pid, commit, what = line.split(" ", 3)
    out.append(f"* {pid.split('=')[1]}, `{commit}`: {what}")
for entry in findings["findings"]:
    out.append(f"* KNOWN FINDING: {json.dumps(entry)}")
out.append("")
out.append(read("tools/design_notes.md"))
out.append("## Planted bugs\n")
out.append(
    "Planted in scratch copies, written from the property texts and the code.  \"First\" is what the"
    " quick check reported when the bug was planted; every miss led to the strengthening named.\n"
)
out.append("| bug | property | needs | caught by (test) | first |")
out.append("|---|---|---|---|---|")
catches = json.loads(read("tools/catches.json"))
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    meta = json.loads(read(f"seeded/{name}/meta.json"))
    needs = " ".join(meta["needs"].split()).replace("|", "/")
    info = catches.get(name, {})
    out.append(
        f"| {name} | {meta['property']} | {needs} | {info.get('test', '?')} |"
        f" {info.get('first', 'caught')} |"
    )
with open(os.path.join(root, "DESIGN.md"), "w") as file:
    file.write("\n".join(out) + "\n")
