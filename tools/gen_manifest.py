"""Write properties.jsonl and MANIFEST.json from manifest_data.py (run from anywhere)."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manifest_data  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main() -> None:
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as file:
        for p in manifest_data.PROPERTIES:
            assert len(p["title"]) <= 80, p["id"]
            anchors = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            }
            if "state" in p:
                anchors["state"] = [
                    {"name": n, "meaning": m, "where": w} for n, m, w in p["state"]
                ]
            line = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": anchors,
            }
            file.write(json.dumps(line) + "\n")

    checks, missing = [], []
    for p in manifest_data.PROPERTIES:
        pid = p["id"]
        if not os.path.exists(os.path.join(VERIF, "props", f"{pid.lower()}.py")):
            missing.append({"property": pid, "reason": "the check is not built yet"})
            continue
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{PY} run.py {pid} --tier quick",
                "thorough_cmd": f"{PY} run.py {pid} --tier thorough",
                "technique": p.get(
                    "technique",
                    "property-based testing (Hypothesis) against a reference model",
                ),
                "level": "exploration",
                "level_note": p.get(
                    "note",
                    "Seeded generated-input search with shrinking; assurance is limited to the"
                    " explored cases (counted in the evidence). Trusts numpy, galois, stim,"
                    " networkx and the small reference implementations in vlib/.",
                ),
                "evidence_file": f"evidence/{pid}.json",
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "mkdir -p evidence replays",
        "checks": checks,
        "not_applicable": missing,
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


if __name__ == "__main__":
    main()
