"""Writes properties.jsonl and MANIFEST.json from the table below and the check modules: python3 tools/gen.py"""

import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    anchors["hook_needed"] = None
    P.append(
        (
            {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors},
            technique,
            note,
        )
    )


exec(open(os.path.join(ROOT, "tools", "table.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, technique, note in P:
        pid = p["id"]
        if pid in {n["property"] for n in NA}:
            continue
        mod = importlib.import_module(f"mc.checks.{pid.lower()}")
        cmd = f"/opt/venv/bin/python mc/run.py {pid}"
        checks.append(
            {
                "property": pid,
                "quick_cmd": cmd,
                "thorough_cmd": cmd + " --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": technique,
                "level": mod.LEVEL,
                "level_note": note,
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); import mc.core'",
        "checks": checks,
        "not_applicable": NA,
        "notes": "No hooks in /repo: the machinery drives the public API, intercepts files/locks/SQLite from outside and schedules real threads with sys.settrace. Defects found are fixed in /repo (commits starting with fix:) and listed in known_findings.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
