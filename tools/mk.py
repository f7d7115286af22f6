"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS  # noqa: E402

lines, checks = [], []
for p in sorted(PROPS, key=lambda p: p["line"]["id"]):
    pid = p["line"]["id"]
    assert len(p["line"]["title"]) <= 80, (pid, len(p["line"]["title"]))
    if not os.path.exists(os.path.join(VERIF, "vt", "props", pid.lower() + ".py")):
        print("no check yet:", pid)
        continue
    lines.append(json.dumps(p["line"]))
    checks.append(
        {
            "property": pid,
            "quick_cmd": "bash check.sh %s quick" % pid,
            "thorough_cmd": "bash check.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
    )
open(os.path.join(VERIF, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(
    {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "See DESIGN.md. Checks import /repo's working tree directly; nothing in /repo is instrumented.",
    },
    open(os.path.join(VERIF, "MANIFEST.json"), "w"),
    indent=1,
)
import subprocess

code = """
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('%s/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid', %d)
""" % (VERIF, VERIF, len(lines))
subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", code], check=True)
