"""Writes properties.jsonl and MANIFEST.json (run from /verif: python tools/gen.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from spec import PROPS, NA

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(f"{root}/dst/props/{p['id'].lower()}.py"):
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "deterministic simulation: " + p["technique"], "level": "exploration", "level_note": p["note"]})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q dst && /opt/venv/bin/python -c 'import dst.core'",
    "hooks": {"guard": "none (no hook is needed: every seam is attached from outside, see DESIGN.md)",
              "enable": "nothing to enable; the checks import /repo's working tree as it is", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]
    + [{"property": p["id"], "reason": "check not built yet"} for p in PROPS
       if not os.path.exists(f"{root}/dst/props/{p['id'].lower()}.py")],
    "notes": "pure Python; nothing to compile. Seeds: VERIF_SEED. Replay: python -m dst replay FILE.",
}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md: the hand-written parts, with the lists that are kept elsewhere
known = json.load(open(root + "/known_findings.json"))
caught = json.load(open(root + "/tools/caught.json")) if os.path.exists(root + "/tools/caught.json") else {}
rows = ["| planted bug | needs | quick check |", "|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    meta = json.load(open(f"{root}/seeded/{d}/meta.json"))
    got = caught.get(d, "not tried")
    rows.append(f"| {d} | {meta['needs']} | " + (f"{meta['property']}: {got}" if got else "**missed**") + " |")
text = open(root + "/tools/design_head.md").read() + "\n" + open(root + "/tools/design_tail.md").read()
text = text.replace("<!-- FIXED -->", "\n".join("- " + x[len("fixed: property="):] for x in known["fixed"]))
text = text.replace("<!-- PLANTED -->", "\n".join(rows))
text = text.replace("<!-- NA -->", "\n".join(f"- {p['id']} {p['title']}: {p['reason']}." for p in NA))
with open(root + "/DESIGN.md", "w") as f:
    f.write(text)
