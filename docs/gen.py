"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from docs/props.py, docs/design_head.md, docs/design_tail.md."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("props", os.path.join(HERE, "props.py"))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)


def read(name):
    p = os.path.join(HERE, name)
    return open(p).read() if os.path.exists(p) else ""


lines, checks, design, absent = [], [], [], []
for p in props.PROPS:
    have = os.path.exists(os.path.join(TOP, "checks", p["id"].lower() + ".py"))
    files = sorted(set(w.split(":")[0] for _, w in p["mechanism"]))
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["for_all"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    assert len(p["title"]) <= 80, p["id"]
    if have:
        checks.append({
            "property": p["id"], "quick_cmd": "./check " + p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
    else:
        absent.append({"property": p["id"], "reason": p.get("reason", "check not built yet")})
    design.append("### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Oracle and bounds:* %s\n" % (
        p["id"], p["title"], p["statement"], p["technique"], p["design"]))

with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": absent,
               "notes": props.NOTES}, f, indent=1)
    f.write("\n")
with open(os.path.join(TOP, "DESIGN.md"), "w") as f:
    f.write(read("design_head.md") + "\n## Properties\n\n" + "\n".join(design) + "\n" + read("design_tail.md"))
print(len(checks), "checks,", len(absent), "not claimed")
