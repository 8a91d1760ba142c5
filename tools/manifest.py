"""Writes MANIFEST.json from the property modules that exist."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(ROOT, "props", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "the check for this property is not built yet"})
        continue
    c = const(f)
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt -W ignore -B run.py {p} quick",
        "thorough_cmd": f"python3-vt -W ignore -B run.py {p} thorough",
        "technique": c.get("TECHNIQUE", "deductive verification of the real code (pyvc VC generator + z3), "
                                        "counter-models replayed on the real code"),
        "level": c.get("LEVEL", "proof"),
        "level_note": c["NOTE"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3-vt -W ignore -B -c \"import sys; sys.path.insert(0, '.'); import z3, pyvc.contract\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks read and import /repo's working tree as it is.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
