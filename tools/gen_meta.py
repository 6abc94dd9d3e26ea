"""Writes properties.jsonl, MANIFEST.json and the property section of
DESIGN.md from tools/props_data.py and the BOUNDS of the harnesses."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_data import PROPS  # noqa: E402


def consts(pid):
    src = open(os.path.join(VERIF, "props", pid.lower() + ".py")).read()
    out = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ("BOUNDS", "OUTSIDE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": a, "where": b}
                                  for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = []
    for p in PROPS:
        c = consts(p["id"])
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "symbolic execution of the real Python code, "
                         "assertions decided by z3 (SMT)",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: "
            + c["BOUNDS"] + ". Outside: " + c["OUTSIDE"] + ". Trusts z3, the "
            "proxy classes, and the stubs for random, numpy and executors "
            "(see DESIGN.md); every counterexample is replayed natively "
            "before it is reported."})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [],
           "notes": "No hooks in /repo. Tools: /opt/venv/bin/python with z3 "
           "from /opt/veriftools/pyvenv appended to its path; cvc5 "
           "re-decides a sample of queries in the thorough tier."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    path = os.path.join(VERIF, "DESIGN.md")
    src = open(path).read()
    a, b = "<!-- props:begin -->\n", "<!-- props:end -->"
    body = ""
    for p in PROPS:
        c = consts(p["id"])
        body += (f"### {p['id']} {p['title']}\n\n"
                 f"*How*: {p['how']}.\n\n"
                 f"*Bounds*: {c['BOUNDS']}.\n\n*Outside*: {c['OUTSIDE']}."
                 f"\n\n*Why tests cannot*: {p['why']}\n\n")
    i, j = src.index(a) + len(a), src.index(b)
    src = src[:i] + body + src[j:]
    a, b = "<!-- seeds:begin -->\n", "<!-- seeds:end -->"
    res = json.load(open(os.path.join(VERIF, "tools/seed_results.json")))
    body = "| change | needs | check, harness | assertion |\n|---|---|---|---|\n"
    for k, r in sorted(res.items()):
        m = json.load(open(os.path.join(VERIF, "seeded", k, "meta.json")))
        body += (f"| {k} | {m['needs']} | " + (
            f"{r['property']} `{r['by']}` | {r['label']} |\n"
            if r["caught"] else f"missed by {r['property']} | |\n"))
    i, j = src.index(a) + len(a), src.index(b)
    open(path, "w").write(src[:i] + body + src[j:])


main()
