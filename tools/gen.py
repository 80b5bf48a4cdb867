"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from properties import PROPS  # noqa: E402

TECHNIQUE = ("symbolic execution of the real code (instrumented at import from /repo), "
             "path conditions and assertions decided by z3 within bounds, counterexamples replayed")

NOTE = ("Every path of the harness within the stated bounds is executed on the real code with "
        "symbolic inputs and each assertion is decided by z3 for all values of the path; "
        "counterexamples are only reported after a replay on the uninstrumented code. "
        "Trusts the instrumentation and the models of builtins (differentially self-tested), z3, "
        "sqlite and the bounds in the evidence file. ")


def main():
    lines = []
    checks = []
    na = []
    for p in PROPS:
        p = dict(p)
        reason = p.pop("not_applicable", None)
        note = p.pop("note", "")
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": sorted({m[1].split("::")[0] for m in p["mech"]}),
                "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            }}))
        if reason is None:
            assert os.path.exists(os.path.join(VERIF, "checks", p["id"] + ".py")), p["id"]
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check.sh %s quick" % p["id"],
                "thorough_cmd": "./check.sh %s thorough" % p["id"],
                "technique": TECHNIQUE,
                "level": "model_checking",
                "level_note": (NOTE + note).strip(),
            })
        else:
            na.append({"property": p["id"], "reason": reason})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "./setup.sh",
            "checks": checks,
            "not_applicable": na,
            "notes": "see DESIGN.md",
        }, f, indent=1)
        f.write("\n")


main()
