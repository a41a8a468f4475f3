"""Regenerates properties.jsonl and MANIFEST.json from the catalogue."""
import json, os
from .catalog import PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    from . import rules
    claimed = set(rules.available())
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in claimed:
            na.append({"property": p["id"], "reason": "Static analysis applies (" + p["technique"] + "); the check is still being built and is not claimed yet."})
        else:
            note = p["note"] or getattr(rules.module(p["id"]), "NOTE", None) or "Decides the structural clauses listed in DESIGN.md on every path of the current source; assumes the modelled call resolution and that code outside the repository honours its documentation."
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 -m verifier %s" % p["id"],
                "thorough_cmd": "python3 -m verifier --thorough %s" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "static analysis: " + p["technique"],
                "level": p["level"],
                "level_note": note,
            })
    man = {
        "version": 1,
        "setup_cmd": "python3 -m verifier --selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check parses /repo's current source with Python's ast module and decides the property by dataflow; nothing of /repo is imported or run. No hooks in /repo are needed.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties", len(checks), "claimed", len(na), "not applicable")


if __name__ == "__main__":
    main()
