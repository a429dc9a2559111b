"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

import checks

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    "C02": "MauLexing.tla",
}
DEFAULT = ("TLC explores every document of the bounded alphabets (modules spec/MC_{id}.tla) and checks the invariants that state the "
           "property; every finished behaviour is replayed in the real code, and random documents run in the real code are judged by "
           "the same specification. Assurance is exhaustive inside the bounds and statistical beyond them; it assumes the projection "
           "in tools/maureal.py and single-line string values of variables.")


def main():
    props = [json.loads(line) for line in open(os.path.join(VERIF, "properties.jsonl"))]
    out, na = [], []
    for p in props:
        f = getattr(checks, p["id"].lower(), None)
        if f is None:
            na.append({"property": p["id"], "reason": "check under construction"})
            continue
        cmd = f"/opt/venv/bin/python tools/check.py {p['id']}"
        out.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd,
                    "technique": checks.TECHNIQUE.get(p["id"], "TLA+ specification checked with TLC; exported behaviours replayed in the code, recorded runs judged by the specification"),
                    "level": "model_checking", "level_note": checks.NOTE.get(p["id"], DEFAULT.format(id=p["id"]))})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": out, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
