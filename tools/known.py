"""The known findings of /verif/known_findings.json: defects that are not repaired, each
with the input that fails and what is expected."""
import json
import os
import tempfile

import maureal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == pid]


def deep(kind, n):
    import checks

    return checks.DEEP[kind](n)


def fails(k):
    """What is wrong with the input of a finding, None when it is right."""
    kind = k["kind"]
    if kind == "deep":
        out, _ = maureal.run(deep(k["construct"], k["levels"]), maureal.make_env())
        return out.get("why") or out["r"] if out["r"] in ("crash", "messages") else None
    if kind == "document":
        # the outcome must contain (or not) some text
        cwd = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                out, raw = maureal.run(k["text"], maureal.make_env(k.get("variables", ())))
            finally:
                os.chdir(cwd)
        s = json.dumps(out)
        if "expect" in k and k["expect"] not in s:
            return f"no {k['expect']} in the result ({out['r']})"
        if "reject" in k and k["reject"] in s:
            return f"{k['reject']} in the result"
        return None
    if kind == "python":
        scope = {}
        try:
            maureal.make_env()
            exec(k["code"], scope)
        except Exception as exc:
            return f"{type(exc).__name__}: {exc}"[:200]
        return None
    raise ValueError(kind)
