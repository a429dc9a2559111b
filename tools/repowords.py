"""The short texts that appear in the code: a change often treats one of them in a special way."""
import ast
import functools
import os
import re

import maureal


@functools.lru_cache(None)
def words():
    out = set()
    for folder, _, files in os.walk(os.path.join(maureal.REPO, "mau")):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(folder, f), encoding="utf-8") as x:
                    tree = ast.parse(x.read())
            except (OSError, SyntaxError, ValueError):
                continue
            out |= {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    return tuple(sorted(w for w in out if re.fullmatch(r"[ -~]{1,14}", w)))


@functools.lru_cache(None)
def names():
    """Those that can be a name."""
    return tuple(w for w in words() if re.fullmatch(r"[A-Za-z][A-Za-z0-9_-]*", w) and "__" not in w and not re.match(r"pts?_|pf_|tg_", w))
