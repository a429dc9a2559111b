"""The parents of the nodes of real documents."""
from copy import copy

import maureal
import replay
import tlc
import visits
from judge import model_case


def below(d):
    """The data of the nodes right below a node, in the order of the specification."""
    t = d["_type"]
    found = []

    def note(x):
        found.append(x)
        return []

    proj, maureal.proj = maureal.proj, note
    try:
        maureal._groups(t, d)
    finally:
        maureal.proj = proj
    return found


def nodes(d, around=()):
    """Each node with those around it, the outermost first."""
    yield d, around
    for x in below(d):
        yield from nodes(x, around + (d,))


MARK = "\0node "


def mark(document):
    """Give each node an internal tag of its own, to tell a node from its copies."""
    seen, todo = set(), [document]
    while todo:
        x = todo.pop()
        if id(x) in seen or not (isinstance(x, (list, tuple, dict)) or type(x).__module__.startswith("mau.nodes")):
            continue
        seen.add(id(x))
        if isinstance(x, (list, tuple)):
            todo += x
        elif isinstance(x, dict):
            todo += x.values()
        else:
            todo += vars(x).values()
            if hasattr(getattr(x, "arguments", None), "internal_tags"):
                x.arguments = copy(x.arguments)
                x.arguments.internal_tags = [*x.arguments.internal_tags, f"{MARK}{len(seen)}"]
    return document


def marked(d):
    return [t for t in d.get("internal_tags", ()) if t.startswith(MARK)]


def identity(p):
    if not p:
        return []
    return [p["_type"], maureal._args({**p, "internal_tags": [t for t in p["internal_tags"] if not t.startswith(MARK)]}), maureal._ctx(p)]


def allowed(want, got):
    if want == ["*"]:
        return bool(got)
    if len(want) == 1:
        return got[:1] == want
    if not want or not got:
        return want == got
    return want[0] == got[0] and replay.norm_args(want[1]) == replay.norm_args(got[1]) and list(want[2]) == got[2]


def judge_parents(case, spec, want):
    replay.write_files(case.get("f", ()))
    try:
        document = visits.parse(case)
        if (document is None) != (spec["r"] in ("lexer", "parser")):
            return f"the document is {'not ' if document is None else ''}processed; {spec['r']} was expected"
        if document is None or spec["r"] == "empty":
            return None
        got = list(nodes(visits.visitors()["base"].process(mark(document[0]))))
        if len(got) != len(want):
            return f"{len(got)} nodes instead of {len(want)}"
        for (d, around), w in zip(got, want):
            p = identity(d.get("parent"))
            if not allowed(w, p):
                return f"the parent of {identity(d)} is {p} instead of {w}"
            if len(w) == 4 and w[3] and marked(around[w[3] - 1]) != marked(d["parent"]):
                return f"the parent of {identity(d)} looks as the node around it, but it is another one"
        return None
    except Exception as exc:
        return f"parents: {exc!r}"
    finally:
        replay.remove_files(case.get("f", ()))


def judge_line(line):
    text, env, spec, want = tlc.Tlc.decode(line)
    case = model_case([text, env])
    d = judge_parents(case, spec, want)
    return d and {"case": case, "what": d}


def judge_case(job):
    case, (spec, want) = job
    d = judge_parents(case, spec, want)
    return d and {"case": case, "what": d}
