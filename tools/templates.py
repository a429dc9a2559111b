"""Nodes rendered with sets of templates by the real Jinja visitor."""
import os
import random
import shutil
import tempfile

import maureal
import repowords
import tlc

from mau.environment.environment import Environment
from mau.message import MauException
from mau.nodes.block import BlockNode
from mau.nodes.include import BlockGroupItemNode, BlockGroupNode, IncludeNode
from mau.nodes.inline import StyleNode, TextNode
from mau.nodes.label import LabelNode
from mau.nodes.macro import MacroNode
from mau.nodes.node_arguments import NodeArguments
from mau.visitors.jinja_visitor import JinjaVisitor


DECOYS = ["star", "a", "b", "t-1", "a_b", "s", "p", "x", "block", "caret"]


def make_node(n, parent=None):
    """A node from [type, subtype, tags, fields, parent]."""
    t, sub, tags, fields = n[:4]
    fields = dict(fields) if fields else {}
    if len(n) > 4 and n[4]:
        parent = make_node(n[4])
    # what no claim is about
    other = [x for x in DECOYS if x not in tags and x != sub]
    arguments = NodeArguments(unnamed_args=other, named_args={k: v for k, v in zip(("style", "name", "subtype", "prefix"), other)},
                              internal_tags=other, tags=list(tags), subtype=sub or None)
    kw = {"parent": parent, "arguments": arguments}
    if t == "text":
        return TextNode("x", **kw)
    if t == "style":
        return StyleNode(fields["style"], **kw)
    if t == "macro":
        return MacroNode(fields["name"], **kw)
    if t == "label":
        return LabelNode(fields["role"], **kw)
    if t == "include":
        return IncludeNode(fields["ctype"], **kw)
    if t == "blockgroup":
        return BlockGroupNode(fields["name"], **kw)
    if t == "block":
        return BlockNode(**kw)
    raise ValueError(t)


def nested(d):
    """The same names as a nested dictionary, when possible."""
    out = {}
    for k, v in d.items():
        *path, last = k.removesuffix(".j2").split(".")
        x = out
        for p in path:
            x = x.setdefault(p, {})
            if not isinstance(x, dict):
                return d
        if last + ".j2" in x:
            return d
        x[last + ".j2"] = v
    return out


def visitor(custom, prefixes, files=None, base=JinjaVisitor):
    t = {"custom": custom}
    if prefixes is not None:
        t["prefixes"] = prefixes
    if files:
        t["paths"] = files
    return base(maureal.make_handler(), Environment.from_dict({"mau": {"visitor": {"templates": t}}}))


def write(folder, templates, r):
    """Templates as files in folders: each part of the name is a folder or a part of the file name."""
    for name, content in templates.items():
        path = folder
        parts = name.split(".")
        for p in parts[:-1]:
            if os.path.isdir(os.path.join(path, p)) or r.random() < .4:
                path = os.path.join(path, p)
                os.makedirs(path, exist_ok=True)
                parts = parts[1:]
            else:
                break
        with open(os.path.join(path, ".".join(parts) + ".j2"), "w") as f:
            f.write(content)


def chosen(v, n):
    try:
        return v.visit(make_node(n))
    except MauException:
        return None


def judge_nodes(names, prefixes, nodes, best, r):
    """names: [(type, parts)]; best: for each node, the positions of the templates that can render it."""
    texts = [f"T{j}." for j in range(1, len(names) + 1)]
    plain = {".".join([t, *parts]): c for (t, parts), c in zip(names, texts)}
    mixed = []
    for (t, parts), c in zip(names, texts):
        parts = list(parts)
        r.shuffle(parts)
        mixed.append((".".join([t, *parts]), c))
    r.shuffle(mixed)
    mixed = dict(mixed)
    if len(plain) != len(names) or len(mixed) != len(names):
        return None
    jobs = [("", visitor({k + ".j2": c for k, c in plain.items()}, prefixes)),
            ("with other names ", visitor(nested({k + ".j2": c for k, c in mixed.items()}), prefixes or None))]
    folder = None
    if r.random() < .15:
        # from files; some are replaced by templates of the configuration
        folder = tempfile.mkdtemp(prefix="templates")
        old = {k: ("old" if r.random() < .3 else c) for k, c in mixed.items()}
        write(folder, old, r)
        over = {k + ".j2": mixed[k] for k in mixed if old[k] == "old"}
        with open(os.path.join(folder, "style.html"), "w") as f:
            f.write("wrong")
        jobs.append(("from files ", visitor(over, prefixes, [folder])))
    try:
        for what, v in jobs:
            for n, b in zip(nodes, best):
                got = chosen(v, n)
                allowed = [texts[j - 1] for j in b]
                if got not in allowed and (allowed or got is not None):
                    return f"{what}{n} is rendered by {got} and not by {allowed} of {plain} with prefixes {prefixes}"
                if got != chosen(v, n):
                    return f"{what}{n} is not always rendered by {got}"
    finally:
        if folder:
            shutil.rmtree(folder)
    return None


def judge_line(line):
    ts, prefixes, q = tlc.Tlc.decode(line)
    r = random.Random(line)
    nodes, best = [x[0] for x in q], [x[1] for x in q]
    d = judge_nodes([("style", t) for t in ts], prefixes, nodes, best, r)
    return d and {"case": {"templates": ts, "prefixes": prefixes}, "what": d}


def judge_debug(job):
    """The templates that the message about a node tagged for debugging mentions."""
    case, (best, all_) = job
    names = [".".join([t, *parts]) for t, parts in case["templates"]]
    if len(set(names)) != len(names):
        return None
    v = visitor({n + ".j2": f"T{j}." for j, n in enumerate(names, 1)}, case["prefixes"])
    for n, b, q in zip(case["nodes"], best, all_):
        node = make_node(n)
        node.arguments.internal_tags = [*node.arguments.internal_tags, "debug"]
        del v.message_handler.seen[:]
        try:
            got = v.visit(node)
        except MauException:
            got = None
        allowed = [f"T{j}." for j in b]
        sent = [m for k, m in v.message_handler.seen if k == "debug"]
        if got not in allowed and (allowed or got is not None):
            return {"case": case, "what": f"{n}, tagged for debugging, is rendered by {got} and not by {allowed}"}
        if len(sent) != 1 or sent[0].node_type != n[0]:
            return {"case": case, "what": f"{len(sent)} messages about {n}, tagged for debugging"}
        told = sent[0].additional_info or {}
        want = sorted(names[j - 1] for j in q)
        if sorted(told.get("Matching templates", [])) != want:
            return {"case": case, "what": f"the message about {n} mentions the templates {told.get('Matching templates')} and not {want}"}
        own = sorted(x for x in names if x.split(".")[0] == n[0])
        if "Available templates" in told and sorted(told["Available templates"]) != own:
            return {"case": case, "what": f"the message about {n} has the templates {told['Available templates']} and not {own}"}
        if "Prefixes" in told and list(told["Prefixes"]) != case["prefixes"]:
            return {"case": case, "what": f"the message about {n} has the prefixes {told['Prefixes']} and not {case['prefixes']}"}
    return None


def judge_case(job):
    case, (best, _) = job
    d = judge_nodes(case["templates"], case["prefixes"], case["nodes"], best, random.Random(str(case)))
    return d and {"case": case, "what": d, "expected": best}


FIELDS = {"style": "style", "macro": "name", "label": "role", "include": "ctype", "blockgroup": "name"}
VALUES = ["star", "caret", "title", "x-1", "a b"]
SUBS = ["s", "p", "s-2", "ptx", "tgy"]
TAGS = ["a", "b", "t-1", "a_b"]
TYPES = ["text", "style", "macro", "label", "include", "blockgroup", "block"]
USUAL = ["default", "text", "document", "base", "main", "index", "source"]
PREFIXES = ["x", "y", "pre-1", "p_q"]


def random_case(seed):
    r = random.Random(seed)
    other = lambda q: q if r.random() < .6 else sorted({*r.sample(q, len(q) - 1), r.choice(r.choice([repowords.names(), USUAL]))})
    values, subs, tags, prefixes = map(other, (VALUES, SUBS, TAGS, PREFIXES))

    def node(types=TYPES):
        t = r.choice(types)
        return [t, r.choice(["", *subs]), sorted(r.sample(tags, r.choice([0, 1, 1, 2, 3]))),
                [[FIELDS[t], r.choice(values)]] if t in FIELDS else []]

    types = r.sample(TYPES, 2)
    nodes = [node(types) + [node() if r.random() < .8 else []] for _ in range(6)]

    def template():
        # claims that are often true for some node
        n = r.choice(nodes)
        parts = []
        if r.random() < .3:
            parts.append(n[1] if n[1] and r.random() < .8 else r.choice(subs))
        if r.random() < .3:
            f = n[3][0] if n[3] and r.random() < .8 else [r.choice(list(FIELDS.values())), r.choice(values)]
            parts.append("__".join(f))
        for t in r.sample(n[2], r.randrange(len(n[2]) + 1)) if r.random() < .5 else []:
            parts.append("tg_" + t)
        p = n[4] or ["document", "s", [], []]
        if r.random() < .3:
            parts.append("pt_" + (p[0] if r.random() < .8 else r.choice(TYPES)))
        if r.random() < .25:
            parts.append("pts_" + (p[1] if p[1] and r.random() < .8 else r.choice(subs)))
        if r.random() < .25:
            f = p[3][0] if p[3] and r.random() < .8 else [r.choice(list(FIELDS.values())), r.choice(values)]
            parts.append("pts_" + "__".join(f))
        if r.random() < .35:
            parts.append("pf_" + r.choice(prefixes))
        parts = [x for x in parts if "." not in x]
        r.shuffle(parts)
        return [n[0], parts]

    templates = []
    for _ in range(r.choice([2, 4, 8, 12, 20])):
        t = template()
        if (t[0], sorted(t[1])) not in [(x[0], sorted(x[1])) for x in templates]:
            templates.append(t)
    return {"templates": templates, "prefixes": r.sample(prefixes, r.choice([0, 0, 1, 2, 3])), "nodes": nodes}


# ---------------------------------------------------------------- whole documents
BODY = ("{{ content }}{{ marker }}{{ plain_entries }}{{ nested_entries }}{{ footnotes }}"
        "{% if header %}{{ header.content }}{% for x in header.labels.values() %}{{ x }}{% endfor %}{% endif %}"
        "{% if footnote %}{{ footnote.content }}{% endif %}{{ entries }}{{ block }}"
        "{% if items %}{% for x in items.values() %}{{ x }}{% endfor %}{% endif %}"
        "{% if labels %}{% for x in labels.values() %}{{ x }}{% endfor %}{% endif %}")


def walk(d, nodes):
    """The data of a visited node as [position in nodes, children]; nodes: [type, subtype, tags, fields, parent]."""
    p = d.get("parent") or {}
    f = FIELDS.get(d["_type"]) or {"blockgroup-item": "position"}.get(d["_type"])
    nodes.append([d["_type"], d["subtype"] or "", d["tags"], [[f, d[f]]] if f else [],
                  [p["_type"], p["subtype"] or "", p["tags"], []] if p else []])
    me = len(nodes)
    q = list(d.get("content", []))
    q += [d["marker"]] if d.get("marker") else []
    q += [*d.get("plain_entries", []), *d.get("nested_entries", []), *d.get("footnotes", [])]
    for k in ("header", "footnote"):
        if d.get(k):
            q += [*d[k]["content"], *d[k].get("labels", {}).values()]
    q += d.get("entries", [])
    q += [d["block"]] if d.get("block") else []
    q += [*d.get("items", {}).values(), *d.get("labels", {}).values()]
    return [me, [walk(x, nodes) for x in q]]


def document_case(job):
    """A document, its visited data, and templates for its nodes."""
    case, seed = job
    import replay
    import visits
    from mau.visitors.base_visitor import BaseVisitor
    r = random.Random(seed)
    replay.write_files(case.get("f", ()))
    try:
        doc = visits.parse(case)
        if doc is None or doc[0] is None:
            return None
        nodes = []
        tree = walk(BaseVisitor(maureal.make_handler()).process(doc[0]), nodes)
    finally:
        replay.remove_files(case.get("f", ()))
    ts = []
    for n in r.sample(nodes, min(len(nodes), r.choice([3, 8, 15]))):
        parts = []
        if n[1] and r.random() < .6:
            parts.append(n[1])
        if n[3] and r.random() < .5:
            parts.append("__".join(n[3][0]))
        parts += ["tg_" + t for t in n[2] if r.random() < .4]
        if n[4]:
            parts += ["pt_" + n[4][0]] if r.random() < .5 else []
            parts += ["pts_" + n[4][1]] if n[4][1] and r.random() < .5 else []
        parts += ["pf_" + r.choice(PREFIXES[:2])] if r.random() < .3 else []
        if all(x and "." not in x and "/" not in x and x.count("__") <= 1 for x in parts):
            ts.append([n[0], parts])
    ts += [[t, []] for t in {n[0] for n in nodes} if r.random() < .98]
    unique = []
    for t in ts:
        if (t[0], sorted(t[1])) not in [(x[0], sorted(x[1])) for x in unique]:
            unique.append(t)
    # nodes that look the same are rendered by the same template
    return {"case": case, "templates": unique, "prefixes": r.sample(PREFIXES[:3], r.choice([0, 1, 2])), "nodes": nodes, "tree": tree}


def parse_output(s, i=0):
    """[[template, children]] from the text written by the templates."""
    out = []
    while i < len(s) and s[i] != ">":
        if s[i] == "<":
            j = s.index("|", i)
            inside, k = parse_output(s, j + 1)
            out.append([int(s[i + 1:j]), inside])
            i = k + 1
        else:
            assert s[i] in " \n", s[i:i + 20]
            i += 1
    return out, i


def judge_document(job):
    c, (best, _) = job
    import replay
    import visits
    case = c["case"]
    custom = {".".join([t, *parts]) + ".j2": f"<{j}|{BODY}>" for j, (t, parts) in enumerate(c["templates"], 1)}
    replay.write_files(case.get("f", ()))
    try:
        out = visitor(custom, c["prefixes"]).process(visits.parse(case)[0])
    except MauException as exc:
        return None if not all(best) else {"case": c, "what": f"{exc.message.text} for a document with a template for each node"}
    finally:
        replay.remove_files(case.get("f", ()))
    if not all(best):
        n = c["nodes"][best.index([])]
        return {"case": c, "what": f"rendered, although there is no template for {n}"}

    def same(want, got):
        if len(want) != len(got):
            return f"{len(got)} nodes are rendered instead of {len(want)}"
        for (n, q), (t, g) in zip(want, got):
            if t not in best[n - 1]:
                return f"{c['nodes'][n - 1]} is rendered by {c['templates'][t - 1]} and not by {[c['templates'][k - 1] for k in best[n - 1]]}"
            d = same(q, g)
            if d:
                return d
        return None
    d = same([c["tree"]], parse_output(out)[0])
    return d and {"case": c, "what": d}
