"""Visitors whose templates come from many sources: defaults, plugins, folders and the configuration."""
import os
import random
import shutil
import sys
import tempfile
import types

import maureal
import templates
import tlc

from mau.environment.environment import Environment
from mau.message import MauException, MauVisitorErrorMessage
from mau.nodes.document import HorizontalRuleNode
from mau.visitors.jinja_visitor import JinjaVisitor

NAMES = ["one", "two", "p-3"]
_plugins = None


def plugins():
    """The module that contains the template providers of this process, registered as plugins."""
    global _plugins
    if _plugins is None:
        d = tempfile.mkdtemp(prefix="mauplugins")
        info = os.path.join(d, "mau_check_templates-1.0.dist-info")
        os.mkdir(info)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: mau-check-templates\nVersion: 1.0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            f.write("[mau.templates]\n" + "".join(f"{n} = mau_check_templates:P{j}\n" for j, n in enumerate(NAMES)))
        sys.path.insert(0, d)
        _plugins = types.ModuleType("mau_check_templates")
        sys.modules["mau_check_templates"] = _plugins
        import atexit
        atexit.register(shutil.rmtree, d, True)
    return _plugins


def offer(available):
    """The template providers that are available: {name: dictionary}."""
    m = plugins()
    for j, n in enumerate(NAMES):
        setattr(m, f"P{j}", type("Provider", (), {"templates": available.get(n, {})}))


def write(folder, flat, r):
    """A folder with the templates: the parts of a name are folders or parts of the names of files."""
    os.makedirs(folder, exist_ok=True)
    for name, text in flat.items():
        *parts, ext = name.split(".")
        path = folder
        while len(parts) > 1 and r.random() < .5:
            k = r.randrange(1, len(parts))
            path = os.path.join(path, ".".join(parts[:k]))
            parts = parts[k:]
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, ".".join([*parts, ext])), "w", encoding="utf-8") as f:
            f.write(text)
    if r.random() < .2:
        os.makedirs(os.path.join(folder, "empty"), exist_ok=True)
    if r.random() < .3:
        # what is not a template is not even read
        for name in r.sample(["logo.png", "text.j2~", "style.html.bak", "README", "j2", "document.J2"], 2):
            with open(os.path.join(folder, name), "wb") as f:
                f.write(b"\xff\xfe\x00wrong")


def maybe_nested(flat, r):
    """The same names, sometimes as nested dictionaries."""
    if r.random() < .5:
        return dict(flat)
    out = {}
    for k, v in flat.items():
        *path, last, ext = k.split(".")
        x = out
        for p in path[:r.randrange(len(path) + 1)]:
            x = x.setdefault(p, {})
            path = path[1:]
            if not isinstance(x, dict):
                return dict(flat)
        x[".".join([*path, last, ext])] = v
    return out


USER = "horizontal-rule"


def user(names, block):
    """A template that uses the others."""
    a, b = block
    return "".join(f"[{n}={a} include '{n}' ignore missing {b}]" for n in names)


def all_names(reqs, available, folders):
    """Names of the sources, with and without an extension."""
    names = {n for t in (*available.values(), *folders.values()) for n in t} | {n for q in reqs for t in (q[2], q[5]) for n in t}
    return sorted(names | {n[:i] for n in names for i in range(len(n)) if n[i] == "."})


def build(req, folder, r, names=()):
    """A visitor (of a new class) as requested: (visitor or None, what is wrong)."""
    ext, pre, defaults, providers, folders, custom = req[:6]
    block = ("{%", "%}")
    options = {}
    if r.random() < .2:
        block = ("<%", "%>")
        options = {"jinja_environment_options": dict(zip(("block_start_string", "block_end_string"), block))}
    d = Environment.from_dict(maybe_nested(defaults, r))
    before = dict(d.asflatdict())
    members = {"extension": ext, "default_templates": d, **options}
    if names:
        custom = {**custom, USER + ext: user(names, block)}
    if pre:
        members["templates_preprocess"] = lambda text: "pre " + text
    cls = type("Visitor", (JinjaVisitor,), members)
    conf = {"prefixes": req[6] if len(req) > 6 else []}
    if providers or r.random() < .5:
        conf["providers"] = list(providers)
    if folders or r.random() < .5:
        conf["paths"] = [(os.path.join(folder, f) if r.random() < .5 else os.path.join(os.path.relpath(folder), f)) for f in folders]
        if r.random() < .1:
            conf["paths"].insert(r.randrange(len(conf["paths"]) + 1), "")
    c = maybe_nested(custom, r)
    if c or r.random() < .5:
        conf["custom"] = c
    env = Environment.from_dict({"mau": {"visitor": {"templates": conf}}})
    old = dict(env.asflatdict())
    try:
        v = cls(maureal.make_handler(), env)
    except MauException as exc:
        return None, None if isinstance(exc.message, MauVisitorErrorMessage) else f"{exc.message} is not an error of the visitor"
    if dict(cls.default_templates.asflatdict()) != before or dict(env.asflatdict()) != old or JinjaVisitor.default_templates.asflatdict():
        return v, "the default templates or the configuration changed"
    return v, None


def probe_user(v, names, library):
    """What the template that uses the others gives."""
    have = dict(map(tuple, library))
    want = "".join(f"[{n}={have.get(n, '')}]" for n in names)
    try:
        got = v.visit(HorizontalRuleNode())
    except MauException as exc:
        got = exc.message
    return None if got == want else f"a template that uses all the others gives {got!r} instead of {want!r}"


def probe(v, nodes, shows):
    for n, allowed in zip(nodes, shows):
        got = templates.chosen(v, n)
        if got not in allowed and (allowed or got is not None):
            return f"{n} is rendered as {got!r} instead of {allowed}"
    return None


def judge_visitors(available, hist, nodes, r):
    """hist: [request, {folder: templates}, created, shows]"""
    root = tempfile.mkdtemp(prefix="mausources")
    here = os.getcwd()
    os.chdir(root)
    try:
        offer({n: maybe_nested(t, r) for n, t in available.items()})
        made = []
        for j, (req, folders, ok, shows, library) in enumerate(hist, 1):
            shutil.rmtree("t", ignore_errors=True)
            for f, t in folders.items():
                write(os.path.join("t", f), t, r)
            names = all_names([req], available, folders) if r.random() < .5 else []
            v, what = build(req, os.path.join(root, "t"), r, names)
            if not what and (v is not None) != ok:
                what = f"{'not ' if v is None else ''}created"
            what = what or v and (probe(v, nodes, shows) or names and probe_user(v, names, library))
            if what:
                return f"visitor {j} ({req}, folders {folders}, providers {available}): {what}"
            made.append((v, shows))
        for j, (v, shows) in enumerate(made, 1):
            what = v and probe(v, nodes, shows)
            if what:
                return f"visitor {j}, after the others: {what}"
        return None
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)


PROBES = [["style", sub, [], [["style", "star"]], []] for sub in ("", "a", "b")] + [["text", "", [], [], []]]


def judge_line(line):
    available, hist = tlc.Tlc.decode(line)
    r = random.Random(line)
    fix = lambda q: dict(map(tuple, q))
    hist = [[[q[0], q[1], fix(q[2]), q[3], q[4], fix(q[5])], {f: fix(t) for f, t in fs.items()}, ok, shows, lib] for q, fs, ok, shows, lib in hist]
    d = judge_visitors({n: fix(t) for n, t in available.items()}, hist, PROBES, r)
    return d and {"case": {"visitors": [h[0] for h in hist]}, "what": d}


# ---------------------------------------------------------------- random sources
def random_case(seed):
    r = random.Random(seed)
    base = templates.random_case(f"{seed}/nodes")
    names = [".".join([t, *parts]) for t, parts in base["templates"]]
    names += [n[0] for n in base["nodes"]]
    exts = [".j2", ".html", ".j2", ".x"]
    count = 0

    def source(p):
        nonlocal count
        out = {}
        for n in r.sample(names, min(len(names), r.choice([0, 1, 2, 4, 8]))):
            count += 1
            out[n + r.choice(exts if r.random() < .3 else [ext])] = r.choice(["", " ", "default"]) if r.random() < .05 else f"{p}{count}" + r.choice(["", "", "é"])
        return out
    ext = r.choice([".j2", ".html"])
    available = {n: source("P") for n in NAMES[:r.randrange(4)]}
    dirs = {f: source("F") for f in ("f", "g", "h")}
    asked = r.sample(NAMES, r.choice([0, 1, 2, 3])) if r.random() < .1 else r.sample(list(available), r.randrange(len(available) + 1))
    if r.random() < .03:
        asked.insert(r.randrange(len(asked) + 1), "no")
    folders = r.sample(list(dirs), r.choice([0, 1, 2, 3]))
    return {"ext": ext, "pre": r.random() < .3, "defaults": source("D"), "providers": asked, "folders": folders, "custom": source("C"),
            "available": available, "dirs": dirs, "nodes": base["nodes"], "prefixes": base["prefixes"]}


def record(c):
    tree = lambda flat: ["dict", [[k, ["leaf", v]] for k, v in flat.items()]]
    # plugins are always registered
    return dict(c, defaults=tree(c["defaults"]), custom=tree(c["custom"]),
                available=[[n, tree(c["available"].get(n, {}))] for n in NAMES], dirs=[[f, tree(t)] for f, t in c["dirs"].items()])


def judge_case(job):
    c, (ok, shows, library) = job
    req = [c["ext"], c["pre"], c["defaults"], c["providers"], c["folders"], c["custom"], c["prefixes"]]
    d = judge_visitors(c["available"], [[req, c["dirs"], ok, shows, library]], c["nodes"], random.Random(str(c)))
    return d and {"case": c, "what": d, "expected": shows}
