"""Processed documents visited by the real visitors, some times in some order."""
import random

import yaml

import judge
import maureal
import replay
import templates
import tlc
from judge import model_case

from mau import Mau
from mau.message import MauException
from mau.text_buffer import TextBuffer
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

# ---------------------------------------------------------------- a template for each type
MACROS = """
{%- macro o(x) %}{{ '-' if x is none else '+' ~ x }}{% endmacro -%}
{%- macro a(d) %}!{{ d.args|join(';') }},{{ d.tags|join(';') }},{{ d.internal_tags|join(';') }},{{ d.subtype or '' }},
{%- for k, v in d.kwargs|dictsort(true) %}{{ k }}={{ v }}{{ '' if loop.last else ';' }}{% endfor %}{% endmacro -%}
{%- macro l(d) %}({% for k, v in d.labels|dictsort(true) %}{{ k }}:{{ v }}{% endfor %}){% endmacro -%}
{%- macro h(d) %}{% if d %}{header|{{ d.level }}|{{ o(d.name) }}{{ a(d) }}({{ d.content }}){{ l(d) }}}{% endif %}{% endmacro -%}
{%- macro f(d) %}{% if d %}{footnote|{{ d.name }}|{{ d.public_id }}|{{ d.internal_id }}{{ a(d) }}({{ d.content }})}{% endif %}{% endmacro -%}
{%- macro c(d) %}{% for x in d.classes %}|{{ x }}{% endfor %}{% endmacro -%}
"""
V, C, L = "|{{ value }}", "({{ content }})", "{{ l(D) }}"
TYPES = {
    # fields, groups of children
    "text": (V, ""), "verbatim": (V, ""), "macro-unicode": (V, ""), "macro-raw": (V, ""), "raw-line": (V, ""), "source-marker": (V, ""),
    "style": ("|{{ style }}", C), "macro-link": ("|{{ target }}", C), "macro": ("|{{ name }}", ""),
    "macro-class": ("{{ c(D) }}", C), "block": ("{{ c(D) }}", C + L), "raw": ("{{ c(D) }}", C + L),
    "source": ("|{{ o(language) }}{{ c(D) }}", C + L),
    "macro-image": ("|{{ uri }}|{{ o(alt_text) }}|{{ o(width) }}|{{ o(height) }}", ""),
    "include-image": ("|{{ uri }}|{{ o(alt_text) }}{{ c(D) }}", L),
    "macro-header": ("|{{ target_name }}", "({{ h(header) }})" + C),
    "header": ("|{{ level }}|{{ o(name) }}", C + L),
    "list-item": ("|{{ level }}", C),
    "list": ("|{{ 'ordered' if ordered else 'unordered' }}|{{ 'main' if main_node else 'nested' }}|{{ start }}", C + L),
    "source-line": ("|{{ line_number }}|{{ line_content }}|{{ o(highlight_style) }}", "({{ marker }})"),
    "footnote": ("|{{ name }}|{{ public_id }}|{{ internal_id }}", C),
    "label": ("|{{ role }}", C),
    "include-mau": ("|{{ uri }}", C + L), "include-raw": ("|{{ uri }}", C + L),
    "include": ("|{{ ctype }}", L), "horizontal-rule": ("", L), "document": ("", C), "paragraph": ("", C + L), "paragraph-line": ("", C + L),
    "macro-footnote": ("", "({{ f(footnote) }})"), "footnotes-item": ("", "({{ f(footnote) }})"),
    "footnotes": ("", "({{ footnotes }})" + L),
    "toc-item": ("", "({{ h(header) }})({{ entries }})"),
    "toc": ("", "({{ plain_entries }})({{ nested_entries }})" + L),
    "blockgroup": ("|{{ name }}", "({% for i in items.values() %}{{ i }}{% endfor %})" + L),
    "blockgroup-item": ("|{{ position }}", "({% if block_data._type == 'block' or block_data.classes is defined %}{{ block }}{% endif %})"),
}
HEAD = ("{%- set D = {'args': args, 'kwargs': kwargs, 'tags': tags, 'internal_tags': internal_tags, 'subtype': subtype,"
        " 'classes': classes, 'labels': labels} -%}")
TEMPLATES = {t + ".j2": MACROS + HEAD + "<" + t + f + "{{ a(D) }}" + g + ">" for t, (f, g) in TYPES.items()}
# kinds that a visitor renders as nothing
HIDDEN = [["text"], ["paragraph-line"], ["paragraph", "header", "toc-item"], ["source-line", "raw-line", "label"], ["list-item", "macro", "block", "footnotes-item"],
          ["verbatim", "style", "list", "horizontal-rule", "blockgroup-item", "source"], ["document"]]
_VISITORS = {}


def hiding(k):
    """The visitor that renders HIDDEN[k] as nothing."""
    if k not in _VISITORS:
        _VISITORS[k] = templates.visitor({**TEMPLATES, **{t + ".j2": "" for t in HIDDEN[k]}}, None, base=JinjaVisitor)
    return _VISITORS[k]


def hidden(case):
    return random.Random("hidden " + case["t"]).randrange(len(HIDDEN))


def record(case):
    return dict(judge.record(case), hidden=HIDDEN[hidden(case)])


def visitors():
    """The visitors of this process: they are used for all the documents."""
    if not _VISITORS:
        _VISITORS["base"] = BaseVisitor(maureal.make_handler())
        _VISITORS["yaml"] = YamlVisitor(maureal.make_handler())
        _VISITORS["jinja"] = templates.visitor(TEMPLATES, None, base=JinjaVisitor)
    return _VISITORS


def compiled():
    """Compiles the templates, without any document."""
    j = visitors()["jinja"]
    for t in TYPES:
        try:
            j._dict_env.get_template(t)
        except Exception:
            pass


def parse(case):
    """The processed document; None when there is an error."""
    mau = Mau(maureal.make_handler(), maureal.case_env(case))
    try:
        return [mau.run_parser(mau.run_lexer(TextBuffer(case["t"], source_filename=maureal.MAIN)).tokens).output.document]
    except MauException:
        return None


def visit(name, document, spec, rendered, data, unknown=""):
    """None, or what is wrong with the visit; data: the result of the first visit of the plain visitor.
    unknown: characters that the specification does not know."""
    out = visitors()[name].process(document)
    if name == "base":
        if "data" in data and out != data["data"]:
            return "a second visit has another result"
        data.setdefault("data", out)
        return replay.compare(spec, judge.swapped(maureal.project(out), unknown), errpos=False)
    if name == "yaml":
        if ("*id0" in out or "&id0" in out) and any(isinstance(e, yaml.AliasEvent) for e in yaml.parse(out)):
            return f"the YAML output refers to itself: {out[:300]!r}"
        if yaml.safe_load(out) != data["data"]:
            return f"the YAML output is not the data of the document: {out[:300]!r}"
        if spec["r"] == "ok":
            return replay.compare(spec, judge.swapped(maureal.project(yaml.safe_load(out)), unknown), errpos=False, order=False)
        return None
    return same_text(judge.swapped(out, unknown), rendered)


def without(data, keys):
    """The data without some keys."""
    if isinstance(data, dict):
        return {k: without(x, keys) for k, x in data.items() if k not in keys}
    return [without(x, keys) for x in data] if isinstance(data, list) else data


def marked(data, key=None):
    """The data with a mark on each node that is visited (not on those whose data is only read)."""
    if isinstance(data, list):
        return [marked(x) for x in data]
    if not isinstance(data, dict):
        return data
    new = {k: x if k in ("kwargs", "_context", "parent") else marked(x, k) for k, x in data.items()}
    return {**new, "seen": 1} if "_type" in data and key not in ("header", "footnote", "block_data") else new


def judge_options(document, data):
    """The options of a visit: data without place or parent, a function called for each node."""
    base = visitors()["base"]
    for options, keys in (({"add_context": False}, ["_context"]), ({"add_parent": False}, ["parent"]), ({"add_context": False, "add_parent": False}, ["_context", "parent"])):
        if base.process(document, **options) != without(data, keys):
            return f"a visit with {options} is not the plain one without {keys}"
    if base.process(document, transformer=lambda d: {**d, "seen": d.get("seen", 0) + 1}) != marked(data):
        return "a function is not called once for each visited node"
    return None


def same_text(out, rendered):
    if out != rendered:
        j = next((j for j, (x, y) in enumerate(zip(out, rendered)) if x != y), min(len(out), len(rendered)))
        return f"rendered as ...{out[max(0, j - 60):j + 60]!r} instead of {rendered[max(0, j - 60):j + 60]!r}"
    return None


def judge_visits(case, names, spec, rendered):
    replay.write_files(case.get("f", ()))
    try:
        document = parse(case)
        if (document is None) != (spec["r"] in ("lexer", "parser")):
            return f"the document is {'not ' if document is None else ''}processed; {spec['r']} was expected"
        if document is None:
            return None
        data = {}
        # what YAML contains is compared with what the plain visitor sees; the first visit is of any visitor
        if names[:1] == ["yaml"]:
            data["data"] = visitors()["base"].process(parse(case)[0])
        for j, name in enumerate(names):
            if name == "yaml" and "data" not in data:
                data["data"] = visitors()["base"].process(parse(case)[0])
            d = visit(name, document[0], spec, rendered, data, case.get("unknown", ""))
            if d:
                return f"visit {j + 1} of {names} by {name}: {d}"
        d = visit("base", document[0], spec, rendered, data, case.get("unknown", ""))
        d = d or judge_options(document[0], data["data"])
        return d and f"after the visits {names}: {d}"
    except Exception as exc:
        return f"visits {names}: {exc!r}"
    finally:
        replay.remove_files(case.get("f", ()))


def judge_line(line):
    text, env, names, spec, rendered = tlc.Tlc.decode(line)
    case = model_case([text, env])
    d = judge_visits(case, names, spec, rendered)
    return d and {"case": dict(case, visits=names), "what": d}


def judge_hidden(case, spec, without):
    """Rendering with templates that write nothing."""
    if spec["r"] not in ("ok", "empty"):
        return None
    k = hidden(case)
    replay.write_files(case.get("f", ()))
    try:
        d = same_text(hiding(k).process(parse(case)[0]), without)
        return d and f"without {HIDDEN[k]}: {d}"
    except Exception as exc:
        return f"rendering without {HIDDEN[k]}: {exc!r}"
    finally:
        replay.remove_files(case.get("f", ()))


def judge_case(job):
    case, (spec, rendered, without) = job
    r = random.Random(case["t"])
    names = [r.choice(["base", "yaml", "jinja"]) for _ in range(r.choice([1, 2, 4]))]
    d = judge_visits(case, names, spec, rendered) or (None if case.get("unknown") else judge_hidden(case, spec, without))
    return d and {"case": dict(case, visits=names), "what": d, "expected": rendered}


def judge_node(job):
    """A single node: [type, subtype, tags, fields, parent]."""
    for n in job:
        data = BaseVisitor(maureal.make_handler()).visit(templates.make_node(n))
        for who, d in ((n, data), (n[4], data.get("parent"))):
            want = [who[0], who[1] or None, list(who[2])] if who else {}
            got = [d.get("_type"), d.get("subtype"), d.get("tags")] if d else {}
            if want != got:
                return {"case": {"node": n}, "what": f"visited as {got} instead of {want}"}
        if any(data.get(k) != v for k, v in n[3]):
            return {"case": {"node": n}, "what": f"fields {n[3]} visited as {data}"}
    return None
