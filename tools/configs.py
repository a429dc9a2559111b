"""The configuration that templates see."""
import json
import random

import maureal
import outputs
import tlc
import visits
from judge import model_case

from mau import Mau
from mau.environment.environment import Environment
from mau.message import MauException
from mau.visitors.jinja_visitor import JinjaVisitor

DUMP = """
{%- macro w(d) -%} { {%- for k, v in d.items() -%}
{{ k|tojson }}: {% if v is mapping %}{{ w(v) }}{% elif v is callable %}"function"{% elif v is string or v is number or v is none or v is sequence %}{{ v|tojson }}
{%- else %}{{ ("=" ~ v)|tojson }}{% endif %}{{ '' if loop.last else ',' }}{% endfor -%} } {%- endmacro -%}
"""
BODY = {t: "{{ content }}" for t in visits.TYPES}
BODY.update({"toc": "{{ plain_entries }}{{ nested_entries }}", "toc-item": "{{ entries }}", "footnotes": "{{ footnotes }}", "source-line": "{{ marker }}",
             "blockgroup": "{% for i in items.values() %}{{ i }}{% endfor %}"})
TEMPLATES = {t + ".j2": DUMP + "\x01" + t + "\x02{{ w(config) }}\x03" + b for t, b in BODY.items()}


# the configuration that the parser completes
DEFAULTS = {"source_highlight_style_aliases": {"+": "add", "-": "remove", "!": "important", "x": "error"},
            "aliases": {"source": {"args": {"engine": "source"}, "names": ["language"]}}}


def nested(q):
    return {k: nested(x) if what == "names" else x for k, what, x in q}


def merged(a, b):
    """The dictionary a with what is in b."""
    out = dict(a)
    for k, v in b.items():
        out[k] = merged(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
    return out


def plain(x):
    """As a template writes it."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return "function" if callable(x) else x if isinstance(x, (str, int, float, list, type(None))) else f"={x}"


def conf(case, r):
    """Values of the configuration that are not those of the document."""
    d = {"mau": {"visitor": {"templates": {"custom": TEMPLATES}}}}
    if r.random() < .5:
        d["mau"]["visitor"]["x"] = {"y": "1", "z": "<&\"'>"}
    if r.random() < .3:
        d["mau"]["visitor"]["templates"]["prefixes"] = ["zz"]
    return d


def split(flat):
    """A flat dictionary of the environment as nested dictionaries."""
    out = {}
    for k, v in flat.items():
        x = out
        *path, last = k.split(".")
        for p in path:
            x = x.setdefault(p, {})
        x[last] = v
    return out


def judge_config(case, state, shown):
    r = random.Random("config" + case["t"])
    env = maureal.case_env(case)
    env.dupdate(conf(case, r))
    # what the document has not written
    rest = plain(split({k: v for k, v in env.asflatdict().items() if k.startswith("mau.")}))
    native = {k: plain(maureal.NATIVE.get(v, v)) for k, v in case.get("v", ())} if case.get("nat") else {}
    try:
        text = Mau(maureal.make_handler(), env).process(JinjaVisitor, case["t"], maureal.MAIN)
    except MauException as exc:
        return None if state == "fail" else f"an error: {exc.message}"
    if state == "fail":
        return "no error, one was expected"
    if not shown:
        return None if text == "" else f"rendered as {text[:100]!r}"
    want = merged(merged({"mau": {"parser": DEFAULTS}}, rest), nested(shown[0]))
    seen = set()
    for part in text.split("\x01")[1:]:
        t, d = part.split("\x03")[0].split("\x02")
        if (t, d) in seen:
            continue
        seen.add((t, d))
        d = json.loads(d)
        if native:
            # a variable that was not text keeps its value until the document writes it
            d = {k: merged_native(v, want.get(k), native, k) for k, v in d.items()}
        if d != want:
            keys = [k for k in {**d, **want} if d.get(k, "-") != want.get(k, "-")]
            return f"the template of {t} sees {[(k, d.get(k, '-')) for k in keys]} instead of {[(k, want.get(k, '-')) for k in keys]}"
    if not seen:
        return f"rendered as {text[:100]!r}"
    return None


def merged_native(v, want, native, name):
    """The text of values that are not text."""
    if isinstance(v, dict) and isinstance(want, dict):
        return {k: merged_native(x, want.get(k), native, f"{name}.{k}") for k, x in v.items()}
    if name in native and v == native[name] and type(v) is type(native[name]):
        return next((k for k, x in maureal.NATIVE.items() if plain(x) == v and type(plain(x)) is type(v) and k == want), v)
    return v


def judge_case(job):
    return outputs.case_of(job, judge_config)


def judge_line(line):
    rec = tlc.Tlc.decode(line)
    return outputs.case_of((model_case(rec), rec[2:]), judge_config)
