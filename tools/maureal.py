"""Runs the real code (from /repo) and projects what it does on the vocabulary
of the specification."""
import datetime
import os
import sys

REPO = os.environ.get("MAU_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

MAIN = "main.mau"


class Malformed(Exception):
    pass


def _opt(x):
    return "-" if x is None else "+" + str(x)


def _args(d):
    keys = sorted(d["kwargs"].keys())
    out = [
        list(d["args"]),
        list(d["tags"]),
        list(d["internal_tags"]),
        [] if d["subtype"] is None else [d["subtype"]],
        keys,
        [d["kwargs"][k] for k in keys],
    ]
    for group in out:
        for v in group:
            if not isinstance(v, str):
                raise Malformed(f"argument {v!r}")
    return out if any(out) else []


def _ctx(d):
    c = d["_context"]
    return [c["source"] or "", c["start_line"], c["start_column"], c["end_line"], c["end_column"]]


def _all(q):
    return [proj(x) for x in q]


def _one(d):
    return [proj(d)] if d else []


def _labels(d):
    out = []
    for role, label in d["labels"].items():
        if label["role"] != role:
            raise Malformed("label role")
        out.append(proj(label))
    return out


CONTENT = {"style", "macro-link", "macro-class", "list-item", "document", "footnote", "label"}
CONTENT_LABELS = {"header", "paragraph", "paragraph-line", "list", "block", "raw", "source", "include-mau", "include-raw"}


def _fields(t, d):
    if t in ("text", "verbatim", "macro-unicode", "macro-raw", "raw-line", "source-marker"):
        return [d["value"]]
    if t == "style":
        return [d["style"]]
    if t == "macro-link":
        return [d["target"]]
    if t == "macro":
        return [d["name"]]
    if t in ("macro-class", "block", "raw"):
        return list(d["classes"])
    if t == "source":
        return [_opt(d["language"])] + list(d["classes"])
    if t == "macro-image":
        return [d["uri"], _opt(d["alt_text"]), _opt(d["width"]), _opt(d["height"])]
    if t == "include-image":
        return [d["uri"], _opt(d["alt_text"])] + list(d["classes"])
    if t == "macro-header":
        return [d["target_name"]]
    if t == "header":
        return [str(d["level"]), _opt(d["internal_id"]), _opt(d["name"])]
    if t == "list-item":
        return [str(d["level"])]
    if t == "list":
        return [
            "ordered" if d["ordered"] else "unordered",
            "main" if d["main_node"] else "nested",
            str(d["start"]),
        ]
    if t == "source-line":
        return [str(d["line_number"]), d["line_content"], _opt(d["highlight_style"])]
    if t == "footnote":
        return [d["name"], str(d["public_id"]), d["internal_id"]]
    if t == "label":
        return [d["role"]]
    if t in ("include-mau", "include-raw"):
        return [d["uri"]]
    if t == "include":
        return [d["ctype"]]
    if t == "blockgroup":
        return [d["name"]]
    if t == "blockgroup-item":
        return [d["position"]]
    return []


def _groups(t, d):
    if t in CONTENT:
        return [_all(d["content"])]
    if t in CONTENT_LABELS:
        return [_all(d["content"]), _labels(d)]
    if t == "source-line":
        return [_one(d["marker"])]
    if t == "macro-header":
        return [_one(d["header"]), _all(d["content"])]
    if t in ("macro-footnote", "footnotes-item"):
        return [_one(d["footnote"])]
    if t == "footnotes":
        return [_all(d["footnotes"]), _labels(d)]
    if t == "toc-item":
        return [_one(d["header"]), _all(d["entries"])]
    if t == "toc":
        return [_all(d["plain_entries"]), _all(d["nested_entries"]), _labels(d)]
    if t == "blockgroup":
        for pos, item in d["items"].items():
            if item["position"] != pos:
                raise Malformed("position of a block in a group")
        return [_all(d["items"].values()), _labels(d)]
    if t == "blockgroup-item":
        if d["block"] != d["block_data"]:
            raise Malformed("block of a group differs from its data")
        return [_one(d["block"])]
    if t in ("horizontal-rule", "include", "include-image"):
        return [_labels(d)]
    return []


def proj(d):
    """The data of a visited node, as in MauVisit."""
    try:
        t = d["_type"]
        return [t, _fields(t, d), _args(d), _groups(t, d), _ctx(d)]
    except (KeyError, TypeError, AttributeError) as exc:
        raise Malformed(f"{exc!r} in {d!r}"[:300]) from exc


def project(d):
    if d is None or d == {}:
        return {"r": "empty", "l": 0, "c": 0, "d": []}
    try:
        return {"r": "ok", "l": 0, "c": 0, "d": [proj(d)]}
    except Malformed as exc:
        return {"r": "malformed", "l": 0, "c": 0, "d": [], "why": str(exc)}


def make_handler():
    from mau.message import BaseMessageHandler

    class Handler(BaseMessageHandler):
        def __init__(self):
            self.seen = []

        def process_lexer_error(self, m):
            self.seen.append(("lexer", m))

        def process_parser_error(self, m):
            self.seen.append(("parser", m))

        def process_visitor_error(self, m):
            self.seen.append(("visitor", m))

        def process_visitor_debug(self, m):
            self.seen.append(("debug", m))

    return Handler()


def make_env(variables=(), aliases=(), extra=None):
    from mau.environment.environment import Environment

    env = Environment()
    for k, v in variables:
        env[k] = v
    if extra:
        env.dupdate(extra)
    for name, args, names, sub in aliases:
        d = {"args": {k: v for k, v in args}, "names": list(names)}
        if sub:
            d["subtype"] = sub
        env.dupdate({name: d}, "mau.parser.aliases")
    return env


# values of variables that are not text
NATIVE = {"0": 0, "1": 1, "-7": -7, "1.5": 1.5, "True": True, "False": False, "None": None, "2024-01-31": datetime.date(2024, 1, 31), "[]": [], "['a', 1]": ["a", 1]}


def plain_text(nodes):
    return "".join(n.value if hasattr(n, "value") else plain_text(getattr(n, "content", [])) for n in nodes)


def case_env(case):
    """The environment of a case. hid, fid: configured functions for the ids of headers and footnotes."""
    variables = case.get("v", ())
    if case.get("nat"):
        variables = [[k, NATIVE.get(v, v)] for k, v in variables]
    env = make_env(variables, case.get("al", ()))
    if case.get("st"):
        env.dupdate({k: v for k, v in reversed(case["st"])}, "mau.parser.source_highlight_style_aliases")
    if case.get("hid"):
        env["mau.parser.header_internal_id_function"] = lambda h: f"{case['hid']}{h.level}:{plain_text(h.content)}"
    if case.get("fid"):
        env["mau.parser.footnote_unique_id_function"] = lambda f: case["fid"] + f.name
    return env


def error_position(m):
    """Class and 0-based position of an error message."""
    name = type(m).__name__
    if name == "MauLexerErrorMessage":
        p = getattr(m, "position", None)
        if p is None:
            return "lexer", -1, -1
        return "lexer", p[0], p[1]
    c = getattr(m, "context", None)
    if c is None:
        return "parser" if name == "MauParserErrorMessage" else name, -1, -1
    return ("parser" if name == "MauParserErrorMessage" else name), c.start_line, c.start_column


def run(text, env, visitor=None, name=MAIN):
    """(outcome of the run, raw result of the visitor)."""
    from mau import Mau
    from mau.message import MauException
    from mau.visitors.base_visitor import BaseVisitor

    handler = make_handler()
    try:
        raw = Mau(handler, env).process(visitor or BaseVisitor, text, name)
    except MauException as exc:
        stage, line, col = error_position(exc.message)
        out = {"r": stage, "l": line, "c": col, "d": []}
        if len(handler.seen) != 1 or handler.seen[0][1] is not exc.message or handler.seen[0][0] != stage:
            out = {"r": "messages", "l": 0, "c": 0, "d": [], "why": f"{len(handler.seen)} messages for one {stage} error"}
        return out, None
    except RecursionError:
        return {"r": "crash", "l": 0, "c": 0, "d": [], "why": "RecursionError"}, None
    except Exception as exc:  # any other exception is a violation of C01
        return {"r": "crash", "l": 0, "c": 0, "d": [], "why": repr(exc)[:200]}, None
    if any(k != "debug" for k, _ in handler.seen):
        return {"r": "messages", "l": 0, "c": 0, "d": [], "why": "message on success"}, raw
    return (project(raw) if visitor is None else {"r": "ok", "l": 0, "c": 0, "d": []}), raw


def tokens(text, name=MAIN):
    """The tokens of a document, or the position of the error, as in MauLexing."""
    from mau import Mau
    from mau.message import MauException
    from mau.text_buffer import TextBuffer

    handler = make_handler()
    try:
        lexer = Mau(handler, make_env()).run_lexer(TextBuffer(text, source_filename=name))
    except MauException as exc:
        return [*error_position(exc.message)]
    except Exception as exc:
        return ["crash", repr(exc)[:200]]
    out = []
    for t in lexer.tokens:
        c = t.context
        if c.source not in (name, None) or (c.source is None and t.value):
            return ["malformed", f"source {c.source!r} of a token"]
        out.append([t.type.value, t.value, [c.start_line, c.start_column, c.end_line, c.end_column]])
    return ["ok", out]
