"""What is reported while documents are processed: tokens, errors, and the nodes tagged for debugging."""
import io
import json
import logging
import os
import random
import re
import shutil
import sys
import tempfile

import clis
import maureal
import replay
import templates
import tlc
import visits
from judge import model_case

from mau import Mau
from mau.environment.environment import Environment
from mau.message import LogMessageHandler, MauException, MauMessageType
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

DEBUG = MauMessageType.DEBUG_VISITOR


def place(c):
    """A position of the specification as it is shown to the user."""
    source, sl, sc, el, ec = c
    return f"{source + ':' if source else ''}{sl + 1},{sc}-{el + 1},{ec}"


def shown(text, what):
    """what is in the text, not as a part of another word or number"""
    return re.search(r"(?<!\w)" + re.escape(what) + r"(?![\w])", text) is not None


def key(n):
    fields = [n[1][0], n[1][2]] if n[0] == "header" and len(n[1]) == 3 else n[1]
    return json.dumps([n[0], n[4], replay.norm_args(n[2]), fields])


def messages(want, order, got, deep=True):
    """None, or what is wrong with the nodes of the messages."""
    want, got = sorted(want, key=key), sorted(got, key=key)
    a, b = [key(n) for n in want], [key(n) for n in got]
    if any(k == "blockgroup-item" for k, _ in order):
        # a block of a group is visited as a block and as data
        a, b = sorted(set(a)), sorted(set(b))
        deep = False
    if a != b:
        more, less = [x for x in b if x not in a], [x for x in a if x not in b]
        return f"messages about other nodes: {more[:3]} and not about {less[:3]}" if more or less else f"{len(b)} messages instead of {len(a)}"
    if deep:
        ids = replay.Ids()
        for x, y in zip(want, got):
            d = replay.diff(x, y, ids, True, "message")
            if d:
                return d
    return None


class Lines(logging.Logger):
    """A logger that keeps what it is told."""

    def __init__(self):
        super().__init__("lines", logging.DEBUG)
        self.told = []
        h = logging.Handler()
        h.emit = lambda r: self.told.append((r.levelno, r.getMessage()))
        self.addHandler(h)


def process(case, visitor, handler):
    """(what the visitor returns, the error)"""
    env = maureal.case_env(case)
    try:
        return Mau(handler, env).process(visitor, case["t"], maureal.MAIN), None
    except MauException as exc:
        return None, exc.message


def bare(data):
    """A node of the data of any visitor, without children."""
    t = data["_type"]
    return [t, maureal._fields(t, data), maureal._args(data), [], maureal._ctx(data)]


def judge_messages(case, spec, rep):
    handler = maureal.make_handler()
    out, error = process(case, BaseVisitor, handler)
    debug = [m for k, m in handler.seen if k == "debug"]
    if spec["r"] in ("lexer", "parser"):
        if [m for k, m in handler.seen] != [error]:
            return f"{len(handler.seen)} messages for one error"
        return judge_error(case, spec, error)
    if len(debug) != len(handler.seen):
        return "an error is reported, although there is none"
    d = messages(rep["nodes"], rep["order"], [maureal.proj(m.data) for m in debug])
    if d:
        return d
    for m in debug:
        if m.node_type != m.data["_type"] or str(m.context) != place(maureal._ctx(m.data)):
            return f"the message about {bare(m.data)} mentions {m.node_type} at {m.context}"
    # the message through the log
    log = Lines()
    out2, error = process(case, BaseVisitor, LogMessageHandler(log, debug_logging_level=25))
    if error or any(lv != 25 for lv, _ in log.told):
        return f"other messages are logged: {log.told[:2]}"
    for m in debug:
        where, lines = place(maureal._ctx(m.data)), [t for _, t in log.told]
        for x in (where, m.node_type, *([m.data["value"]] if "value" in m.data else [])):
            if not any(x in t for t in lines):
                return f"{x!r} is not in the log about {bare(m.data)}"
    if len([t for _, t in log.told if "Context" in t and "Template data" not in t]) != len(debug):
        return "the log has another number of messages"
    return judge_jinja(case, rep, debug)


def judge_jinja(case, rep, debug):
    """The same messages from a visitor that renders; one that cannot says why."""
    handler = maureal.make_handler()
    env = templates.visitor(visits.TEMPLATES, None).environment
    v = JinjaVisitor(handler, env)
    document = visits.parse(case)[0]
    v.process(document)
    got = [bare(m.data) for k, m in handler.seen if k == "debug"]
    d = messages([n[:3] + [[], n[4]] for n in rep["nodes"]], rep["order"], got, deep=False)
    if d:
        return f"of the Jinja visitor: {d}"
    for k, m in handler.seen:
        if list((m.additional_info or {}).get("Matching templates", ())) != [m.node_type]:
            return f"the message about {m.node_type} lists the templates {m.additional_info}"
    kinds = sorted({k for k, _ in rep["order"]})
    r = random.Random(case["t"])
    for kind in r.sample(kinds, min(3, len(kinds))):
        log = Lines()
        ts = {k: x for k, x in visits.TEMPLATES.items() if k != kind + ".j2"}
        why = "without a template"
        if r.random() < .4:
            # a template that fails
            ts[kind + ".j2"] = "{{ nothing.here }}"
            why = "with a template that fails"
        v = JinjaVisitor(LogMessageHandler(log), templates.visitor(ts, None).environment)
        try:
            v.process(document)
            return f"rendered {why} for {kind}"
        except MauException as exc:
            m = exc.message
        if m.type != MauMessageType.ERROR_VISITOR or m.node_type != kind or m.data["_type"] != kind:
            return f"the error {why} for {kind} is about {m.node_type}"
        places = {place(c) for k, c in rep["order"] if k == kind}
        if str(m.context) not in places or place(maureal._ctx(m.data)) != str(m.context):
            return f"the error {why} for {kind} is at {m.context}, and not at one of {sorted(places)}"
        del log.told[:]
        LogMessageHandler(log).process(m)
        text = "\n".join(t for _, t in log.told)
        if any(lv < logging.ERROR for lv, _ in log.told) or any(x not in text for x in (m.text, str(m.context), kind)):
            return f"the error {why} for {kind} is logged as {log.told[:3]}"
    return None


def error_text(spec, error):
    """What an error shows."""
    if spec["r"] == "lexer":
        return [error.text, error.source, f"({spec['l'] + 1}, {spec['c']})"]
    return [error.text, f"{spec['l'] + 1},{spec['c']}-", *([error.help_text] if error.help_text else [])]


def judge_error(case, spec, error):
    log = Lines()
    LogMessageHandler(log).process(error)
    if any(lv < logging.ERROR for lv, _ in log.told):
        return f"the error is logged as {log.told}"
    text = "\n".join(t for _, t in log.told)
    for x in ("Lexer" if spec["r"] == "lexer" else "Parser", *error_text(spec, error)):
        if x not in text:
            return f"{x!r} is not in the log of the error: {text[:300]!r}"
    return None


# ---------------------------------------------------------------- the command
FLAGS = ["--lexer-print-output", "--lexer-only", "--verbose", "--debug"]


def judge_command(case, spec, rep, toks, how=clis.call):
    """Flags of the command print more and change nothing else."""
    if case.get("al") or case.get("v") or "mau" in case["t"].replace("#mau:", ""):
        # the configuration is a variable of the command
        return None
    r = random.Random(case["t"] + "c")
    flags = [f for f in FLAGS if r.random() < (.6 if f != "--lexer-only" else .3)]
    with open("in.mau", "w", encoding="utf-8", newline="") as f:
        f.write(case["t"])
    base = ["-i", "in.mau", "-t", "core:YamlVisitor"]
    code, quiet = how(base + ["-o", "a.yaml"])
    code2, out = how(base + ["-o", "b.yaml", *flags])
    read = lambda p: open(p, encoding="utf-8").read() if os.path.exists(p) else None
    want, got = read("a.yaml"), read("b.yaml")
    lexed, only = bool(toks), "--lexer-only" in flags
    if code != (0 if spec["r"] in ("ok", "empty") else 1):
        return f"exit status {code} for a document with the result {spec['r']}"
    if code2 != (0 if lexed and only else code):
        return f"exit status {code2} with {flags} and {code} without"
    if only and got is not None:
        return "a file is written by a run that stops after the lexer"
    if not only and (got is None) != (want is None):
        return f"with {flags} a file is {'not ' if got is None else ''}written"
    if not only and got != want and "auto" not in case["t"]:
        return f"with {flags} the file has {got[:200]!r} instead of {want[:200]!r}"
    lines = out.split("\n")
    printed = [x for x in lines if x.startswith("TokenType.")]
    if "--lexer-print-output" not in flags or not lexed:
        if printed:
            return "tokens are printed, although nobody asks for them"
    else:
        if len(printed) != len(toks):
            return f"{len(printed)} tokens are printed instead of {len(toks)}"
        for x, (t, v, p) in zip(printed, toks):
            # the end of the text is no place
            where = place(["in.mau", *p])
            if not (shown(x, t) and repr(v) in x and (where in x or not v and place(["", *p]) in x)):
                return f"the token {t} {v!r} at {where} is printed as {x!r}"
    # positions are shown with the name of the input
    logged = lambda s, level: any(level in x and s in x for x in lines)
    if spec["r"] in ("lexer", "parser") and not (only and lexed):
        where = f"({spec['l'] + 1}, {spec['c']})" if spec["r"] == "lexer" else f"{spec['l'] + 1},{spec['c']}-"
        if not logged(where, "ERROR") or not any(where in x for x in quiet.split("\n")):
            return f"the error at {where} is not logged: {out[-300:]!r}"
    elif any("ERROR:" in x and "mau" in x for x in lines if re.match(r"\[[\d: -]*\] ", x)):
        return f"an error is logged: {out[-300:]!r}"
    if not only and {"--verbose", "--debug"} & set(flags):
        for n in rep["nodes"]:
            where = place(n[4]).replace("main.mau:", "in.mau:")
            if not any("INFO" in x and where in x for x in lines):
                return f"the node at {where} is not in the log"
    elif rep["nodes"] and not only and any("INFO" in x for x in lines if re.match(r"\[[\d: -]*\] ", x)):
        return "there are messages, although nobody asks for them"
    return None


def judge_all(case, spec, rep, toks):
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="maureports")
    os.chdir(tmp)
    replay.write_files(case.get("f", ()))
    try:
        d = judge_messages(case, spec, rep) or judge_command(case, spec, rep, toks)
    except Exception as exc:
        import traceback
        d = repr(exc) + traceback.format_exc()[-300:]
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    return d and {"case": case, "what": d}


def judge_line(line):
    text, env, spec, rep, toks = tlc.Tlc.decode(line)
    return judge_all(model_case([text, env]), spec, rep, toks)


def judge_case(job):
    case, (spec, rep, toks) = job
    return judge_all(case, spec, rep, toks)
