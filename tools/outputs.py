"""What the parser offers besides the document: table of contents, inclusions, ids; documents in a wrapper."""
import maureal
import replay
import tlc
from judge import model_case

from mau import Mau
from mau.message import MauException
from mau.nodes.document import DocumentNode
from mau.text_buffer import TextBuffer
from mau.visitors.base_visitor import BaseVisitor


class Wrapper(DocumentNode):
    """The configured class of a document."""


def parsed(case, wrapper=False):
    env = maureal.case_env(case)
    if wrapper:
        env["mau.parser.document_wrapper"] = Wrapper
    mau = Mau(maureal.make_handler(), env)
    return mau.run_parser(mau.run_lexer(TextBuffer(case["t"], source_filename=maureal.MAIN)).tokens)


def data(node):
    return BaseVisitor(maureal.make_handler()).process(node)


def spoil(node):
    """Changes the nodes of a copy: their own values and their lists."""
    for k, v in list(vars(node).items()):
        if k in ("content", "labels"):
            for x in list(v.values() if isinstance(v, dict) else v):
                spoil(x)
            v.clear()
        elif isinstance(v, str):
            setattr(node, k, "spoiled")


def judge_output(case, spec, toc, calls):
    try:
        p = parsed(case)
    except MauException:
        return None if spec["r"] in ("lexer", "parser") else f"an error instead of {spec['r']}"
    if spec["r"] in ("lexer", "parser"):
        return f"no error, {spec['r']} was expected"
    out = p.output
    if (out.toc is None) != (toc == []):
        return f"the table of contents is {out.toc}"
    ids = replay.Ids()
    before = data(out.document)
    if out.document is not None:
        d = replay.diff(toc[0], maureal.proj(data(out.toc)), ids)
        if d:
            return f"table of contents: {d}"
        d = replay.diff(spec["d"][0], maureal.proj(before), ids)
        if d:
            return d
    got = []
    for c in out.include_calls:
        x = c.info.context
        if x.source != c.caller_uri:
            return f"an inclusion of {c.caller_uri} takes place in {x.source}"
        got.append([c.caller_uri, c.callee_uri, sorted(map(list, c.call_arguments.items())), [x.start_line, x.start_column, x.end_line, x.end_column]])
    want = [[a, b, sorted(v), list(p)] for a, b, v, p in calls]
    if got != want:
        return f"inclusions {got} instead of {want}"
    # the tokens, the document and the visit of the steps and those of a whole run are the same
    whole, raw = maureal.run(case["t"], maureal.case_env(case))
    if raw != before and (raw or before):
        return "the steps one by one give another result"
    # in another class
    w = parsed(case, True).output.document
    if (w is None) != (out.document is None) or (w is not None and (type(w) is not Wrapper or data(w) != before)):
        return f"with a configured class the document is {w!r}"
    if out.document is not None:
        # a copy is like the document, and does not share its nodes
        copy = out.document.deepcopy()
        d = replay.diff(maureal.proj(before), maureal.proj(data(copy)), replay.Ids())
        if d:
            return f"copy of the document: {d}"
        spoil(copy)
    if data(out.document) != before:
        return "asking for them, or changing a copy, changes the document"
    return None


def case_of(job, judge):
    case, report = job
    replay.write_files(case.get("f", ()))
    try:
        d = judge(case, *report)
    except Exception as exc:
        d = repr(exc)
    finally:
        replay.remove_files(case.get("f", ()))
    return d and {"case": case, "what": d, "expected": report}


def judge_case(job):
    return case_of(job, judge_output)


def judge_line(line):
    rec = tlc.Tlc.decode(line)
    return case_of((model_case(rec), rec[2:]), judge_output)
