"""What each check explores. q(quick, thorough) chooses a bound by tier."""
import clis
import configs
import envs
import gen
import judge
import outputs
import parents
import reports
import runs
import sources
import templates
import visits


def q(run, quick, thorough):
    return quick if run.quick else thorough


LETTERS = ["\u65e5", "\U0001d4b3", "\u0301", "\u00df", "\u0130", "\x00", "\u200b", "\x1b", "\ufeff"]
SPACES = ["\t", "\r", "\u00a0", "\u2028", "\x0b", "\x0c", "\x1c", "\x85", "\u0663", "\u2167", "\u00bd", "\u3000"]


def sprinkle(r, cases, alphabet):
    """The cases with unusual characters: (cases, cases with a common letter in their place)."""
    new, plain = [], []
    for c in cases:
        t = c["t"]
        for _ in range(r.randrange(1, 6)):
            i = r.randrange(len(t) + 1)
            t = t[:i] + r.choice(alphabet) + t[i + r.randrange(2):]
        s = "".join("\u00e9" if ch in alphabet else ch for ch in t)
        if "\u00e9" * 4 not in s:
            new.append(dict(c, t=t))
            plain.append(dict(c, t=s))
    return new, plain


DEEP = {
    "list": lambda n: "\n".join("*" * j + " a" for j in range(1, n)),
    "styles": lambda n: "".join("_*"[j % 2] + "a " for j in range(n)) + "".join(" a" + "_*"[j % 2] for j in reversed(range(n))),
    "blocks": lambda n: "\n".join(chr(0x4e00 + j) * 4 for j in range(n)) + "\na\n" + "\n".join(chr(0x4e00 + j) * 4 for j in reversed(range(n))),
    "toc": lambda n: "\n".join("=" * j + " a" for j in range(1, n)) + "\n\n<< toc",
}


def c01(run):
    inv, props = ("NotStuck", "Smaller", "OneResult", "PlaceInText"), ("GoesOn",)
    for p, sep, quick, deep in (("P1", "Glued", 3, 4), ("P2", "NL", 2, 3), ("P3", "Glued", 3, 5)):
        run.model("MC_C01", p, "V1", sep, mx=q(run, quick, deep), inv=inv, props=props, view="fail")
    run.docs(q(run, 2500, 40000), view="fail")
    run.docs(0, view="fail", cases=gen.mutants(f"C01/{run.seed}", q(run, 5000, 60000)), topic="mutated documents")
    # characters the specification does not know
    cases = gen.mutants(f"C01/chars/{run.seed}", q(run, 1500, 15000))
    new, plain = sprinkle(run.r, cases, LETTERS)
    run.docs(0, view="fail", cases=new, plain=plain, topic="unusual letters")
    new, _ = sprinkle(run.r, cases, SPACES + LETTERS)
    run.places(new, "unusual spaces and digits")
    for k, f in DEEP.items():
        run.places([{"t": f(n)} for n in (20, 40, 60)], f"deep {k}")


LEX_INV = ("ExactSpans", "InOrder", "OneConstruct", "NothingLost", "NoTokenNoText", "FailsOnlyWhenOpen")


def c02(run):
    for p, sep, quick, deep in (("Chars", "Glued", 4, 5), ("Starts", "Glued", 4, 5), ("Rows", "NL", 3, 5)):
        run.model("MC_C02", p, sep=sep, mx=q(run, quick, deep), inv=LEX_INV, judge="tokens", base=None)


def c03(run):
    inv = ("Spans", "Ordered", "ErrorInside")
    run.model("MC_C03", "P1", "Plain", "NL", mx=q(run, 3, 4), inv=inv, view="pos")
    run.model("MC_C03", "P2", "Plain", "Glued", mx=q(run, 3, 5), inv=inv, view="pos")
    run.model("MC_C03", "P3", "Plain", "Glued", mx=q(run, 4, 6), inv=inv, view="pos")
    run.docs(q(run, 4000, 60000), view="pos")


def c04(run):
    run.model("MC_C04", "P1", "Plain", "NL", mx=q(run, 3, 4), inv=("SameOutline",))
    run.model("MC_C04", "P2", "Plain", "NL", mx=q(run, 4, 5), inv=("SameOutline",))
    run.docs(q(run, 4000, 60000), topic="structure", style=.5, var=.5, marker=.5, comment=4, mcomment=3, block=7, ws=2)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C04/{run.seed}", q(run, 250, 5000)))


def c05(run):
    run.model("MC_C05", "P1", "V1", "NL", mx=q(run, 3, 4), inv=("Bound", "InsideNothing"), props=("StillWaiting",))
    run.docs(q(run, 4000, 60000), topic="arguments, labels, controls", arguments=12, label=10, control=8, variable=5, comment=4)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C05/{run.seed}", q(run, 250, 5000), label=20, arguments=15))


def c06(run):
    run.model("MC_C06", "P1", "V1", "Glued", mn=1, mx=1, inv=("Same",))
    run.model("MC_C06", "Pc", "Vc", "Glued", mn=1, mx=1, inv=("ByValue",), label="MC_C06/values")
    run.docs(q(run, 4000, 60000), topic="controls", control=14, header=7, footnote=3, group=3, toc=3, footnotes=3, blockgroup=2)


def c07(run):
    run.model("MC_C07", "P1", "V1", "Glued", mx=q(run, 4, 6), inv=("Opaque", "Untouched"))
    run.model("MC_C07", "P2", "V2", "NL", mx=q(run, 3, 4), inv=("Latest",))
    run.model("MC_C07", "P3", "V2", "NL", mx=q(run, 4, 5), inv=("Spaces",))
    run.docs(q(run, 4000, 60000), topic="variables", variable=12, var=8, control=4, incmau=2)
    run.docs(q(run, 1500, 20000), topic="values that are not text", variable=3, var=8, control=0, ifm=0, ifeval=0, broken=0, native=100)


def c08(run):
    inv = ("OnlyMarkers", "Paired1", "Merged", "NoSameStyle")
    for p in ("P1", "P2", "P3", "P4", "P5"):
        run.model("MC_C08", p, "Plain", "Glued", mx=q(run, 4, 6 if p in ("P1", "P2") else 5), inv=inv)
    run.docs(q(run, 3000, 50000), topic="inline", text=30, style=8, verb=3, esc=3, bs=4, marker=6, odd=5)


def c09(run):
    inv = ("ArgsAsWritten", "OneBranch")
    run.model("MC_C09", "P1", "V1", "Glued", mn=1, mx=q(run, 3, 3), inv=inv, every=q(run, 3, 1))
    run.model("MC_C09", "P2", "V1", "Glued", mn=1, mx=q(run, 3, 4), inv=inv)
    run.model("MC_C09", "P3", "V3", "Glued", mx=q(run, 4, 5), inv=("WellFormed", "NoMacroLeft"))
    run.docs(q(run, 1500, 40000), topic="macros", text=30, link=6, mailto=4, hlink=4, fmention=4, mimage=5, mclass=5, unicode=4,
             mraw=4, ifm=8, ifeval=6, unknown=5, broken=5, word=8, odd=6)


def c10(run):
    inv = ("AsWritten", "OneName")
    run.model("MC_C10", "P1", "V1", "Glued", mx=q(run, 4, 5), inv=inv)
    run.model("MC_C10", "P2", "V1", "Comma", mx=q(run, 3, 4), inv=inv)
    run.model("MC_C10", "P2", "V2", "CommaSpace", mx=q(run, 3, 4), inv=("SameQuoted",))
    run.docs(q(run, 3000, 50000), topic="arguments", arguments=15, image=4, include=5, odd=8, header=5, block=6, unknown=4)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C10/{run.seed}", q(run, 250, 5000), arguments=15, mclass=5, unknown=5))


def c11(run):
    run.model("MC_C11", "P1", "Plain", "NL", mx=q(run, 3, 5), inv=("AllLists", "GoodNesting"))
    run.docs(q(run, 4000, 60000), topic="lists", lst=25, empty=6, text=5, control=3, block=4, comment=3, odd=5)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C11/{run.seed}", q(run, 250, 5000), lst=25))


def c12(run):
    run.model("MC_C12", "P1", "V1", "NL", mx=q(run, 3, 4), inv=("AllTocs", "Others"))
    run.docs(q(run, 4000, 60000), topic="headers and tables of contents", header=25, toc=6, block=5, text=4, control=3, maxlines=16)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C12/{run.seed}", q(run, 250, 5000), header=25, toc=3, footnote=0, fmention=0))


def c13(run):
    run.model("MC_C13", "P1", "V1", "NL", mx=q(run, 3, 4), inv=("Resolved", "Connected", "OwnHeaders"))
    run.docs(q(run, 4000, 60000), topic="header links", header=12, hlink=6, text=10, label=4, lst=5, block=4, toc=2, missing=5)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C13/{run.seed}", q(run, 250, 5000), header=12, hlink=8, fmention=0, footnote=0, text=20))


def c14(run):
    run.model("MC_C14", "P1", "V1", "NL", mx=q(run, 3, 4), inv=("Resolved", "AllMentions", "Lists", "NotInPlace", "OwnNotes"))
    run.docs(q(run, 4000, 60000), topic="footnotes", footnote=6, fmention=8, footnotes=5, text=10, label=4, lst=5, header=4, block=4, missing=5)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C14/{run.seed}", q(run, 250, 5000), footnote=9, fmention=8, footnotes=2, text=20, hlink=0))


def c15(run):
    run.model("MC_C15", "P1", "V1", "NL", mx=q(run, 3, 4), inv=("Resolved", "AllGroups", "InPlace"))
    run.docs(q(run, 4000, 60000), topic="block groups", group=10, blockgroup=6, block=5, text=5, control=3, maxlines=14)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C15/{run.seed}", q(run, 250, 5000), group=12, blockgroup=3, fmention=0, hlink=0))


def c16(run):
    run.model("MC_C16", "P1", "V1", "NL", mn=1, mx=1, inv=("CyclesFail", "NeverTwice", "AsDocument"))
    run.model("MC_C16", "P2", "V2", "NL", mx=q(run, 3, 4), inv=("Given", "NeverTwice"), props=("Protected",))
    run.docs(q(run, 4000, 60000), topic="inclusions", incmau=14, incraw=4, variable=6, var=4, block=5, control=3, odd=5)


def c17(run):
    run.model("MC_C17", "P1", "V1", "NL", mx=q(run, 2, 3), inv=("SameMerged",))
    run.model("MC_C17", "P2", "V1", "NL", mx=q(run, 3, 3), inv=("IsoOwn",), every=q(run, 2, 1))
    run.docs(q(run, 4000, 60000), topic="blocks", block=16, header=8, footnote=3, toc=3, footnotes=3, fmention=3, hlink=3, group=2, depth=3)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C17/{run.seed}", q(run, 250, 5000), block=20, header=8))


def c18(run):
    inv = ("AllLines", "SourceVerbatim")
    run.model("MC_C18", "P1", "V1", "Glued", mx=q(run, 4, 5), inv=(*inv, "RawVerbatim"))
    run.model("MC_C18", "P2", "V2", "Glued", mx=q(run, 4, 5), inv=inv)
    run.model("MC_C18", "P3", "V3", "NL", mx=q(run, 2, 3), inv=(*inv, "RawVerbatim"))
    run.model("MC_C18", "P3", "V4", "NL", inv=("Included2",))
    run.docs(q(run, 3000, 50000), topic="code", source=20, raw=8, incraw=4, text=4, control=2)
    run.docs(0, topic="large documents", cases=gen.large_cases(f"C18/{run.seed}", q(run, 250, 5000), source=10, raw=8, incraw=3))
    verbatim(run, q(run, 1500, 20000))


def verbatim(run, n):
    """Characters that could be taken for spaces, ends of line or digits, in code and in included files."""
    cases = gen.cases(f"special/{run.pid}/{run.seed}", n, source=10, raw=10, incraw=8, special=40, text=4, missing=0, odd=.5, clash=0, undefined=0)
    cases = [c for c in cases if "\ue000" in c["t"] + "".join(x[1] for x in c["f"])]
    chars = [run.r.choice([x for x in SPACES + LETTERS if x != "\r" and x not in c["t"] + "".join(b for _, b in c["f"])]) for c in cases]
    new, plain = ([dict(c, t=c["t"].replace("\ue000", x), f=[[a, b.replace("\ue000", x)] for a, b in c["f"]]) for c, x in zip(cases, q)]
                  for q in (chars, ["\u00e9"] * len(cases)))
    run.docs(0, topic="unusual characters in code", cases=new, plain=plain, swap=chars)


def c19(run):
    for k, quick, deep in (("1", 3, 3), ("2", 4, 5)):
        run.model("MC_C19", mx=0, inv=("PrefixExact", "Inverse"), props=("ReadBack", "Untouched", "NeverOverwritten"), judge=envs.judge_hist, every=q(run, 2, 1),
                  base=None, consts=(f"MaxOps = {q(run, quick, deep)}", *(f"{n} <- {n[0]}{k}" for n in ("Dicts", "Spaces", "Keys", "Values"))),
                  label=f"MC_C19/{k}")
    run.judged(envs.judge_case, "MauEnvBatch", [envs.random_case(f"{run.seed}/{j}") for j in range(q(run, 10000, 100000))], "random histories")


def c20(run):
    for k, t, p, t2, p2 in ((1, 2, 2, 3, 2), (2, 3, 1, 4, 1)):
        run.model("MC_C20", inv=("EveryClaim",), props=("Stable",), judge=templates.judge_line, base=None, every=q(run, 2, 1),
                  consts=(f"MaxTemplates = {q(run, t, t2 if k == 2 else t)}", f"MaxPrefixes = {q(run, p, p2)}", f"ClaimSets <- Sets{k}", "AllNodes <- Nodes1"),
                  label=f"MC_C20/{k}")
    run.judged(templates.judge_case, "MauTemplateBatch", [templates.random_case(f"{run.seed}/{j}") for j in range(q(run, 4000, 60000))],
               "random nodes and templates")
    docs = gen.cases(f"C20/{run.seed}", q(run, 600, 10000), missing=0, clash=0, arguments=8, maxlines=8)
    cases = [c for c in run.pool.map(templates.document_case, [(c, f"{run.seed}/{j}") for j, c in enumerate(docs)]) if c]
    run.judged(templates.judge_document, "MauTemplateBatch", cases, "documents and templates",
               records=[{k: c[k] for k in ("templates", "prefixes", "nodes")} for c in cases])


def c21(run):
    run.model("MC_C21", "P1", "V1", "NL", mx=q(run, 2, 3), inv=("Complete", "Rendering"), props=("Unchanged",), export="Export2", spec="Spec2",
              judge=visits.judge_line, every=q(run, 1, 3), consts=(f"MaxVisits = {q(run, 2, 2)}",))
    cases = gen.cases(f"C21/{run.seed}", q(run, 2000, 30000), missing=0, clash=0) + gen.large_cases(f"C21/{run.seed}", q(run, 150, 3000))
    run.judged(visits.judge_case, "MauRenderBatch", cases, "random documents and visits", 'CONSTANT MainFile="main.mau"',
               [visits.record(c) for c in cases])
    new, plain = sprinkle(run.r, gen.cases(f"C21/unknown/{run.seed}", q(run, 400, 6000), missing=0, clash=0, odd=.5), LETTERS)
    run.judged(visits.judge_case, "MauRenderBatch", [dict(c, unknown=LETTERS) for c in new], "documents with unusual letters", 'CONSTANT MainFile="main.mau"',
               [visits.record(c) for c in plain])
    nodes = [templates.random_case(f"nodes/{run.seed}/{j}")["nodes"] for j in range(q(run, 1000, 20000))]
    run.judge_all(visits.judge_node, nodes)


def c22(run):
    run.model("MC_C22", inv=("SameAgain", "NoFile", "Alone"), props=("PastIsPast",), judge=runs.judge_line,
              consts=(f"MaxRuns = {q(run, 2, 3)}", f"Docs <- {q(run, 'Docs1', 'Docs2')}"), every=q(run, 1, 4))
    n = q(run, 1200, 16000)
    cases, real, spec = run.docs(n, view="pos", topic="documents one after the other")
    run.runs(cases)


def c23(run):
    inv, cases = ("Untouched", "Written", "NeverInput", "Code"), dict(judge=clis.judge_line, props=("AtTheEnd",))
    one = ("MaxRuns = 1", "Inputs <- I1", "Outputs <- O1", "Formats <- F1", "Sources <- T1", "Lexing <- L1")
    run.model("MC_C23", inv=inv, consts=(*one, "Configs <- C1"), every=q(run, 8, 1), label="MC_C23/one run", **cases)
    run.model("MC_C23", inv=inv, consts=("MaxRuns = 1", "Inputs <- I2", "Outputs <- O1", "Formats <- F1", "Sources <- T1", "Lexing <- L1", "Configs <- C3"),
              label="MC_C23/configurations", **cases)
    run.model("MC_C23", inv=inv, consts=(f"MaxRuns = {q(run, 2, 3)}", "Inputs <- I2", "Outputs <- O2", "Formats <- F2", "Sources <- T2", "Lexing <- L2", "Configs <- C2"),
              every=q(run, 1, 5), label="MC_C23/histories", **cases)
    run.model("MC_C23", inv=inv, consts=(*one, "Configs <- C1"), every=q(run, 200, 20), label="MC_C23/processes", **dict(cases, judge=clis.judge_process))
    random_runs(run, q(run, 1200, 20000))


def random_runs(run, n, **profile):
    cases = [clis.random_run(f"{run.pid}/{run.seed}/{j}", **profile) for j in range(n)]
    run.judged(clis.judge_random, "MauCliBatch", cases, "random runs", 'CONSTANT MainFile="main.mau"', [{k: c[k] for k in ("fs", "a")} for c in cases])


def c24(run):
    inv = ("NothingElse", "AllOrNothing")
    names = ("FileArgs <- FA{0}", "VarArgs <- VA{0}", "Configs <- C{0}", "SpacesF <- SF{0}", "SpacesV <- SV{0}", "Probes <- Pr{0}")
    for k, f, v, every in ((1, 2, q(run, 1, 2), q(run, 15, 20)), (2, q(run, 3, 4), q(run, 1, 2), q(run, 4, 20)), (3, q(run, 2, 3), q(run, 3, 4), q(run, 1, 3))):
        run.model("MC_C24", inv=inv, judge=clis.judge_outside, every=every, consts=(f"MaxFiles = {f}", f"MaxVariables = {v}", *(x.format(k) for x in names)),
                  label=f"MC_C24/{k}")
    run.model("MC_C24", inv=inv, judge=clis.judge_outside_process, every=q(run, 200, 60), consts=("MaxFiles = 1", "MaxVariables = 1", *(x.format(1) for x in names)),
              label="MC_C24/processes")
    random_runs(run, q(run, 1500, 20000))


def c25(run):
    inv, props = ("Failure", "Latest"), ("Kept", "Fixed")
    names = ("DefaultSets", "ProviderSets", "FolderSets", "CustomSets", "ProviderLists", "FolderLists", "Kinds")
    for k, n, sets, every in (("sources", 1, ("S1", "S1", "S1", "S1", "LP1", "LF1", "K1"), q(run, 2, 1)),
                              ("visitors", 2, ("S3", "S5", "S2", "S2", "LP2", "LF2", "K2"), 1)):
        run.model("MC_C25", inv=inv, props=props, judge=sources.judge_line, base=None, every=every,
                  consts=(f"MaxVisitors = {n}", *(f"{x} <- {y}" for x, y in zip(names, sets))), label=f"MC_C25/{k}")
    cases = [sources.random_case(f"{run.seed}/{j}") for j in range(q(run, 3000, 40000))]
    run.judged(sources.judge_case, "MauSourcesBatch", cases, "random sources", records=[sources.record(c) for c in cases])


def c26(run):
    run.model("MC_C26", "P1", "V1", "Glued", mx=q(run, 2, 3), inv=("Count", "Silent", "Truthful", "SameQuiet"), export="Export3", judge=reports.judge_line,
              every=q(run, 1, 2))
    cases = gen.cases(f"C26/{run.seed}", q(run, 2500, 30000), missing=0, clash=0)
    for c in cases[::2]:
        c["v"], c["al"] = [], []
    run.judged(reports.judge_case, "MauReportBatch", cases, "random documents and flags", 'CONSTANT MainFile="main.mau"',
               [judge.record(c) for c in cases])
    run.judged(templates.judge_debug, "MauTemplateBatch", [templates.random_case(f"C26/{run.seed}/{j}") for j in range(q(run, 1000, 15000))],
               "nodes tagged for debugging, and templates")


def c27(run):
    run.model("MC_C27", "P1", "V1", "NL", mx=q(run, 3, 4), inv=("SameToc", "SameCalls", "Chain", "Ids"), props=("CallsKept",), export="Export2", judge=outputs.judge_line)
    for topic, n, profile in (("inclusions and headers", q(run, 2500, 40000), dict(incmau=10, header=12, block=6, toc=3, footnote=2, fmention=2, hlink=2, control=4)),
                              ("random documents", q(run, 1500, 20000), {})):
        cases = gen.cases(f"C27/{topic}/{run.seed}", n, missing=.5, clash=.5, **profile)
        for j, c in enumerate(cases):
            c["hid"], c["fid"] = ["", "H", "x-"][j % 3], ["", "F-"][j % 2]
        run.judged(outputs.judge_case, "MauOutputBatch", cases, topic, 'CONSTANT MainFile="main.mau"', [judge.record(c) for c in cases])


def c28(run):
    run.model("MC_C28", "P1", "V1", "NL", mx=q(run, 2, 3), inv=("Held", "InCopies"), export="Export2", judge=parents.judge_line)
    for topic, n, profile in (("random documents", q(run, 2000, 30000), {}),
                              ("copies", q(run, 2000, 30000), dict(footnote=10, fmention=8, hlink=6, header=6, toc=4, lst=6, group=4, blockgroup=4, incmau=4))):
        cases = gen.cases(f"C28/{topic}/{run.seed}", n, missing=0, clash=0, **profile) + gen.large_cases(f"C28/{topic}/{run.seed}", n // 20)
        run.judged(parents.judge_case, "MauParentsBatch", cases, topic, 'CONSTANT MainFile="main.mau"', [visits.record(c) for c in cases])


def c29(run):
    run.model("MC_C29", "P1", "V1", "NL", mx=q(run, 2, 3), inv=("LastOne", "SameNames"), props=("Grows",), export="Export2", judge=configs.judge_line)
    for topic, n, profile in (("random documents", q(run, 1500, 20000), {}),
                              ("variables", q(run, 1500, 25000), dict(variable=20, block=10, footnote=4, group=4, incmau=6, var=5, control=4))):
        cases = gen.cases(f"C29/{topic}/{run.seed}", n, missing=.3, clash=.3, **profile)
        run.judged(configs.judge_case, "MauConfigBatch", cases, topic, 'CONSTANT MainFile="main.mau"', [judge.record(c) for c in cases])


TECHNIQUE = {}
NOTE = {}
