"""Writes known_findings.json (the list is edited here)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KNOWN = [
    dict(property="C01", title="unbounded nesting ends in RecursionError (lists, 400 levels)", kind="deep", construct="list", levels=400),
    dict(property="C01", title="unbounded nesting ends in RecursionError (styles, 400 levels)", kind="deep", construct="styles", levels=400),
    dict(property="C01", title="unbounded nesting ends in RecursionError (blocks, 400 levels)", kind="deep", construct="blocks", levels=400),
    dict(property="C01", title="unbounded nesting ends in RecursionError (table of contents, 800 levels)", kind="deep", construct="toc", levels=800),
    *(dict(property="C01", title=f"a document that defines the variable `{n}`, which is part of the configuration, crashes", kind="document",
           text=f":{n}:x\n{after}\n", expect='"r": "ok"')
      for n, after in (("mau.parser.header_internal_id_function", "\n----\n= H\n----"), ("mau.parser.document_wrapper", "\n----\na\n----"),
                       ("mau.parser.footnote_unique_id_function", "\n----\n[footnote=f]\n++++\na\n++++\n----"),
                       ("mau.parser.aliases", "\n[@source]\na"), ("mau.parser.aliases.source", "\n[@source]\na"), ("mau.parser.aliases.source.args", "\n[@source]\na"),
                       ("mau.parser.source_highlight_style_aliases", "\n[engine=source]\n----\na:@+:\n----"))),
    dict(property="C07", title="a variable whose value has an empty line cannot be used in text", kind="document",
         text="{a}\n", variables=[["a", "x\n\ny"]], expect='"r": "ok"'),
    dict(property="C06", title="the footnote mentioned in the label of an excluded node must exist", kind="document",
         text="@if v!=x\n. l [footnote](f)\na\n\nb\n", variables=[["v", "x"]], expect='"r": "ok"'),
    dict(property="C05", title="the footnote mentioned in a label that is replaced must exist", kind="document",
         text=". l [footnote](f)\n. m\na\n", expect='"r": "ok"'),
    dict(property="C09", title="a macro whose name starts with `if` cannot be used", kind="document",
         text="[iframe](x)\n", expect='"r": "ok"'),
    dict(property="C09", title="variables that are not text (numbers of environment files) never equal the value in a condition", kind="python",
         code="import maureal\ne = maureal.make_env(extra={'n': 1})\no = maureal.run('[if:n==1](yes,no)', e)[0]\nimport json\nassert 'yes' in json.dumps(o), 'the false case is rendered'"),
    dict(property="C13", title="a header link in a footnote with isolate=false is not connected in the copies of the footnote", kind="document",
         text="[footnote=f,isolate=false]\n----\n[header](h,t)\n----\n\n[name=h]\n= H\n\na [footnote](f)\n",
         expect='["macro-header", ["h"], [], [[["header"'),
    dict(property="C19", title="an environment with both a variable and its namespace cannot be turned into a dictionary", kind="python",
         code="from mau.environment.environment import Environment\ne = Environment()\ne['a'] = '1'\ne['a.b'] = '2'\ne.asdict()"),
]

FIXED = [
    ("C22", "b06f578", "templates in folders were read with the encoding of the locale"),
    ("C28", "ade13de", "the text of a macro had no parent"),
    ("C28", "f88c578", "the marker of a source line had no parent"),
    ("C28", "e024f86", "copied paragraphs, lists, inclusions and tables had other parents than the original ones"),
    ("C21", "ed49e43", "visiting a document with a debug node without contexts crashed with KeyError"),
    ("C19", "e29d6ee", "a clone of an empty environment shared its values; asdict() modified the environment"),
    ("C20", "11e7209", "the Jinja visitor crashed with an empty dictionary of custom templates"),
    ("C24", "295a9c4", "a file given again for the same key did not replace what another file had stored under that key"),
    ("C19", "8ea328a", "an empty dictionary hid the names stored under it"),
    ("C01", "e28af5a", "a token that cannot start a paragraph crashed with IndexError"),
    ("C04", "c6bf0e7", "the line after `:+flag:`, an empty variable or `<< image:` was swallowed"),
    ("C01", "2c92823", "a header or a list item whose text produces no node crashed"),
    ("C01", "7c9fa1f", "`@if` without a condition crashed"),
    ("C01", "062887b", "`[start=abc]` before a list crashed with ValueError"),
    ("C01", "133c14e", "`<< blockgroup` without a name crashed with KeyError"),
    ("C11", "445d633", "a line of spaces after a list was an error"),
    ("C09", "c02c8d6", "a false `[if]` without false case stopped the sentence in a style"),
    ("C06", "38f258b", "excluded headers, footnotes, groups, lists and inclusions had effects"),
    ("C11", "71cd128", "start=auto did not continue the numbering of the latest ordered list"),
    ("C16", "621c884", "the same file could not be included twice"),
    ("C16", "399b5de", "an inclusion cycle through a block was not detected"),
    ("C17", "068c42c", "links, headers and mentions of non isolated blocks were not merged"),
    ("C14", "ebbc140", "footnotes defined twice through non isolated blocks were accepted"),
    ("C13", "7848ec8", "footnotes and headers mentioned in the text of other macros were not linked"),
    ("C10", "d23d869", "quotes after the first argument of a macro and escaped quotes were not supported"),
    ("C10", "2333f73", "the text of a tag or a subtype was interpreted as another prefix"),
    ("C22", "720010d", "the order of the arguments of an alias depended on the hash seed"),
    ("C18", "2b3700f", "source lines like `foo::` lost text; delimiters of many characters did not work"),
    ("C09", "cfbfde8", "ifeval on a variable that is not text crashed"),
    ("C16", "5b98b9d", "included files that cannot be read as text crashed"),
    ("C19", "63961e3", "environments with both `a` and `a.b` could not be cloned"),
    ("C24", "74f09c5", "variables of the command line whose value contains = were refused"),
    ("C23", "bad67ae", "the default output file could overwrite the input"),
    ("C24", "75f8867", "an empty configuration file crashed"),
    ("C20", "43dba55", "the Jinja visitor could not be created without environment"),
    ("C01", "d20f109", "a control macro without condition crashed with AttributeError"),
    ("C01", "a1608da", "exponential time with unclosed style markers"),
    ("C12", "8f3024b", "links in the headers copied by tables of contents were not connected"),
    ("C14", "de4a2b2", "the error for a footnote defined twice had no position"),
    ("C03", "438cc67", "wrong position of a bad condition in a control macro"),
    ("C18", "a73dd21", "a raw or source block with a single empty line lost it"),
    ("C13", "873a046", "endless recursion visiting headers with links to themselves"),
    ("C13", "89839c6", "links inside the default content of other links had no content"),
    ("C03", "5a93250", "wrong position of named arguments that follow spaces"),
    ("C03", "4e944c6", "a backslash at the end of the text got a position in the next line"),
    ("C19", "14e22c1", "an empty key in a nested dictionary was lost when flattening"),
]


def main():
    with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
        json.dump({"known": KNOWN, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, f, indent=1)
        f.write("\n")


main()
