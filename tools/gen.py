"""Seeded random documents. A profile changes the weights of the constructs."""
import random

import repowords

WORDS = ["a", "b", "c", "dd", "e f", "Xy", "z.", "q-r", "1", "w", "é"]
NAMES = ["a", "b", "k.x", "n", "u"]           # variables; "u" is never defined
HNAMES = ["h1", "h2", "h3"]                   # names of headers
FNAMES = ["f1", "f2"]                         # names of footnotes
GROUPS = ["g1", "g2"]
POSITIONS = ["left", "right", "mid"]
FILES = ["inc1.mau", "inc2.mau", "raw.txt"]
ROLES = ["", "title", "role", "x-1"]
VALUES = ["x", "y z", "true", "false", "*s*", "`v`", "{a}", "f1", "1", "q\"w", "a,b", "", " v", "w  ", " "]

STYLES = ["+", "-", "add", "default", "hs", "q"]
NATIVE = ["0", "1", "-7", "1.5", "True", "False", "None", "2024-01-31", "[]", "['a', 1]"]

BASE = dict(
    # lines
    text=10, empty=8, comment=2, mcomment=1, rule=2, variable=3, label=3, control=2, arguments=4,
    header=5, lst=5, block=5, footnote=1, group=1, toc=1, footnotes=1, blockgroup=1, incmau=1, incraw=1,
    image=1, include=1, source=2, raw=1, junk=1, ws=1,
    # inline
    word=12, style=3, verb=1, esc=1, bs=1, var=1.5, marker=1.5, link=1, mailto=.5, hlink=.7, fmention=.7,
    mimage=.5, mclass=1, unicode=.5, mraw=.5, ifm=1, ifeval=.5, unknown=.5, broken=.25,
    # probability (percent) of an unusual choice
    odd=3, plain=50, native=30, special=0, repeat=4, undefined=.5, clash=2, missing=2, maxlines=10, depth=2,
)


PLAIN = {"words": WORDS, "names": NAMES, "hnames": HNAMES, "fnames": FNAMES, "groups": GROUPS, "positions": POSITIONS, "files": FILES,
         "roles": ROLES, "values": VALUES, "keys": ["k", "l", "k2", "m"], "args": ["p", "q r", "a,b", " s "], "tags": ["t1", "t2", "mau:in", "mau:debug"],
         "subs": ["sub", "s2"], "avalues": ["v", "v w", "1,2", "x=y"], "classes": ["c1", "c2", "c3"], "conditions": ["x", "true", "y z", "1", "false", "v", "w", ""],
         "ids": ["i1", "i2"], "types": ["foo", "x.y", "0_#"], "macros": ["foo", "Link", "x:y", "a b"],
         "targets": ["http://u", "u", "x)y", "mailto:m", "#h1"], "emails": ["a@b.c", "a@b.c", "mailto:e", "http://e"],
         "images": ["i.png", "i.png", "http://u/i"], "alts": ["alt t", "alt"], "sizes": ["10", "20"], "codes": ["1F30B"]}
# where any text can be
FREE = ("words", "values", "args", "avalues", "conditions", "targets", "emails", "images", "alts", "sizes", "codes", "hnames", "fnames")
# what can be added to a name of each kind
TAILS = {"names": [".x", "_", "-", "1", "+", "."], "roles": ["-", "_", "0"], "types": [".", "#", "_1"]}
COMMON = ["1", "-", ".", "_x", ":", ":y", " z", "é", "/", "+", "&", "<b>", "'", ";", "?", "!", "0"]
WORDISH = ["http://x.y/z?q=1&r=2#s", "a_b_c", "--", "...", "e.g.", "'s", "//x", "1.5", "x=y", "a,b", "{{a}}", "\"q\"", "(p)", "[s]", "#t", "@u", "<<", "|", "a:b:",
           "AbC", "éé", "x" * 40, "=", "==", "!", "&amp;", "if", "link", "mau:"]
RESERVED = ["true", "false", "default", "title", "text", "source", "name", "link", "if", "document", "mau", "auto", "group", "0", "1", "args"]


def vary(r, kind, x):
    """A name that looks like another one."""
    # the specification knows one letter outside ASCII
    return varied(r, kind, x).replace("É", "é")


def varied(r, kind, x):
    if x == "":
        return x
    k = r.randrange(7)
    if kind in ("roles", "types"):
        k = r.choice([2, 3, 4, 5])
    if k == 0:
        return x.swapcase()
    if k == 1:
        return x.upper() if x != x.upper() else x.capitalize()
    if k == 2:
        return x + x
    if k == 3:
        return r.choice(RESERVED if kind == "names" or r.random() < .5 else repowords.words() if kind in FREE else repowords.names())
    if k == 4 or kind == "names":
        return x + r.choice(TAILS.get(kind, COMMON))
    if k == 5:
        return x[::-1] if kind != "names" else x
    if kind in FREE and r.random() < .3:
        return r.choice(repowords.words()) + x
    return r.choice(COMMON) + x


class Gen:
    def __init__(self, seed, vocabulary=None, **profile):
        self.r = random.Random(seed)
        self.p = dict(BASE, **profile)
        self.V = vocabulary or self.vocabulary()
        self.defs = []
        self.aliases = []
        self.scope = self.new_scope()
        self.groups = set()
        self.big = False

    @staticmethod
    def new_scope():
        return {"h": set(), "f": set(), "link": set(), "mention": set()}

    def unused(self, names, used):
        """A name, almost always a new one; None if there is none left."""
        free = [n for n in names if n not in used]
        if self.r.random() * 100 < self.p["clash"]:
            free = names
        if not free:
            return None
        n = self.pick(free)
        used.add(n)
        return n

    def complete(self, d):
        """Definitions for what is mentioned in the scope."""
        out = []
        s = self.scope
        for n in sorted(s["link"] - s["h"]):
            if self.r.random() * 100 >= self.p["missing"]:
                s["h"].add(n)
                out += [f"[name={self.q(n, True)}]", self.pick(["=", "=="]) + " " + self.pick(self.V["words"])]
        for n in sorted(s["mention"] - s["f"]):
            if self.r.random() * 100 >= self.p["missing"]:
                s["f"].add(n)
                m = ["----", "++++", "%%%%", "!!!!", "####"][d]
                out += [f"[footnote={self.q(n, True)}]", m, self.pick(self.V["words"]), m]
        return out

    def vocabulary(self):
        """The names of the document: the usual ones, and in some documents others that look like them."""
        V = {k: list(q) for k, q in PLAIN.items()}
        if self.r.random() * 100 < self.p["plain"]:
            return V
        for k, q in V.items():
            if k == "files":
                continue
            for j in range(len(q)):
                if k in ("names", "values") and j == 4:
                    continue
                if self.r.random() < .3:
                    q[j] = vary(self.r, k, self.r.choice(q))
        V["words"] += self.r.sample(WORDISH, 5)
        # the same names for things of different kinds
        if self.r.random() < .25:
            same = V[self.r.choice(["groups", "hnames", "fnames", "positions", "roles"])]
            for k in self.r.sample(["hnames", "fnames", "groups", "positions", "args", "tags", "subs", "avalues", "keys"], 5):
                V[k] = [same[j % len(same)] if self.r.random() < .7 else x for j, x in enumerate(V[k])]
                if len(set(V[k])) < min(len(V[k]), 2):
                    V[k] = list(PLAIN[k])
        # a condition often compares with something close to a value
        V["conditions"] += [vary(self.r, "values", x) for x in self.r.sample(V["values"][:4], 2)] + self.r.sample(V["values"][:4], 2)
        # two variables must not be one the prefix of the other
        if any(a.startswith(b + ".") for a in V["names"] for b in V["names"]):
            V["names"] = list(NAMES)
        return V

    def odd(self):
        return self.r.random() * 100 < self.p["odd"]

    def pick(self, q):
        return q[self.r.randrange(len(q))]

    def choice(self, names):
        w = [self.p[n] for n in names]
        return self.r.choices(names, w)[0]

    # ------------------------------------------------------------ inline
    INLINE = ["word", "style", "verb", "esc", "bs", "var", "marker", "link", "mailto", "hlink", "fmention",
              "mimage", "mclass", "unicode", "mraw", "ifm", "ifeval", "unknown", "broken"]

    def var(self):
        if self.r.random() * 100 < self.p["undefined"]:
            return self.pick(["u", "a.b", ""])
        return self.pick(self.defs or ["a"])

    def text(self, d=0, n=None):
        n = n or (self.many(4) if d == 0 and self.big else 0) or self.r.choice([1, 1, 2, 3, 4])
        out = []
        for j in range(n):
            if j and self.r.random() < .6:
                out.append(" ")
            out.append(self.piece(d))
            if self.r.random() * 100 < self.p["repeat"]:
                out.append(out[-1])
        return "".join(out)

    def piece(self, d):
        k = self.choice(self.INLINE)
        if k in ("var", "ifm", "ifeval") and not self.defs and self.r.random() * 100 >= self.p["undefined"]:
            k = "word"
        if d > 2 and k in ("link", "mailto", "hlink", "mclass", "ifm", "style"):
            k = "word"
        return getattr(self, "i_" + k)(d)

    def i_word(self, d):
        return self.pick(self.V["words"])

    def i_style(self, d):
        m = self.pick("_*^~")
        return m + self.text(d + 1) + (m if not self.odd() else self.pick("_*^~"))

    def i_verb(self, d):
        return "`" + self.pick(["x", "{a}", "*s*", "[link](y)", "\\`", "a b", ""]) + "`"

    def i_esc(self, d):
        m = self.pick("$%")
        return m + self.pick(["x", "*s*", "`v`", "[link](y)", "_", "a  b"]) + m

    def i_bs(self, d):
        return "\\" * self.pick([1, 1, 1, 1, 2, 3, 4, 5]) + self.pick(["*", "_", "`", "[", "$", "\\", "{", "}", "a", "(", "\"", ")"])

    def i_var(self, d):
        v = self.var()
        return self.pick(["{%s}"] * 6 + ["\\{%s\\}", "{{%s}}", "`{%s}`"]) % v

    def i_marker(self, d):
        return self.pick(list("_*^~`[]()\"$%\\{") if self.odd() else list("_*^~`[]()\"$%"))

    def q(self, v, sure=False):
        """A value of an argument, quoted if needed."""
        if not sure and self.odd():
            return v
        if any(c in v for c in ",\"=)\\ ") or v[:1] in ("#", "*", "@") or self.r.random() < .4:
            return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
        return v

    def margs(self, *q):
        out = []
        named = False
        for k, v in q:
            if v is None:
                continue
            x = self.q(v)
            if self.odd():
                # spaces around the value
                x = self.pick([" ", "  "]) + x + self.pick(["", " ", "  "])
            if named or self.r.random() < .25:
                named = True
                out.append(f"{k}={x}")
            else:
                out.append(x)
        return self.pick([",", ", ", ","]).join(out)

    def maybe(self, f, p=.5):
        return f() if self.r.random() < p else None

    def i_link(self, d):
        return f"[link]({self.margs(('target', self.pick(self.V['targets'])), ('text', self.maybe(lambda: self.text(d + 1))))})"

    def i_mailto(self, d):
        return f"[mailto]({self.margs(('email', self.pick(self.V['emails'])), ('text', self.maybe(lambda: self.text(d + 1))))})"

    def i_hlink(self, d):
        n = self.pick(self.V["hnames"])
        self.scope["link"].add(n)
        return f"[header]({self.margs(('header_id', n), ('text', self.maybe(lambda: self.text(d + 1))))})"

    def i_fmention(self, d):
        n = self.pick(self.V["fnames"])
        self.scope["mention"].add(n)
        return f"[footnote]({self.margs(('name', n))})"

    def i_mimage(self, d):
        return "[image](%s)" % self.margs(("uri", self.pick(self.V["images"])), ("alt_text", self.maybe(lambda: self.pick(self.V["alts"]))),
                                          ("width", self.maybe(lambda: self.pick(self.V["sizes"]))), ("height", self.maybe(lambda: self.pick(self.V["sizes"]))))

    def i_mclass(self, d):
        cl = [self.q(self.pick(self.V["classes"])) for _ in range(self.many(4))]
        return "[class](%s)" % ",".join([self.q(self.text(d + 1))] + cl)

    def i_unicode(self, d):
        return "[unicode](%s)" % self.q(self.pick(self.V["codes"])) if not self.odd() else "[unicode]()"

    def i_mraw(self, d):
        return "[raw](%s)" % self.margs(("value", self.pick(["<b>", "*x*", "&amp;", "{a}" if "a" in self.defs else "{}"])))

    def i_ifm(self, d):
        c = self.var() + self.pick(["==", "!="]) + self.pick(self.V["conditions"])
        return "[if:%s](%s)" % (c, self.margs(("true_case", self.text(d + 1)),
                                              ("false_case", self.maybe(lambda: self.text(d + 1)))))

    def i_ifeval(self, d):
        c = self.var() + self.pick(["==", "!="]) + self.pick(self.V["conditions"])
        return "[ifeval:%s](%s)" % (c, self.margs(("true_case", self.var()), ("false_case", self.maybe(self.var, .8))))

    def i_unknown(self, d):
        return "[%s](%s)" % (self.pick(self.V["macros"]), self.arglist())

    def i_broken(self, d):
        return self.pick(["[link]()", "[link](x", "[link] (x)", "[](x)", "[li nk](x)", "[if:a](x)", "[if:](x)",
                          "[if:a==](x)", "[header](nope)", "[footnote](nope)", "[class]()", "[header]()", "[if:a=x](b)",
                          "[iffy](x)", "[link](\"x", "[link](a=b,c)", "[if:a==x:y](b)", "[ifeval:a==x](u)"])

    # ------------------------------------------------------------ arguments
    def arglist(self, extra=()):
        n = self.many(4)
        un, nm = [], []
        for _ in range(n):
            x = self.r.random()
            if x < .4:
                un.append(self.q(self.pick(self.V["args"] + ["{a}" if "a" in self.defs else "z"])))
            elif x < .55:
                un.append("#" + self.pick(self.V["tags"]))
            elif x < .63:
                un.append("*" + self.pick(self.V["subs"]))
            elif x < .68 and self.aliases:
                un.append("@" + self.pick([a[0] for a in self.aliases] + (["none"] if self.odd() else [])))
            else:
                nm.append("%s=%s" % (self.pick(self.V["keys"]), self.q(self.pick(self.V["avalues"]))))
        nm += [f"{k}={v if v[:1] == chr(34) else self.q(v, True)}" for k, v in extra]
        q = un + nm
        if self.odd():
            self.r.shuffle(q)
        return self.pick([",", ", "]).join(q)

    # ------------------------------------------------------------ lines
    LINES = ["text", "empty", "comment", "mcomment", "rule", "variable", "label", "control", "arguments",
             "header", "lst", "block", "footnote", "group", "toc", "footnotes", "blockgroup", "incmau", "incraw",
             "image", "include", "source", "raw", "junk", "ws"]

    def lines(self, d=0, n=None):
        out = []
        for _ in range(n or self.r.randrange(1, self.p["maxlines"] + 1)):
            k = self.choice(self.LINES)
            if d >= self.p["depth"] and k in ("block", "footnote", "group"):
                k = "text"
            new = getattr(self, "l_" + k)(d)
            # the same thing twice in a row
            out += new * (2 if k not in ("footnote", "group", "header") and self.r.random() * 100 < self.p["repeat"] else 1)
        return out

    def l_text(self, d):
        return [self.text()]

    def l_empty(self, d):
        return [""]

    def l_ws(self, d):
        return ["  "]

    def l_comment(self, d):
        return ["// " + self.pick(["c", "* x", "= y"])]

    def l_mcomment(self, d):
        return ["////", self.pick(["x", "= y", "", "----"]), "////"]

    def l_rule(self, d):
        return ["---"]

    def l_variable(self, d):
        n = self.pick(self.V["names"][:4])
        if self.r.random() < .2:
            v = self.pick(["+", "-"]) + n
            if n not in self.defs:
                self.defs.append(n)
            return [f":{v}:" + ("" if not self.odd() else "zz")]
        if n not in self.defs:
            self.defs.append(n)
        v = self.pick([v for v in self.V["values"] if v != "{a}" or ("a" in self.defs and n != "a")])
        if v == "" and not self.odd():
            v = "w"
        return [f":{n}:{v}" if not self.odd() else f":{n}{v}"]

    def l_label(self, d):
        r = self.pick(self.V["roles"])
        return ["." + r + (" " if not self.odd() else "") + self.text()]

    def l_control(self, d):
        if self.odd():
            return [self.pick(["@if", "@foo a==x", "@if u==x", "@if a", "@if a=x", "@if a==", "@if  a  == x", "@If a==x"])]
        return ["@if %s%s%s" % (self.var(), self.pick(["==", "!="]), self.pick(self.V["conditions"]))]

    def l_arguments(self, d):
        return ["[" + self.arglist() + "]"]

    def many(self, n):
        """A number below n; in a large document, sometimes a larger one."""
        return self.r.randrange(9, 14) if self.big and self.r.random() < .2 else self.r.randrange(n)

    def large(self, n):
        """Names for a document with many things of each kind."""
        self.big = True
        for k, x in (("hnames", "h"), ("fnames", "f"), ("positions", "p"), ("tags", "t"), ("args", "a"), ("keys", "k"), ("classes", "c"), ("roles", "r")):
            self.V[k] = self.r.sample([f"{x}{j}" for j in range(1, n + 1)], n)
        return self

    def l_header(self, d):
        out = []
        if self.r.random() < .4:
            n = self.unused(self.V["hnames"], self.scope["h"]) if self.r.random() < .7 else None
            ex = [("name", n)] if n else []
            if self.r.random() < .4:
                ex.append(("internal_id", self.pick(self.V["ids"])))
            out.append("[" + self.arglist(ex) + "]")
        return out + ["=" * self.pick([1, 1, 2, 2, 3, 4] + ([6, 7, 9] if self.odd() else [])) + (" " if not self.odd() else "") + self.text()]

    def l_lst(self, d):
        out = []
        if self.r.random() < .3:
            out.append("[" + self.arglist([("start", self.pick(["auto", "3", "auto", "0"] + (["x", "-1", "-4"] if self.odd() else [])))]) + "]")
        level = 1
        for _ in range(self.many(5) + 1):
            out.append(" " * self.r.randrange(3) + self.pick(["*", "#"]) * level + " " + self.text())
            if self.odd() and level > 1:
                out[-1] = out[-1].replace("**", "*#", 1)
            level = max(1, level + self.pick([-1, 0, 0, 1, 1, -2]))
        if not self.odd():
            out.append("")
        return out

    def delim(self, d):
        return self.pick("-+%!_=*")[0] * 4 if d == 0 else self.pick("abcd")[0] * 4

    def blk(self, d, args, inner):
        m = ["----", "++++", "%%%%", "~~~~", "^^^^"][d] if not self.odd() else self.delim(d)
        if m in inner:
            m = "!!!!"
        out = ["[" + args + "]"] if args is not None else []
        if self.odd():
            # almost a delimiter
            near = self.pick([m + " ", m + m[0], " " + m, m[1:], m + "\t", "/" * 4])
            inner = list(inner)
            inner.insert(self.r.randrange(len(inner) + 1), near)
        out += [m] + inner
        if self.r.random() * 100 >= self.p["odd"] / 4:
            out.append(m)
        return out

    def l_block(self, d):
        ex = []
        if self.r.random() < .3:
            ex.append(("isolate", self.pick(["false", "false", "true"] + (["no", "False", ""] if self.odd() else []))))
        if self.r.random() < .15:
            ex.append(("classes", ",".join(self.pick(self.V["classes"]) for _ in range(self.many(3) + 1))))
        if self.r.random() < .1:
            ex.append(self.pick([("group", "g1"), ("position", "left"), ("engine", "default"), ("engine", "nope")]))
        a = self.arglist(ex) if ex or self.r.random() < .3 else None
        inner = self.inner(d, ("isolate", "false") in ex, 5) if not self.odd() else []
        return self.blk(d, a, inner)

    def inner(self, d, shared, n):
        """Lines of a block, which has a scope of its own unless it is shared."""
        groups, self.groups = self.groups, set()
        outer = self.scope
        if not shared:
            self.scope = self.new_scope()
        out = self.lines(d + 1, self.r.randrange(1, n))
        if not shared:
            out += self.complete(d + 1)
        self.scope = outer
        self.groups = groups
        return out

    def l_footnote(self, d):
        n = self.unused(self.V["fnames"], self.scope["f"])
        if not n:
            return []
        if self.r.random() < .12:
            return self.blk(d, self.arglist([("footnote", n), ("engine", self.pick(["raw", "source"]))]), [self.code() for _ in range(self.many(4))])
        return self.blk(d, self.arglist([("footnote", n)]), self.inner(d, False, 3))

    def l_group(self, d):
        n = self.unused([(g, p) for g in self.V["groups"] for p in self.V["positions"]], self.groups)
        if not n:
            return []
        ex = [("group", n[0]), ("position", n[1])]
        if self.r.random() < .08:
            return self.blk(d, self.arglist(ex + [("engine", self.pick(["raw", "source"]))]), [self.code() for _ in range(self.many(4))])
        if self.odd():
            ex.append(("isolate", "false"))
        return self.blk(d, self.arglist(ex), self.inner(d, ex[-1][1] == "false", 3))

    def inc(self, kind, q):
        a = self.margs(*q)
        extra = self.arglist() if self.r.random() < .2 else ""
        if a and self.r.random() < .7:
            if extra and "=" not in a:
                a = a + "," + extra
            return [f"<< {kind}:{a}"]
        return ["[" + a + "]", f"<< {kind}"] if a else [f"<< {kind}" if not self.odd() else f"<<{kind}:"]

    def l_toc(self, d):
        return self.inc("toc", [("x", self.maybe(lambda: "y", .2))])

    def l_footnotes(self, d):
        return self.inc("footnotes", [])

    def l_blockgroup(self, d):
        n = self.pick(sorted(self.groups))[0] if self.groups and not self.odd() else self.pick(self.V["groups"])
        out = []
        if not any(g == n for g, _ in self.groups) and not self.odd():
            self.groups.add((n, "left"))
            out = self.blk(d, f"group={self.q(n, True)},position=left", [self.pick(self.V["words"])])
        return out + self.inc("blockgroup", [("group", n)])

    def l_incmau(self, d):
        out = self.inc("mau", [("uri", self.pick(self.V["files"][:2]) if not self.odd() else self.pick(["no.mau", "main.mau", "raw.txt"]))])
        if self.r.random() < .3 and ":" in out[-1]:
            out[-1] += ",".join([""] + [self.pick(["call:a=cv", "call:k.x=cw", "call:b=\"\"", "call:a= z", "pass_environment=false", "pass_environment=no", "pass_environment=True", "k=v"]) for _ in range(2)])
        return out

    def l_incraw(self, d):
        return self.inc("raw", [("uri", self.pick(self.V["files"]) if not self.odd() else "no.txt")])

    def l_image(self, d):
        return self.inc("image", [("uri", self.pick(self.V["images"])), ("alt_text", self.maybe(lambda: self.pick(self.V["alts"]))),
                                  ("classes", self.maybe(lambda: ",".join(self.r.sample(self.V["classes"], 2))))])

    def l_include(self, d):
        return self.inc(self.pick(self.V["types"]), [(self.pick(self.V["keys"]), self.pick(self.V["avalues"]))])

    CODE = ["def f():", "x = 1 :1:", "y:2:", "z:@:", "w:@add:", "v:@+:", "", "  ind", "= h", "* li", "{a} [link](x)",
            "// no", "foo::", "a:b", ":::", "`v` _s_", "<< toc", "::", "t|1|", "t|@x|", "u##3##", "q:@@:", "s:@q:", "s:@-:", "s:@hs:"]

    # lines with a character that the checks replace
    SPECIAL = ["a\ue000b", "\ue000", "\ue000x = 1 :1:", "y\ue000 \ue000z", "  \ue000 a", "a\ue000", "t \ue000"]

    def code(self):
        return self.pick(self.SPECIAL if self.r.random() * 100 < self.p["special"] else self.CODE)

    def l_source(self, d):
        ex = []
        eng = self.pick(["engine=source", "@source"])
        un = []
        if eng == "@source":
            un = ["@source"] + (["python"] if self.r.random() < .5 else [])
        else:
            ex.append(("engine", "source"))
            if self.r.random() < .5:
                ex.append(("language", "c"))
        if self.r.random() < .3:
            ex.append(("marker_delimiter", self.pick(["|", "##", ":"])))
        if self.r.random() < .2:
            ex.append(("highlight_marker", self.pick(["@", "@@", "h"])))
        if self.r.random() < .2:
            ex.append(("highlight_default_style", self.pick(["hs", "+", "x", "q", "default"])))
        if self.odd():
            ex.append(self.pick([("classes", '"c1"'), ("footnote", "f1"), ("group", "g1"), ("k", "v")]))
        a = ",".join(un + [f"{k}={v}" for k, v in ex])
        return self.blk(d, a, [self.code() for _ in range(self.many(5))])

    def l_raw(self, d):
        return self.blk(d, "engine=raw" + self.pick(["", ",k=v", ',classes="c1,c2"']),
                        [self.code() for _ in range(self.many(4))])

    JUNK = ["=", "==", "= ", "==  ", "*", "* ", "# ", "#", "[", "]", "[]", "[ ]", "<<", "<< ", "<<:x", ":", "::", ":a", "@",
            "@ if", ".", ". ", "..", "/", "////", "---", "----", "--- ", "-----", "++++ ", " = x", "  x", " * ", "**", "*a",
            "#a b", "@if", "@if ", ":a b:c", "[x] ", "<< a b", "<< mau", "<< raw:", "<< image", "<< mau:uri=", "<< blockgroup",
            ":+a:", ":-b:x", "-", "<", "éé", "====", "****", "[[a]]", "x  ", "  "]

    def l_junk(self, d):
        return [self.pick(self.JUNK)]

    # ------------------------------------------------------------ a case
    def case(self):
        r = self.r
        ev = []
        for n in dict.fromkeys(self.V["names"][:4]):
            if r.random() < .4:
                ev.append([n, self.pick([v for v in self.V["values"] if "{" not in v])])
                self.defs.append(n)
        if r.random() < .3:
            self.aliases.append(["al", [["k", "av"], ["m", "am"]][: r.randrange(3)], ["l", "k2"][: r.randrange(3)], self.pick(["", "asub"])])
        env_defs = list(self.defs)
        files = []
        for f in self.V["files"][:2]:
            if r.random() < .95:
                g = Gen(r.random(), self.V, **dict(self.p, maxlines=3))
                g.defs = list(env_defs)
                g.p["incmau"] = self.p["incmau"] / 2
                files.append([f, "\n".join(g.lines(0) + g.complete(0))])
        if r.random() < .95:
            files.append(["raw.txt", "\n".join(self.code() for _ in range(r.randrange(4)))])
        t = "\n".join(self.lines() + self.complete(0))
        if r.random() < .3:
            t += "\n"
        case = {"t": t, "v": ev, "al": self.aliases, "f": files}
        # what a configuration can say
        if r.random() < .1:
            case["st"] = [[k, self.pick(STYLES)] for k in r.sample(STYLES, r.choice([1, 2]))]
        if r.random() < .05:
            case["al"] = self.aliases + [["source", self.pick([[], [["k", "av"]], [["engine", "raw"]], [["language", "c"], ["k", "v"]]]), self.pick([[], ["language"], ["k"]]), self.pick(["", "ssub"])]]
        if r.random() < .05:
            case["hid"] = "H"
        if r.random() < .05:
            case["fid"] = "F-"
        # values that are not text: conditions never hold for them (a known finding)
        if ev and r.random() * 100 < self.p["native"] and not any("if" in x for x in [t] + [f[1] for f in files]):
            case["nat"] = True
            case["v"] = [[n, self.pick(NATIVE) if r.random() < .6 else v] for n, v in ev]
        return case


def cases(seed, n, **profile):
    return [Gen(f"{seed}/{j}", **profile).case() for j in range(n)]


def tail(r):
    """Many things of some kinds, one after the other."""
    out = []
    names = [f"z{j}" for j in range(1, r.randrange(11, 15))]
    for kind in r.sample(["footnote", "header", "group", "list", "source", "labels", "arguments", "class"], 3):
        q = r.sample(names, len(names))
        if kind == "footnote":
            for x in q:
                out += [f"[footnote={x}]", "----", f"F {x}", "----"]
            out += [" ".join(f"[footnote]({x})" for x in r.sample(names, len(names))), "", "<< footnotes"]
        elif kind == "header":
            for x in q:
                out += [f"[name={x}]", "=" * r.randrange(1, 5) + f" H {x}"]
            out += ["", " ".join(f"[header]({x})" for x in r.sample(names, len(names))), "", "<< toc"]
        elif kind == "group":
            for x in q:
                out += [f"[group=z,position={x}]", "----", f"G {x}", "----"]
            out += ["", "<< blockgroup:z"]
        elif kind == "list":
            out += ["", *(r.choice("#*") * r.randrange(1, 12) + f" {x}" for x in q), ""]
        elif kind == "source":
            out += ["[engine=source]", "----", *(f"c{x}:@+:" if r.random() < .3 else f"c:{x}:" if r.random() < .5 else f"c {x}" for x in q), "----"]
        elif kind == "labels":
            out += [*(f".{x} l {x}" for x in q), "labelled", ""]
        elif kind == "arguments":
            out += ["[" + ",".join([*q, *(f"#t{x}" for x in q), *(f"{x}={x}" for x in q)]) + "]", "with arguments", ""]
        else:
            out += ["[class](" + ",".join(["text", *q]) + ")", ""]
    if r.random() < .3:
        out = [r.choice(["[isolate=false]", "[k=v]", "[footnote=zz]", "[group=zz,position=p]"]), "++++", *out, "++++", r.choice(["", "[footnote](zz)", "<< toc"])]
    return "\n" + "\n".join(out)


def large_cases(seed, n, **profile):
    """Documents with many things of the same kind."""
    out = []
    for j in range(n):
        if j % 2:
            c = Gen(f"large {seed}/{j}", **{**profile, "maxlines": 3, "odd": .1, "missing": 0, "clash": 0, "undefined": 0, "junk": 0, "broken": 0, "mcomment": 0}).case()
            c["t"] += "\n" + tail(random.Random(f"tail {seed}/{j}"))
            out.append(c)
            continue
        g = Gen(f"large {seed}/{j}", **{**dict(maxlines=45, odd=.3, missing=0, clash=0, undefined=0, depth=1, junk=0, broken=0, mcomment=0, incmau=.2), **profile})
        out.append(g.large(g.r.choice([9, 10, 11, 12, 13])).case())
    return out


SNIPPETS = ["[", "]", "(", ")", "{", "}", "\"", ",", "=", ":", "@", "@if ", "<< ", "----", "\n", "\n\n", "\\", "`", "_", "*", "#", "$", "%",
            "](", "[if:", "==", "!=", "////", ".", " ", "{a}", "[link](", "\n* ", "\n= ", "\u00e9"]


def mutate(r, text):
    """The text with a few random edits."""
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        n = len(text)
        i = r.randrange(n + 1)
        j = min(n, i + r.choice([1, 1, 2, 5, 12]))
        k = r.randrange(5)
        if k == 0:
            text = text[:i] + text[j:]
        elif k == 1:
            text = text[:i] + r.choice(SNIPPETS if r.random() < .85 else repowords.words()) + text[i:]
        elif k == 2:
            text = text[:i] + r.choice(SNIPPETS) + text[j:]
        elif k == 3:
            text = text[:j] + text[i:]
        else:
            text = text[:i] if r.random() < .3 else text[:i] + text[i:j][::-1] + text[j:]
    return text


def mutants(seed, n, **profile):
    """Random documents with random edits (in the files too)."""
    out = []
    for j in range(n):
        c = Gen(f"{seed}/{j}", **profile).case()
        r = random.Random(f"mutate {seed}/{j}")
        c["t"] = mutate(r, c["t"])
        if r.random() < .2:
            c["f"] = [[f, mutate(r, x)] for f, x in c["f"]]
        out.append(c)
    return out


if __name__ == "__main__":
    import sys
    for c in cases(sys.argv[1], int(sys.argv[2])):
        print(c["t"])
        print("=" * 30, c["v"], c["al"])
