-------------------------------- MODULE MauDoc --------------------------------
(* The processing of a document as a machine. Each step processes one        *)
(* construct of the document, of a block or of an included file; blocks and  *)
(* included files are frames of a stack.                                     *)
(*                                                                           *)
(* A frame is the processing of one text:                                    *)
(*   kind    "doc", "block" or "mau"                                         *)
(*   id, sc  number of the frame; number of the frame its headers, links and *)
(*           footnotes belong to (its own number when it is isolated)        *)
(*   toks, i the tokens and the position of the next one                     *)
(*   nodes   the nodes produced so far                                       *)
(*   args, labels, ctl  what is waiting for the next node                    *)
(*   file, forb  the file, and those that cannot be included                 *)
(*   E       variables, aliases, styles                                      *)
(*   li      number for the next list with start=auto                        *)
(*   heads, names, links, fnm, bodies  headers, names of headers, links to   *)
(*           headers, mentions of footnotes, definitions of footnotes        *)
(*   groups, gnodes  blocks of groups, and nodes that render groups          *)
(*   node, fn, gr, gp, np  what the parent frame does with the result        *)
(*                                                                           *)
(* A state is [fr: the stack, T: for each frame the final headers, footnotes *)
(* and groups, st: "run", "done" or "fail", out: nodes, err, used: files     *)
(* that were read].                                                          *)
EXTENDS MauDocLexer, MauInline

CONSTANTS MainFile     \* the name of the document

NoVars == [x \in {} |-> ""]
DefaultAliases == << [n |-> "source", args |-> << <<"engine", "source">> >>, names |-> <<"language">>, sub |-> ""] >>
DefaultStyles == << <<"+", "add">>, <<"-", "remove">>, <<"!", "important">>, <<"x", "error">> >>
(* An environment with the given variables, aliases and files. *)
(* Configured aliases complete the default one, or replace what it says.     *)
WithDefault(aliases) ==
  LET own(a) == a.n = "source"
      other(a) == a.n # "source"
      q == SelectSeq(aliases, own)
      engine(x) == x[1] = "engine"
      d == DefaultAliases[1]
  IN (IF q = <<>> THEN << d >>
      ELSE << [q[1] EXCEPT !.args = IF SelectSeq(@, engine) = <<>> THEN @ \o d.args ELSE @] >>) \o SelectSeq(aliases, other)
(* styles: the configured aliases of styles; hid, fid: what the configured    *)
(* functions for the ids of headers and footnotes put before them, "" when    *)
(* there is no function.                                                      *)
MakeConfEnv(vars, aliases, files, styles, hid, fid) ==
  [vars |-> vars, aliases |-> WithDefault(aliases), styles |-> styles \o DefaultStyles, sc |-> 0, files |-> files,
   hid |-> hid, fid |-> fid, conf |-> << aliases, styles, hid, fid >>]
MakeEnv(vars, aliases, files) == MakeConfEnv(vars, aliases, files, <<>>, "", "")
EmptyEnv(E) == [E EXCEPT !.vars = NoVars, !.aliases = DefaultAliases, !.styles = DefaultStyles, !.hid = "", !.fid = ""]

Frame(kind, id, sc, toks, file, forb, E) ==
  [kind |-> kind, id |-> id, sc |-> sc, toks |-> toks, i |-> 1, nodes |-> <<>>,
   args |-> <<>>, labels |-> <<>>, ctl |-> <<>>, file |-> file, forb |-> forb, E |-> [E EXCEPT !.sc = sc],
   li |-> 1, heads |-> <<>>, links |-> <<>>, fnm |-> <<>>, bodies |-> <<>>,
   groups |-> <<>>, gnodes |-> <<>>, node |-> <<>>, fn |-> "", gr |-> "", gp |-> ""]
NoTable == [heads |-> <<>>, foots |-> <<>>, groups |-> <<>>, fid |-> ""]

InitState(text, E) ==
  LET lx == Lex(text, 0)
  IN IF lx.ok
     THEN [fr |-> << Frame("doc", 1, 1, lx.toks, MainFile, <<>>, E) >>, T |-> << NoTable >>,
           st |-> "run", out |-> <<>>, err |-> NoErr, used |-> <<>>, calls |-> <<>>, vars |-> NoVars]
     ELSE [fr |-> <<>>, T |-> <<>>, st |-> "fail", out |-> <<>>, err |-> LErr(lx.line, lx.col), used |-> <<>>, calls |-> <<>>, vars |-> NoVars]

Cur(S) == Last(S.fr)
CurTok(S) == At(Cur(S).toks, Cur(S).i)
FailWith(S, e) == [S EXCEPT !.st = "fail", !.err = e, !.fr = <<>>, !.T = <<>>]
SetCur(S, f) == [S EXCEPT !.fr[Len(S.fr)] = f]
Peek(f, d) == At(f.toks, f.i + d)
Start(t) == <<t.p[1], t.p[2]>>

(* The text of a construct: variables are replaced, then the text is parsed. *)
ParseText(f, t) ==
  LET v == Preprocess(t.v, Start(t), f.E)
  IN IF IsErr(v.err) THEN Raise(v.err) ELSE TextParse(v.v, Start(t), f.E)
(* What was found in the text is registered in the frame. *)
Register(f, r) == [f EXCEPT !.fnm = @ \o r.fm, !.links = @ \o r.hl]

ArgsOf(f) == IF f.args = <<>> THEN NoNodeArgs ELSE f.args[1]
(* Complete a node with arguments and labels; nothing is waiting any more.   *)
Dress(f, node, na) == [node EXCEPT !.g = na, !.l = f.labels]
Bare(f) == [f EXCEPT !.args = <<>>, !.labels = <<>>]
Save(f, node, na) == [Bare(f) EXCEPT !.nodes = Append(@, Dress(f, node, na))]

(* The waiting control. Result: [err, out]; the construct is out when the    *)
(* control is false.                                                         *)
Control(f) ==
  IF f.ctl = <<>> THEN [err |-> NoErr, out |-> FALSE]
  ELSE IF ~EnvHas(f.E, f.ctl[1].var) THEN [err |-> PErr(f.ctl[1].p), out |-> FALSE]
  ELSE [err |-> NoErr, out |-> ~CondTrue(f.ctl[1], f.E)]

(* n tokens are consumed; K(f) is the frame after a construct that is not    *)
(* excluded, or the error.                                                   *)
Go(S, f) == SetCur(S, f)
Skip(f, n) == [f EXCEPT !.i = @ + n]
Excluded(f, n) == [Bare(Skip(f, n)) EXCEPT !.ctl = <<>>]
Included(f, n) == [Skip(f, n) EXCEPT !.ctl = <<>>]

CtxOf(nodes, default) == IF nodes = <<>> THEN default ELSE Merge(nodes[1].p, Last(nodes).p)

(***************************** Single lines *******************************)
EolStep(S) == Go(S, Skip(Cur(S), 1))

RuleStep(S) ==
  LET f == Cur(S)
      c == Control(f)
  IN IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.out THEN Go(S, Excluded(f, 1))
     ELSE LET g == Included(f, 1)
          IN Go(S, Save(g, Node("horizontal-rule", <<>>, <<>>, CurTok(S).p), ArgsOf(g)))

VariableStep(S) ==
  LET f     == Cur(S)
      name  == Peek(f, 1).v
      colon == Peek(f, 2).t = "LITERAL"
      more  == Peek(f, 3).t = "TEXT" /\ Peek(f, 3).p[1] = CurTok(S).p[1]
      flag  == SubSeq(name, 1, 1)
      isflag == flag \in {"+", "-"}
      pre   == IF more /\ ~isflag THEN Preprocess(Peek(f, 3).v, Start(CurTok(S)), f.E)
               ELSE [v |-> IF flag = "+" THEN "true" ELSE IF flag = "-" THEN "false" ELSE "", err |-> NoErr]
      real  == IF isflag THEN From(name, 2) ELSE name
  IN IF ~colon THEN FailWith(S, PErr(CurTok(S).p))
     ELSE IF IsErr(pre.err) THEN FailWith(S, pre.err)
     ELSE IF pre.v = "" THEN FailWith(S, PErr(CurTok(S).p))
     ELSE Go(S, [Skip(f, IF more THEN 4 ELSE 3) EXCEPT !.E = EnvSet(@, real, pre.v)])

RECURSIVE PutLabel(_, _, _)
PutLabel(ls, l, j) ==
  IF j > Len(ls) THEN Append(ls, l)
  ELSE IF ls[j].r = l.r THEN [ls EXCEPT ![j] = l] ELSE PutLabel(ls, l, j + 1)

LabelStep(S) ==
  LET f    == Cur(S)
      role == IF CurTok(S).v = "." THEN "title" ELSE From(CurTok(S).v, 2)
      r    == ParseText(f, Peek(f, 1))
  IN IF IsErr(r.err) THEN FailWith(S, r.err)
     ELSE Go(S, [Register(Skip(f, 2), r) EXCEPT !.labels = PutLabel(@, [r |-> role, c |-> r.n], 1)])

ControlStep(S) ==
  LET f == Cur(S)
      t == Peek(f, 2)
      v == Preprocess(t.v, Start(t), f.E)
      c == ParseCond(v.v, Start(t))
  IN IF IsErr(v.err) THEN FailWith(S, v.err)
     ELSE IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.var = "" \/ Peek(f, 1).v # "if" THEN FailWith(S, PErr(CurTok(S).p))
     ELSE Go(S, [Skip(f, 3) EXCEPT !.ctl = << [var |-> c.var, op |-> c.op, val |-> c.val, p |-> CurTok(S).p] >>])

(* Arguments in a line, after the replacement of variables. *)
LineArgs(f, t) ==
  LET v == Preprocess(t.v, Start(t), f.E)
  IN IF IsErr(v.err) THEN [a |-> NoArgs, err |-> v.err] ELSE ParseArgs(v.v, Start(t), f.E)

ArgumentsStep(S) ==
  LET f == Cur(S)
      a == LineArgs(f, Peek(f, 1))
  IN IF IsErr(a.err) THEN FailWith(S, a.err)
     ELSE Go(S, [Skip(f, 3) EXCEPT !.args = << NodeArgs(a.a) >>])

(***************************** Headers ************************************)
RECURSIVE PlainText(_)
PlainText(nodes) ==
  IF nodes = <<>> THEN ""
  ELSE LET n == nodes[1]
           t == CASE n.k \in {"text", "verbatim", "macro-unicode", "macro-raw"} -> n.a[1]
                  [] n.k \in {"style", "macro-link", "macro-class", "macro-header"} -> PlainText(n.c)
                  [] OTHER -> ""
       IN t \o PlainText(SubSeq(nodes, 2, Len(nodes)))

HasHeader(heads, name) == \E j \in 1..Len(heads) : heads[j].a[3] = name
NamedHeader(heads, name) == heads[CHOOSE j \in 1..Len(heads) : heads[j].a[3] = name]

(* The id is given, or is a function of level and text: "?level text". *)
HeaderStep(S) ==
  LET f  == Cur(S)
      t  == CurTok(S)
      c  == Control(f)
      g  == Included(f, 2)
      r  == ParseText(f, Peek(f, 1))
      na == ArgsOf(f)
      level == ToString(Len(t.v))
      id   == IF NaHas(na, "internal_id") THEN "+" \o NaGet(na, "internal_id", "")
              ELSE IF f.E.hid # "" THEN "+" \o f.E.hid \o level \o ":" \o PlainText(r.n)
              ELSE "?" \o level \o " " \o PlainText(r.n)
      name == IF NaHas(na, "name") THEN "+" \o NaGet(na, "name", "") ELSE NoText
      node == Node("header", <<level, id, name>>, r.n, Merge(t.p, CtxOf(r.n, Peek(f, 1).p)))
      full == Dress(f, node, NaDel(NaDel(na, "internal_id"), "name"))
      linked == name \notin {NoText, "+"}
  IN IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.out THEN Go(S, Excluded(f, 2))
     ELSE IF IsErr(r.err) THEN FailWith(S, r.err)
     ELSE IF linked /\ HasHeader(f.heads, name) THEN FailWith(S, PErr(node.p))
     ELSE Go(S, [Register(Bare(g), r) EXCEPT !.heads = Append(@, full), !.nodes = Append(@, full)])

(***************************** Paragraphs *********************************)
RECURSIVE CountText(_, _)
CountText(f, n) == IF Peek(f, n).t = "TEXT" THEN CountText(f, n + 1) ELSE n

RECURSIVE ParagraphLines(_, _, _, _)
ParagraphLines(f, j, n, acc) ==
  IF j = n THEN acc
  ELSE LET t == Peek(f, j)
           r == ParseText(f, t)
       IN IF IsErr(r.err) THEN r
          ELSE ParagraphLines(f, j + 1, n,
                 [acc EXCEPT !.n = Append(@, Node("paragraph-line", <<>>, r.n, t.p)),
                             !.fm = @ \o r.fm, !.hl = @ \o r.hl])

ParagraphStep(S) ==
  LET f == Cur(S)
      n == CountText(f, 0)
      c == Control(f)
      r == ParagraphLines(f, 0, n, Yes(<<>>, 0))
      g == Register(Included(f, n), r)
  IN IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.out THEN Go(S, Excluded(f, n))
     ELSE IF IsErr(r.err) THEN FailWith(S, r.err)
     ELSE Go(S, Save(g, Node("paragraph", <<>>, r.n, CtxOf(r.n, Ctx0)), ArgsOf(f)))

(***************************** Lists **************************************)
ListNode(ordered, main, start, c, p) ==
  Node("list", <<IF ordered THEN "ordered" ELSE "unordered", IF main THEN "main" ELSE "nested", start>>, c, p)
Numbered(t) == SubSeq(t.v, 1, 1) = "#"

(* The items of a (sub)list from token i on. Result: [n, i, fm, hl, err].    *)
RECURSIVE ListItems(_, _, _)
RECURSIVE ListMore(_, _, _, _)
ListItem(f, i) ==
  LET t == f.toks[i]
      x == f.toks[i + 1]
      r == ParseText(f, x)
  IN IF IsErr(r.err) THEN r
     ELSE [r EXCEPT !.i = i + 2,
                    !.n = << Node("list-item", <<ToString(Len(t.v))>>, r.n,
                                  Merge(t.p, IF r.n = <<>> THEN x.p ELSE Last(r.n).p)) >>]
Joined(a, b) == [b EXCEPT !.n = a.n \o @, !.fm = a.fm \o @, !.hl = a.hl \o @]
ListItems(f, i, level) ==
  LET r == ListItem(f, i) IN IF IsErr(r.err) THEN r ELSE ListMore(f, r.i, level, r)
ListMore(f, i, level, acc) ==
  LET t == At(f.toks, i)
  IN IF t.t \in {"EOF", "EOL"} THEN [acc EXCEPT !.i = i]
     ELSE IF t.t # "LIST" THEN Raise(PErr(t.p))
     ELSE IF Len(t.v) < level THEN [acc EXCEPT !.i = i]
     ELSE IF Len(t.v) = level
     THEN LET r == ListItem(f, i)
          IN IF IsErr(r.err) THEN r ELSE ListMore(f, r.i, level, Joined(acc, r))
     ELSE LET r == ListItems(f, i, Len(t.v))
              sub == ListNode(Numbered(t), FALSE, "1", r.n, Merge(t.p, Last(r.n).p))
          IN IF IsErr(r.err) THEN r
             ELSE ListMore(f, r.i, level, Joined(acc, [r EXCEPT !.n = <<sub>>]))

RECURSIVE AfterItems(_, _)
AfterItems(f, i) == IF At(f.toks, i).t = "LIST" THEN AfterItems(f, i + 2) ELSE i

ListStep(S) ==
  LET f  == Cur(S)
      t  == CurTok(S)
      c  == Control(f)
      e  == AfterItems(f, f.i)
      r  == ListItems(f, f.i, Len(t.v))
      na == ArgsOf(f)
      s0 == NaGet(na, "start", "1")
      start == IF s0 = "auto" THEN f.li ELSE ToNum(s0)
      item(n) == n.k = "list-item"
      own  == Len(SelectSeq(r.n, item))
      node == ListNode(Numbered(t), TRUE, ToString(start), r.n, CtxOf(r.n, Ctx0))
      g  == Register([Included(f, 0) EXCEPT !.i = r.i, !.li = IF Numbered(t) THEN start + own ELSE @], r)
  IN IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.out
     THEN IF At(f.toks, e).t \in {"EOF", "EOL"} THEN Go(S, Excluded(f, e - f.i)) ELSE FailWith(S, PErr(t.p))
     ELSE IF IsErr(r.err) THEN FailWith(S, r.err)
     ELSE IF start = NaN THEN FailWith(S, PErr(r.n[1].p))
     ELSE Go(S, Save(g, node, na))

(***************************** Blocks *************************************)
Classes(s) == IF s = "" THEN <<>> ELSE Split(s, ",")

RawLines(v, p) ==
  LET q == Split(v, "\n")
  IN [j \in 1..Len(q) |-> Node("raw-line", <<q[j]>>, <<>>, <<p[1] + j - 1, p[2], p[1] + j - 1, p[2] + Len(q[j])>>)]

(* The last part of a line of code is a marker when it is between two        *)
(* delimiters. Result: the position of the first delimiter, 0 if none.       *)
RECURSIVE LastFind(_, _, _)
LastFind(s, d, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i + Len(d) - 1) = d THEN i ELSE LastFind(s, d, i - 1)

StyleOf(E, s) == IF \E j \in 1..Len(E.styles) : E.styles[j][1] = s
                 THEN E.styles[CHOOSE j \in 1..Len(E.styles) : E.styles[j][1] = s][2] ELSE s

(* Python's split finds the delimiters from the left; the marker is what is  *)
(* after the last one it finds.                                              *)
SourceLine(v, j, p, d, hl, default, E) ==
  LET l     == p[1] + j - 1
      n     == ToString(j)
      plain == Node("source-line", <<n, v, NoText>>, <<>>, <<l, p[2], l, p[2] + Len(v)>>)
      body  == SubSeq(v, 1, Len(v) - Len(d))
      parts == Split(body, d)
      mark  == Last(parts)
      text  == SubSeq(body, 1, Len(body) - Len(mark) - Len(d))
      style == LET s == RemovePrefix(mark, hl) IN StyleOf(E, IF s = "" THEN default ELSE s)
      node  == Node("source-marker", <<mark>>, <<>>, <<l, p[2] + Len(text), l, p[2] + Len(v)>>)
  IN IF d = "" \/ ~EndsWith(v, d) THEN plain
     ELSE IF Len(parts) < 2 \/ mark = "" THEN plain
     ELSE IF StartsWith(mark, hl) THEN [plain EXCEPT !.a = <<n, text, SomeText(style)>>]
     ELSE Node("source-line", <<n, text, NoText>>, <<node>>, <<l, p[2], l, p[2] + Len(text)>>)

SourceLines(v, p, na, E) ==
  LET q == Split(v, "\n")
      d == NaGet(na, "marker_delimiter", ":")
      h == NaGet(na, "highlight_marker", "@")
      s == NaGet(na, "highlight_default_style", "default")
  IN [j \in 1..Len(q) |-> SourceLine(q[j], j, p, d, h, s, E)]

(* A finished block: a footnote, a part of a group, or a node.               *)
BlockDone(f, node, fn, gr, gp) ==
  IF fn # ""
  THEN IF \E j \in 1..Len(f.bodies) : f.bodies[j].n = fn THEN [f |-> f, err |-> PErr(node.p)]
       ELSE [f |-> [f EXCEPT !.bodies = Append(@, [n |-> fn, c |-> node.c, p |-> node.p])], err |-> NoErr]
  ELSE IF gr # "" /\ gp # ""
  THEN IF \E j \in 1..Len(f.groups) : f.groups[j].g = gr /\ f.groups[j].pos = gp THEN [f |-> f, err |-> PErr(node.p)]
       ELSE [f |-> [f EXCEPT !.groups = Append(@, [g |-> gr, pos |-> gp, n |-> node])], err |-> NoErr]
  ELSE [f |-> [f EXCEPT !.nodes = Append(@, node)], err |-> NoErr]

(* A new frame, whose result is used by the current one. *)
Enter(S, f, frame) ==
  [SetCur(S, f) EXCEPT !.fr = Append(@, frame), !.T = Append(@, NoTable)]

BlockStep(S) ==
  LET f     == Cur(S)
      t     == CurTok(S)
      full  == Peek(f, 1).t = "TEXT"
      n     == IF full THEN 3 ELSE 2
      p     == Merge(t.p, Peek(f, n - 1).p)
      x     == Peek(f, 1)
      c     == Control(f)
      g     == Included(f, n)
      na0   == ArgsOf(f)
      cls   == Classes(NaGet(na0, "classes", ""))
      eng   == NaGet(na0, "engine", "default")
      na1   == NaDel(NaDel(na0, "classes"), "engine")
      na2   == IF eng = "source" /\ full
               THEN NaSetNames(NaDel(NaDel(NaDel(na1, "marker_delimiter"), "highlight_marker"), "highlight_default_style"), <<"language">>)
               ELSE na1
      lang  == IF full THEN SomeText(NaGet(na2, "language", "text")) ELSE NoText
      na    == IF eng = "source" /\ full THEN NaDel(na2, "language") ELSE na2
      fn    == NaGet(na, "footnote", "")
      gr    == NaGet(na, "group", "")
      gp    == NaGet(na, "position", "")
      base(k, a, ch) == Dress(f, Node(k, a, ch, p), na)
      node  == CASE eng = "default" -> base("block", cls, <<>>)
                 [] eng = "raw"     -> base("raw", cls, IF full THEN RawLines(x.v, x.p) ELSE <<>>)
                 [] eng = "source"  -> base("source", <<lang>> \o cls, IF full THEN SourceLines(x.v, x.p, na1, f.E) ELSE <<>>)
      done  == BlockDone(Bare(g), node, fn, gr, gp)
      lx    == Lex(x.v, x.p[1])
      id    == Len(S.T) + 1
      iso   == NaGet(na, "isolate", "true") # "false"
      frame == [Frame("block", id, IF iso THEN id ELSE f.sc, lx.toks, f.file, f.forb, f.E)
                EXCEPT !.node = <<node>>, !.fn = fn, !.gr = gr, !.gp = gp]
  IN IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.out THEN Go(S, Excluded(f, n))
     ELSE IF eng \notin {"default", "raw", "source"} THEN FailWith(S, PErr(p))
     ELSE IF eng = "default" /\ full
     THEN IF lx.ok THEN Enter(S, Bare(g), frame) ELSE FailWith(S, LErr(lx.line, lx.col))
     ELSE IF IsErr(done.err) THEN FailWith(S, done.err) ELSE Go(S, done.f)

(***************************** Inclusions *********************************)
InSeq(q, x) == \E j \in 1..Len(q) : q[j] = x
AddOnce(q, x) == IF InSeq(q, x) THEN q ELSE Append(q, x)

RECURSIVE AddCalls(_, _, _)
AddCalls(E, nm, j) ==
  IF j > Len(nm) THEN E
  ELSE AddCalls(IF StartsWith(nm[j][1], "call:") THEN EnvSet(E, RemovePrefix(nm[j][1], "call:"), nm[j][2]) ELSE E, nm, j + 1)

IncludeStep(S) ==
  LET f     == Cur(S)
      t     == CurTok(S)
      ct    == Peek(f, 1).v
      p     == Merge(t.p, Peek(f, 1).p)
      colon == Peek(f, 2).t = "LITERAL"
      same  == Peek(f, 3).p[1] = Peek(f, 2).p[1] /\ Peek(f, 3).t = "TEXT"
      n     == IF colon THEN 4 ELSE 2
      c     == Control(f)
      inl   == IF colon THEN LineArgs(f, Peek(f, 3)) ELSE [a |-> NoArgs, err |-> NoErr]
      na0   == IF colon THEN NodeArgs(inl.a) ELSE ArgsOf(f)
      g     == Included(f, n)
      names == CASE ct = "image" -> <<"uri", "alt_text", "classes">>
                 [] ct \in {"mau", "raw"} -> <<"uri">>
                 [] ct = "blockgroup" -> <<"group">>
                 [] OTHER -> <<>>
      na1   == NaSetNames(na0, names)
      get(k) == IF NaHas(na1, k) THEN SomeText(NaGet(na1, k, "")) ELSE NoText
      call(e) == StartsWith(e[1], "call:")
      nocall(e) == ~StartsWith(e[1], "call:")
      na2   == CASE ct = "image" -> NaDel(NaDel(NaDel(na1, "uri"), "alt_text"), "classes")
                 [] ct = "mau"   -> [NaDel(NaDel(na1, "uri"), "pass_environment") EXCEPT !.nm = SelectSeq(@, nocall)]
                 [] ct = "raw"   -> NaDel(na1, "uri")
                 [] ct = "blockgroup" -> NaDel(na1, "group")
                 [] OTHER -> na1
      uri   == NaGet(na1, "uri", "")
      group == NaGet(na1, "group", "")
      fail  == FailWith(S, PErr(p))
      put(node) == Go(S, Save(g, node, na2))
      content == f.E.files[uri]
      rawline(v) == Node("raw-line", <<v>>, <<>>, p)
      lines == Split(content, "\n")
      forb  == AddOnce(f.forb, f.file)
      pass  == NaGet(na1, "pass_environment", "true") = "true"
      E     == AddCalls(IF pass THEN f.E ELSE EmptyEnv(f.E), na1.nm, 1)
      lx    == Lex(content, 0)
      id    == Len(S.T) + 1
      read(U) == [U EXCEPT !.used = Append(@, uri)]
      passed == SelectSeq(na1.nm, call)
      called(U) == [U EXCEPT !.calls = Append(@, << f.file, uri, [j \in 1..Len(passed) |-> << RemovePrefix(passed[j][1], "call:"), passed[j][2] >>], p >>)]
      frame == [Frame("mau", id, id, lx.toks, uri, Append(forb, uri), E)
                EXCEPT !.node = << Dress(f, Node("include-mau", <<uri>>, <<>>, p), na2) >>]
  IN IF colon /\ (f.args # <<>> \/ ~same) THEN fail
     ELSE IF IsErr(c.err) THEN FailWith(S, c.err)
     ELSE IF c.out THEN Go(S, Excluded(f, n))
     ELSE IF IsErr(inl.err) THEN FailWith(S, inl.err)
     ELSE IF ct \in {"image", "mau", "raw"} /\ uri = "" THEN fail
     ELSE IF ct = "image"
     THEN put(Node("include-image", <<uri, get("alt_text")>> \o Classes(NaGet(na1, "classes", "")), <<>>, p))
     ELSE IF ct = "raw"
     THEN IF uri \notin DOMAIN f.E.files THEN fail
          ELSE read(put(Node("include-raw", <<uri>>, [j \in 1..Len(lines) |-> rawline(lines[j])], p)))
     ELSE IF ct = "mau"
     THEN IF InSeq(forb, uri) \/ uri \notin DOMAIN f.E.files THEN fail
          ELSE IF ~lx.ok THEN FailWith(S, LErr(lx.line, lx.col))
          ELSE called(read(Enter(S, Bare(g), frame)))
     ELSE IF ct \in {"toc", "footnotes"} THEN put(NodeS(ct, <<>>, <<>>, p, f.sc))
     ELSE IF ct = "blockgroup"
     THEN IF group = "" THEN fail
          ELSE Go(S, [Save(g, NodeS("blockgroup", <<group>>, <<>>, p, f.id), na2)
                      EXCEPT !.gnodes = Append(@, [n |-> group, p |-> p])])
     ELSE put(Node("include", <<ct>>, <<>>, p))

(***************************** The end of a text **************************)
RECURSIVE FirstBad(_, _, _)
(* The first element of q whose name is not in ok, as an error.              *)
FirstBad(q, ok, j) ==
  IF j > Len(q) THEN NoErr ELSE IF q[j].n \in ok THEN FirstBad(q, ok, j + 1) ELSE PErr(q[j].p)

NamesOf(q) == { q[j].n : j \in 1..Len(q) }
HeaderNames(heads) == { From(heads[j].a[3], 2) : j \in { k \in 1..Len(heads) : heads[k].a[3] \notin {NoText, "+"} } }

(* Errors found at the end of a frame. *)
EndError(f) ==
  LET e1 == FirstBad(f.fnm, NamesOf(f.bodies), 1)
      e2 == FirstBad(f.links, HeaderNames(f.heads), 1)
      e3 == FirstBad(f.gnodes, { f.groups[j].g : j \in 1..Len(f.groups) }, 1)
  IN IF f.sc = f.id /\ IsErr(e1) THEN e1 ELSE IF f.sc = f.id /\ IsErr(e2) THEN e2 ELSE e3

(* What a frame that is not isolated leaves to its parent: [f, err].         *)
RECURSIVE AddBodies(_, _, _)
AddBodies(f, q, j) ==
  IF j > Len(q) THEN [f |-> f, err |-> NoErr]
  ELSE IF q[j].n \in NamesOf(f.bodies) THEN [f |-> f, err |-> PErr(q[j].p)]
  ELSE AddBodies([f EXCEPT !.bodies = Append(@, q[j])], q, j + 1)
RECURSIVE AddHeads(_, _, _)
AddHeads(f, q, j) ==
  IF j > Len(q) THEN [f |-> f, err |-> NoErr]
  ELSE IF q[j].a[3] \notin {NoText, "+"} /\ HasHeader(f.heads, q[j].a[3]) THEN [f |-> f, err |-> PErr(q[j].p)]
  ELSE AddHeads([f EXCEPT !.heads = Append(@, q[j])], q, j + 1)
Absorb(f, g) ==
  LET a == AddBodies([f EXCEPT !.fnm = @ \o g.fnm, !.links = @ \o g.links], g.bodies, 1)
  IN IF IsErr(a.err) THEN a ELSE AddHeads(a.f, g.heads, 1)

EndStep(S) ==
  LET g  == Cur(S)
      e  == EndError(g)
      iso == g.sc = g.id
      T1 == [S.T EXCEPT ![g.id] = [heads |-> IF iso THEN g.heads ELSE <<>>,
                                   foots |-> IF iso THEN g.bodies ELSE <<>>,
                                   groups |-> g.groups,
                                   fid |-> g.E.fid]]
      f0 == S.fr[Len(S.fr) - 1]
      f1 == IF g.kind = "block" THEN [f0 EXCEPT !.E.vars = g.E.vars] ELSE f0
      ab == IF iso THEN [f |-> f1, err |-> NoErr] ELSE Absorb(f1, g)
      node == [g.node[1] EXCEPT !.c = g.nodes]
      bd == BlockDone(ab.f, node, g.fn, g.gr, g.gp)
      S1 == [S EXCEPT !.fr = Front(@), !.T = T1]
  IN IF IsErr(e) THEN FailWith(S, e)
     ELSE IF g.kind = "doc" THEN [S1 EXCEPT !.st = "done", !.out = g.nodes, !.vars = g.E.vars]
     ELSE IF g.kind = "mau" THEN SetCur(S1, [f0 EXCEPT !.nodes = Append(@, node)])
     ELSE IF IsErr(ab.err) THEN FailWith(S, ab.err)
     ELSE IF IsErr(bd.err) THEN FailWith(S, bd.err)
     ELSE SetCur(S1, bd.f)

BadTokenStep(S) == FailWith(S, PErr(CurTok(S).p))

(* The construct that is next. *)
Construct(S) ==
  LET t == CurTok(S).t
  IN CASE t = "EOF" -> "End" [] t = "EOL" -> "Eol" [] t = "HORIZONTAL_RULE" -> "Rule"
       [] t = "VARIABLE" -> "Variable" [] t = "LABEL" -> "Label" [] t = "CONTROL" -> "Control"
       [] t = "ARGUMENTS" -> "Arguments" [] t = "HEADER" -> "Header" [] t = "BLOCK" -> "Block"
       [] t = "INCLUDE" -> "Include" [] t = "LIST" -> "List" [] t = "TEXT" -> "Paragraph"
       [] OTHER -> "BadToken"

StepOf(S, k) ==
  CASE k = "End" -> EndStep(S) [] k = "Eol" -> EolStep(S) [] k = "Rule" -> RuleStep(S)
    [] k = "Variable" -> VariableStep(S) [] k = "Label" -> LabelStep(S) [] k = "Control" -> ControlStep(S)
    [] k = "Arguments" -> ArgumentsStep(S) [] k = "Header" -> HeaderStep(S) [] k = "Block" -> BlockStep(S)
    [] k = "Include" -> IncludeStep(S) [] k = "List" -> ListStep(S) [] k = "Paragraph" -> ParagraphStep(S)
    [] k = "BadToken" -> BadTokenStep(S)

Step(S) == StepOf(S, Construct(S))
RECURSIVE RunFrom(_)
RunFrom(S) == IF S.st = "run" THEN RunFrom(Step(S)) ELSE S
Run(text, E) == RunFrom(InitState(text, E))
================================================================================
