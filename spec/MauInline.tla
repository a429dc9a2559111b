-------------------------------- MODULE MauInline --------------------------------
(* Text inside a line: words, escapes, verbatim, styles, macros.             *)
(*                                                                           *)
(* A node is [k: kind, a: own fields (texts), g: arguments, l: labels        *)
(* (sequence of [r, c, p]), c: children, p: context, s: number of the scope  *)
(* or of the frame it depends on].                                           *)
EXTENDS MauArgs

Node(k, a, c, p) == [k |-> k, a |-> a, g |-> NoNodeArgs, l |-> <<>>, c |-> c, p |-> p, s |-> 0]
NodeS(k, a, c, p, sc) == [Node(k, a, c, p) EXCEPT !.s = sc]

Opt(x) == IF IsVal(x) THEN "+" \o x.v ELSE "-"     \* optional texts
SomeText(v) == "+" \o v
NoText == "-"

TextLits == {"~", "^", "_", "*", "`", "(", ")", "[", "]", "\\", "\"", "$", "%"}
StyleMarks == {"_", "*", "^", "~"}
StyleName(c) == CASE c = "_" -> "underscore" [] c = "*" -> "star" [] c = "^" -> "caret" [] c = "~" -> "tilde"

(* The result of the recursive operators: [ok, n (nodes), i (next token),    *)
(* fm (mentions of footnotes), hl (links to headers), err].                  *)
Nope == [ok |-> FALSE, n |-> <<>>, i |-> 0, fm |-> <<>>, hl |-> <<>>, err |-> NoErr]
Yes(nodes, i) == [ok |-> TRUE, n |-> nodes, i |-> i, fm |-> <<>>, hl |-> <<>>, err |-> NoErr]
Raise(e) == [ok |-> FALSE, n |-> <<>>, i |-> 0, fm |-> <<>>, hl |-> <<>>, err |-> e]

(* Consecutive words are one piece of text. *)
AddWord(nodes, v, p) ==
  IF nodes # <<>> /\ Last(nodes).k = "word"
  THEN Append(Front(nodes), [Last(nodes) EXCEPT !.a = << @[1] \o v >>, !.p = Merge(@, p)])
  ELSE Append(nodes, Node("word", <<v>>, <<>>, p))
WordsToText(nodes) == [j \in 1..Len(nodes) |-> IF nodes[j].k = "word" THEN [nodes[j] EXCEPT !.k = "text"] ELSE nodes[j]]

(* There is a literal v at or after i. *)
RECURSIVE Ahead(_, _, _)
Ahead(toks, i, v) == IF i > Len(toks) THEN FALSE ELSE IF IsLit(toks, i, v) THEN TRUE ELSE Ahead(toks, i + 1, v)

(* The arguments of a macro, up to the closing bracket. Result: [ok, v, from, *)
(* i], where i is the position of the bracket.                               *)
ValueStart(prev) == prev = "" \/ EndsWith(prev, "=") \/ EndsWith(RStrip(prev), ",")
RECURSIVE MacroArgs(_, _, _, _)
MacroArgs(toks, i, prev, from) ==
  IF IsEof(toks, i) THEN [ok |-> FALSE, v |-> "", from |-> 0, i |-> 0]
  ELSE IF IsLit(toks, i, ")") THEN [ok |-> TRUE, v |-> prev, from |-> from, i |-> i]
  ELSE
    LET first == IF from = 0 THEN i ELSE from
    IN IF ValueStart(prev) /\ IsLit(toks, i, "\"")
       THEN LET c == Collect(toks, i + 1, {"\""}, TRUE)
            IN IF IsLit(toks, c.i, "\"") THEN MacroArgs(toks, c.i + 1, prev \o "\"" \o c.v \o "\"", first)
               ELSE [ok |-> FALSE, v |-> "", from |-> 0, i |-> 0]
       ELSE IF IsLit(toks, i, "\\")
       THEN IF IsLit(toks, i + 1, ")")
            THEN MacroArgs(toks, i + 2, prev \o ")", IF from = 0 THEN i + 1 ELSE from)
            ELSE MacroArgs(toks, i + 2, prev \o "\\" \o At(toks, i + 1).v, first)
       ELSE MacroArgs(toks, i + 1, prev \o At(toks, i).v, first)

ArgNames(name) ==
  CASE name = "link"     -> <<"target", "text">>
    [] name = "header"   -> <<"header_id", "text">>
    [] name = "mailto"   -> <<"email", "text">>
    [] name = "image"    -> <<"uri", "alt_text", "width", "height">>
    [] name = "footnote" -> <<"name">>
    [] name = "class"    -> <<"text">>
    [] name = "unicode"  -> <<"value">>
    [] name = "raw"      -> <<"value">>
    [] name = "control"  -> <<"true_case", "false_case">>
Known(name) == name \in {"link", "header", "mailto", "image", "footnote", "class", "unicode", "raw"}

RECURSIVE ParseSent(_, _, _, _, _, _)
RECURSIVE ParseOne(_, _, _, _)
RECURSIVE ParseMacro(_, _, _, _)
RECURSIVE TextParse(_, _, _)

(* The text of an argument, parsed where it stands. *)
ArgText(x, E) == TextParse(x.v, <<x.p[1], x.p[2]>>, E)

(* name: [start, end] of the token of the name; a: the parsed arguments; p:  *)
(* the context of the macro.                                                 *)
ControlMacro(name, np, a0, p, E) ==
  LET parts == Split(name, ":")
      op    == parts[1]
      cb    == << np[1], np[2] + Len(op) + 1 >>
      cond  == ParseCond(parts[2], cb)
      a     == SetNames(a0, ArgNames("control"))
      test  == CondTrue(cond, E)
      res   == NmGet(a.nm, IF test THEN "true_case" ELSE "false_case")
  IN IF Len(parts) # 2 THEN Raise(PErr(p))
     ELSE IF op \notin {"if", "ifeval"} THEN Raise(PErr(p))
     ELSE IF IsErr(cond.err) \/ cond.var = "" THEN Raise(PErr(cb))
     ELSE IF ~NmHas(a.nm, "true_case") THEN Raise(PErr(p))
     ELSE IF ~EnvHas(E, cond.var) THEN Raise(PErr(np))
     ELSE IF op = "if"
     THEN IF IsVal(res) THEN ArgText(res, E) ELSE Yes(<<>>, 0)
     ELSE IF ~IsVal(res) \/ ~EnvHas(E, res.v) THEN Raise(PErr(p))
     ELSE ArgText([res EXCEPT !.v = EnvGet(E, res.v)], E)

(* The node of a macro with known arguments. *)
KnownMacro(name, a0, p, E) ==
  LET names == ArgNames(name)
      a     == SetNames(a0, names)
      get(k) == NmGet(a.nm, k)
      main  == get(names[1])
      text  == IF name = "class" THEN main ELSE get("text")
      inner == IF name \in {"link", "mailto", "header", "class"} /\ IsVal(text) THEN ArgText(text, E)
               ELSE Yes(<<>>, 0)
      own   == << Node("text", <<main.v>>, <<>>, main.p) >>
      content == IF IsVal(text) THEN inner.n ELSE own
      rest  == Texts(a.un)
      node  ==
        CASE name = "link"     -> Node("macro-link", <<main.v>>, content, p)
          [] name = "mailto"   -> Node("macro-link", <<"mailto:" \o main.v>>, content, p)
          [] name = "header"   -> NodeS("macro-header", <<main.v>>, inner.n, p, E.sc)
          [] name = "class"    -> Node("macro-class", rest, inner.n, p)
          [] name = "image"    -> Node("macro-image", <<main.v, Opt(get("alt_text")), Opt(get("width")), Opt(get("height"))>>, <<>>, p)
          [] name = "footnote" -> NodeS("macro-footnote", <<main.v>>, <<>>, p, E.sc)
          [] name = "unicode"  -> Node("macro-unicode", <<main.v>>, <<>>, p)
          [] name = "raw"      -> Node("macro-raw", <<main.v>>, <<>>, p)
  IN IF ~NmHas(a.nm, names[1]) THEN Raise(PErr(p))
     ELSE IF IsErr(inner.err) THEN Raise(inner.err)
     ELSE [inner EXCEPT !.n = <<node>>,
                        !.fm = IF name = "footnote" THEN Append(@, [n |-> main.v, p |-> p]) ELSE @,
                        !.hl = IF name = "header" THEN Append(@, [n |-> main.v, p |-> p]) ELSE @]

ParseMacro(toks, i, b, E) ==
  IF ~(At(toks, i + 1).t = "TEXT" /\ IsLit(toks, i + 2, "]") /\ IsLit(toks, i + 3, "(")) THEN Nope
  ELSE
    LET m    == MacroArgs(toks, i + 4, "", 0)
        name == At(toks, i + 1).v
        p    == RCtx(toks, i, m.i, b)
        ab   == IF m.from = 0 THEN <<0, 0>> ELSE << b[1], b[2] + At(toks, m.from).s >>
        args == ParseArgs(m.v, ab, E)
        r    == IF StartsWith(name, "if") THEN ControlMacro(name, TCtx(toks, i + 1, b), args.a, p, E)
                ELSE IF Known(name) THEN KnownMacro(name, args.a, p, E)
                ELSE Yes(<< [Node("macro", <<name>>, <<>>, p) EXCEPT !.g = NodeArgs(args.a)] >>, 0)
    IN IF ~m.ok THEN Nope
       ELSE IF IsErr(args.err) THEN Raise(args.err)
       ELSE [r EXCEPT !.i = m.i + 1]

(* Text up to the same marker. *)
Paired(toks, i, b, kind) ==
  LET v == At(toks, i).v
      c == Collect(toks, i + 1, {v}, FALSE)
  IN IF IsLit(toks, c.i, v)
     THEN Yes(<< Node(kind, <<c.v>>, <<>>, RCtx(toks, i, c.i, b)) >>, c.i + 1)
     ELSE Nope

(* What follows is parsed as the first of: escaped character, macro,         *)
(* verbatim, escaped text, style, word.                                      *)
ParseOne(toks, i, b, E) ==
  LET t    == At(toks, i)
      lit  == t.t = "LITERAL"
      word == Yes(<< Node("word", <<t.v>>, <<>>, TCtx(toks, i, b)) >>, i + 1)
      r ==
        IF ~lit THEN word
        ELSE CASE t.v = "\\" -> Yes(<< Node("word", <<At(toks, i + 1).v>>, <<>>,
                                         RCtx(toks, i, IF IsEof(toks, i + 1) THEN i ELSE i + 1, b)) >>, i + 2)
               [] t.v = "["  -> ParseMacro(toks, i, b, E)
               [] t.v = "`"  -> Paired(toks, i, b, "verbatim")
               [] t.v \in {"$", "%"} -> Paired(toks, i, b, "text")
               [] t.v \in StyleMarks ->
                    IF ~Ahead(toks, i + 1, t.v) THEN Nope
                    ELSE LET c == ParseSent(toks, i + 1, t.v, b, E, Yes(<<>>, 0))
                         IN IF IsErr(c.err) THEN c
                            ELSE IF IsLit(toks, c.i, t.v)
                            THEN [c EXCEPT !.n = << Node("style", <<StyleName(t.v)>>, c.n, RCtx(toks, i, c.i, b)) >>,
                                           !.i = c.i + 1]
                            ELSE Nope
               [] OTHER -> Nope
  IN IF IsErr(r.err) \/ r.ok THEN r ELSE word

(* A sentence ends at the stop marker (if there is one), or at the end.      *)
ParseSent(toks, i, stop, b, E, acc) ==
  IF IsEof(toks, i) \/ (stop # "" /\ IsLit(toks, i, stop))
  THEN [acc EXCEPT !.n = WordsToText(@), !.i = i]
  ELSE LET r == ParseOne(toks, i, b, E)
       IN IF IsErr(r.err) THEN r
          ELSE ParseSent(toks, r.i, stop, b, E,
                 [acc EXCEPT !.n = IF Len(r.n) = 1 /\ r.n[1].k = "word" THEN AddWord(@, r.n[1].a[1], r.n[1].p) ELSE @ \o r.n,
                             !.fm = @ \o r.fm, !.hl = @ \o r.hl])

TextParse(s, b, E) ==
  LET toks == Tokens(s, TextLits, "each")
      r    == ParseSent(toks, 1, "", b, E, Yes(<<>>, 0))
  IN r
================================================================================
