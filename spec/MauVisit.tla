-------------------------------- MODULE MauVisit --------------------------------
(* The result of visiting a processed document: links, mentions of           *)
(* footnotes, tables of contents, lists of footnotes and groups are filled.  *)
(*                                                                           *)
(* A visited node is <<kind, own fields, arguments, groups of children,      *)
(* context>>, where context is <<file, start line, start column, end line,   *)
(* end column>>.                                                             *)
EXTENDS MauDoc

OutArgs(g) ==
  IF g = NoNodeArgs THEN <<>>
  ELSE << g.un, g.tg, g.itg, g.sub, [j \in 1..Len(g.nm) |-> g.nm[j][1]], [j \in 1..Len(g.nm) |-> g.nm[j][2]] >>
OutCtx(p, file) == << IF p = Ctx0 THEN "" ELSE file, p[1], p[2], p[3], p[4] >>

(* cx: [T, file, fz: scopes whose footnotes and links are not connected      *)
(* (copies made for footnotes), deep: headers being visited, cop: headers    *)
(* whose text is being used as the text of a link].                          *)
RECURSIVE Vis(_, _)
VisAll(q, cx) == [j \in 1..Len(q) |-> Vis(q[j], cx)]
VisLabels(n, cx) == [j \in 1..Len(n.l) |-> << "label", <<n.l[j].r>>, <<>>, << VisAll(n.l[j].c, cx) >>, OutCtx(Ctx0, "") >>]

(* The nested entries of a table of contents: each header is a child of the  *)
(* nearest previous header with a smaller level.                             *)
Level(h) == ToNum(h.a[1])
RECURSIVE TocEnd(_, _, _)
TocEnd(heads, i, level) == IF i > Len(heads) THEN i ELSE IF Level(heads[i]) <= level THEN i ELSE TocEnd(heads, i + 1, level)
RECURSIVE TocEntries(_, _, _, _)
TocEntries(heads, i, e, cx) ==
  IF i >= e THEN <<>>
  ELSE LET k == MinI(TocEnd(heads, i + 1, Level(heads[i])), e)
       IN << << "toc-item", <<>>, <<>>, << << Vis(heads[i], cx) >>, TocEntries(heads, i + 1, k, cx) >>, OutCtx(Ctx0, "") >> >>
          \o TocEntries(heads, k, e, cx)

(* Footnote number j of a scope. *)
VisFoot(T, sc, j, cx) ==
  LET b == T[sc].foots[j]
  IN << "footnote", <<b.n, ToString(j), IF T[sc].fid = "" THEN b.n ELSE T[sc].fid \o b.n>>, <<>>, << VisAll(b.c, [cx EXCEPT !.fz = @ \cup {sc}]) >>, OutCtx(Ctx0, "") >>
FootIndex(foots, n) == CHOOSE j \in 1..Len(foots) : foots[j].n = n

Vis(n, cx) ==
  LET out(groups) == << n.k, n.a, OutArgs(n.g), groups, OutCtx(n.p, cx.file) >>
      labels == VisLabels(n, cx)
      open   == n.s \notin cx.fz
  IN CASE n.k \in {"text", "verbatim", "macro", "macro-image", "macro-unicode", "macro-raw", "raw-line", "source-marker"} -> out(<<>>)
       [] n.k \in {"style", "macro-link", "macro-class", "list-item", "source-line"} -> out(<< VisAll(n.c, cx) >>)
       [] n.k = "macro-header" ->
            IF ~open THEN out(<< <<>>, VisAll(n.c, cx) >>)
            ELSE LET h    == NamedHeader(cx.T[n.s].heads, SomeText(n.a[1]))
                     me   == <<n.s, n.a[1]>>
                     seen == me \in cx.deep                       \* the header was visited already
                     top  == IF seen THEN [h EXCEPT !.c = <<>>, !.l = <<>>] ELSE h
                     cy   == [cx EXCEPT !.deep = @ \cup {me}]
                 IN out(<< << Vis(top, [cy EXCEPT !.cop = {}]) >>,
                           IF n.c # <<>> THEN VisAll(n.c, cy)
                           ELSE IF me \in cx.cop THEN <<>>         \* the default text of the link is in itself
                           ELSE VisAll(h.c, [cy EXCEPT !.cop = @ \cup {me}]) >>)
       [] n.k = "macro-footnote" ->
            [out(<< IF open THEN << VisFoot(cx.T, n.s, FootIndex(cx.T[n.s].foots, n.a[1]), cx) >> ELSE <<>> >>) EXCEPT ![2] = <<>>]
       [] n.k = "toc" ->
            LET heads == cx.T[n.s].heads
            IN out(<< VisAll(heads, cx), TocEntries(heads, 1, Len(heads) + 1, cx), labels >>)
       [] n.k = "footnotes" ->
            out(<< [j \in 1..Len(cx.T[n.s].foots) |->
                      << "footnotes-item", <<>>, <<>>, << << VisFoot(cx.T, n.s, j, cx) >> >>, OutCtx(Ctx0, "") >>],
                   labels >>)
       [] n.k = "blockgroup" ->
            LET inGroup(e) == e.g = n.a[1]
                q == SelectSeq(cx.T[n.s].groups, inGroup)
            IN out(<< [j \in 1..Len(q) |->
                        << "blockgroup-item", <<q[j].pos>>, <<>>, << << Vis(q[j].n, cx) >> >>, OutCtx(Ctx0, "") >>],
                      labels >>)
       [] n.k \in {"horizontal-rule", "include", "include-image"} -> out(<< labels >>)
       [] n.k = "include-mau" -> out(<< VisAll(n.c, [cx EXCEPT !.file = n.a[1]]), labels >>)
       [] OTHER -> out(<< VisAll(n.c, cx), labels >>)
          \* header, paragraph, paragraph-line, list, block, raw, source, include-raw

(* The outcome of a run: [r: "ok", "empty", "lexer" or "parser"; l, c:       *)
(* position of the error; d: the document].                                  *)
Outcome(S) ==
  IF S.st = "fail" THEN [r |-> S.err.cls, l |-> S.err.line, c |-> S.err.col, d |-> <<>>]
  ELSE IF S.out = <<>> THEN [r |-> "empty", l |-> 0, c |-> 0, d |-> <<>>]
  ELSE LET cx == [T |-> S.T, file |-> MainFile, fz |-> {}, deep |-> {}, cop |-> {}]
       IN [r |-> "ok", l |-> 0, c |-> 0,
           d |-> << << "document", <<>>, <<>>, << VisAll(S.out, cx) >>,
                       OutCtx(CtxOf(S.out, Ctx0), MainFile) >> >>]
(* What the parser offers besides the document: the table of contents of the  *)
(* document, when there is something in it.                                   *)
TocOf(S) ==
  IF S.out = <<>> THEN <<>>
  ELSE LET cx == [T |-> S.T, file |-> MainFile, fz |-> {}, deep |-> {}, cop |-> {}]
           heads == S.T[1].heads
       IN << << "toc", <<>>, <<>>, << VisAll(heads, cx), TocEntries(heads, 1, Len(heads) + 1, cx), <<>> >>, OutCtx(Ctx0, "") >> >>
================================================================================
