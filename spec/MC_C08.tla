--------------------------------- MODULE MC_C08 ---------------------------------
(* The visible text is the text of the source without what marks it.          *)
EXTENDS MauExplore

P1 == << "a", "b ", "_", "*", "`", "$", "\\" >>
P2 == << "a", "_", "*", "^", "~", "`", "%" >>
P3 == << "a", "_", "*", "`", " ", "[", "]", "(", ")" >>
P5 == << "a", "\\\\\\\\", "\\", "_", "`", "$", "(" >>
P4 == << "_a_", "*", "_", "a", "`_`", " ", "[link](u,", ")", "\\_" >>

(* The document is one paragraph of one line. *)
Line == S.out[1].c[1]
One == Succeeded /\ Len(S.out) = 1 /\ S.out[1].k = "paragraph" /\ Len(S.out[1].c) = 1

RECURSIVE Visible(_)
Visible(q) ==
  IF q = <<>> THEN ""
  ELSE (IF q[1].k \in {"text", "verbatim"} THEN q[1].a[1] ELSE Visible(q[1].c)) \o Visible(Tail(q))
Markers == StyleMarks \cup {"`", "$", "%", "\\"}
HasMacro == \E j \in 1..Len(Line.c) : Line.c[j].k \notin {"text", "verbatim", "style"}
Bare1 == RStrip(Text)
(* Only markers are missing from the visible text, and spaces at the end of   *)
(* the line. *)
NoLinks == OfKind(AllNodes(Line.c), "macro-link") = <<>>
OnlyMarkers == One /\ NoLinks =>
  /\ Without(Visible(Line.c), Markers \cup {" "}, 1) = Without(Text, Markers \cup {" "}, 1)
  /\ LET v == Without(Visible(Line.c), Markers, 1)  t == Without(Text, Markers, 1)
     IN (Ch(Text, Len(Text)) \notin (Markers \cup {" "})) => v = t
(* Each marker that is missing delimits a node. *)
Styles(m) == LET is(n) == n.k = "style" /\ n.a[1] = StyleName(m) IN Len(SelectSeq(AllNodes(Line.c), is))
NoEscapes == ~Contains(Text, "\\") /\ ~Contains(Text, "$") /\ ~Contains(Text, "%")
CountIn(s, m) == CountCh(s, m, 1)
Paired1 ==
  (One /\ NoEscapes /\ NoLinks) =>
    /\ \A m \in StyleMarks : CountIn(Text, m) = CountIn(Visible(Line.c), m) + 2 * Styles(m)
    /\ CountIn(Text, "`") = CountIn(Visible(Line.c), "`") + 2 * Len(OfKind(AllNodes(Line.c), "verbatim"))
(* Two pieces of text next to each other are one node, unless one is escaped. *)
Escaped1(n) == LET s == Span(n.p) IN Len(s) >= 2 /\ Ch(s, 1) \in {"$", "%"} /\ Ch(s, Len(s)) = Ch(s, 1)
Touching(q) == \E j \in 1..(Len(q) - 1) : q[j].k = "text" /\ q[j + 1].k = "text" /\ ~Escaped1(q[j]) /\ ~Escaped1(q[j + 1])
Merged == One => LET q == AllNodes(<<Line>>) IN \A j \in 1..Len(q) : ~Touching(q[j].c)
(* The first marker of a pair is matched by the first one that can close it:  *)
(* there is no style with the same style directly inside.                     *)
NoSameStyle == One => LET q == OfKind(AllNodes(<<Line>>), "style")
                      IN \A j \in 1..Len(q) : \A k \in 1..Len(q[j].c) : q[j].c[k].k = "style" => q[j].c[k].a # q[j].a
=================================================================================
