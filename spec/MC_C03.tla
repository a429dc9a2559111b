--------------------------------- MODULE MC_C03 ---------------------------------
(* Every node spans the text of the source it comes from. No text of these    *)
(* alphabets contains variables, so that positions are those of the source.   *)
EXTENDS MauExplore

P1 == << "a b", "= H _b_", "* i", "  ** `v` j", "# $k$", "", "---", "// x", "[k]", ".l _m_ n", "<< toc", "<< image:u",
         "----\na\n* b\n\n== c\n++++\n _d_\n++++\n----", "[engine=raw]\n----\nx\n  y\n----", "[engine=source]\n----\nx:1:\ny:@:\n\n----",
         "z [link](u, \"_t_ w\") [class](\"`q` r\",c)" >>
(* a line of text *)
P2 == << "a", " ", "_", "`b`", "$c$", "*", "[link](u,", "[class](\"", "\"", ")", "\\", ",x", "[foo]()" >>
(* macros in macros *)
P3 == << "a", " ", "_b_", "[link](u,", "[class](", ")", ",", "text=", "*" >>

One(p) == p[1] = p[3]
ToEnd(p) == SkipIn(Lines[p[1] + 1], p[4] + 1, {" ", "\\"}) > Len(Lines[p[1] + 1])
Good(n) ==
  CASE n.k = "verbatim" -> Span(n.p) = "`" \o n.a[1] \o "`"
    [] n.k = "style" -> LET s == Span(n.p) IN Len(s) >= 2 /\ Ch(s, 1) = Ch(s, Len(s)) /\ Ch(s, 1) \in StyleMarks
    [] n.k = "text" -> LET s == Span(n.p)
                       IN \/ s = n.a[1] \/ Without(s, {"\\"}, 1) = n.a[1]
                          \/ Len(s) >= 2 /\ Ch(s, 1) = Ch(s, Len(s)) /\ Ch(s, 1) \in {"$", "%"} /\ SubSeq(s, 2, Len(s) - 1) = n.a[1]
    [] n.k \in {"macro-link", "macro-class", "macro"} ->
         LET s == Span(n.p) IN StartsWith(s, "[") /\ EndsWith(s, ")")
    [] n.k = "header" -> StartsWith(Span(n.p), "=") /\ One(n.p) /\ ToEnd(n.p)
    [] n.k = "horizontal-rule" -> Span(n.p) = "---"
    [] n.k = "paragraph-line" -> One(n.p) /\ n.p[2] = 0 /\ n.p[4] = Len(Lines[n.p[1] + 1])
    [] n.k = "paragraph" -> n.p[1] = n.c[1].p[1] /\ n.p[3] = Last(n.c).p[3]
    [] n.k = "list-item" -> One(n.p) /\ Ch(Span(n.p), 1) \in {"*", "#"} /\ ToEnd(n.p)
    [] n.k = "list" -> n.p[1] = n.c[1].p[1] /\ n.p[3] = Last(n.c).p[3]
    [] n.k \in {"raw-line", "source-line"} ->
         StartsWith(Lines[n.p[1] + 1], Last(SubSeq(n.a, 1, IF n.k = "raw-line" THEN 1 ELSE 2))) /\ One(n.p)
    [] n.k = "source-marker" -> Span(n.p) = ":" \o n.a[1] \o ":"
    [] n.k \in {"block", "raw", "source"} -> IsBlockDelim(Lines[n.p[1] + 1]) /\ Lines[n.p[3] + 1] = Lines[n.p[1] + 1] /\ n.p[2] = 0
    [] n.k \in {"toc", "include-image"} -> StartsWith(Span(n.p), "<<")
    [] OTHER -> TRUE
(* An argument whose quotes or escapes were removed spans more than itself. *)
Quoted == \E j \in 1..Len(Lines) : \E c \in {"\"", "\\"} : Contains(Lines[j], c)
Spans == Succeeded => LET q == AllNodes(S.out) IN \A j \in 1..Len(q) : Good(q[j]) \/ (q[j].k \in {"text", "verbatim"} /\ Quoted)
(* The nodes in a sequence are in the order of the source. *)
RECURSIVE Sorted(_)
Sorted(q) ==
  /\ \A j \in 1..(Len(q) - 1) : LET a == q[j].p b == q[j + 1].p IN a[3] < b[1] \/ (a[3] = b[1] /\ a[4] <= b[2])
  /\ \A j \in 1..Len(q) : Sorted(q[j].c)
Ordered == Succeeded => Sorted(S.out)
(* Errors are in the text. *)
ErrorInside == Failed => /\ S.err.line >= 0 /\ S.err.line < Len(Lines)
                         /\ S.err.col >= 0 /\ S.err.col <= Len(Lines[S.err.line + 1])
=================================================================================
