------------------------------- MODULE MauRender -------------------------------
(* The text produced by a visitor with one template for each kind of node:   *)
(* the template writes all the data of the node; for the kinds in h it writes*)
(* nothing. Children are rendered, one by one and in order, and joined as the*)
(* kind of the node requires, also those that are rendered as nothing.       *)
EXTENDS MauVisit

Order == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank(c) == LET k == FindFrom(Order, c, 1) IN IF k = 0 THEN 1000 ELSE k
RECURSIVE Precedes(_, _)
Precedes(a, b) == IF a = "" \/ b = "" THEN a = "" /\ b # ""
                  ELSE IF Ch(a, 1) = Ch(b, 1) THEN Precedes(From(a, 2), From(b, 2)) ELSE Rank(Ch(a, 1)) < Rank(Ch(b, 1))
(* Pairs <<key, x>> in the order of the keys. *)
RECURSIVE SortPairs(_)
SortPairs(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET k == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : ~Precedes(q[j][1], q[i][1])
       IN << q[k] >> \o SortPairs(SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)))

RArgs(a) ==
  IF a = <<>> THEN "!,,,,"
  ELSE LET kw == SortPairs([j \in 1..Len(a[5]) |-> << a[5][j], a[6][j] >>])
       IN "!" \o Join(a[1], ";") \o "," \o Join(a[2], ";") \o "," \o Join(a[3], ";") \o ","
          \o (IF a[4] = <<>> THEN "" ELSE a[4][1]) \o "," \o Join([j \in 1..Len(kw) |-> kw[j][1] \o "=" \o kw[j][2]], ";")
JoinWith(kind) == CASE kind \in {"document", "source"} -> "\n" [] kind = "paragraph" -> " " [] OTHER -> ""

RFields(n) == LET f == IF n[1] = "header" THEN << n[2][1], n[2][3] >> ELSE n[2]  \* not the id
              IN Join([j \in 1..Len(f) |-> "|" \o f[j]], "")
WithLabels == {"header", "paragraph", "paragraph-line", "list", "block", "raw", "source", "include-mau", "include-raw",
               "footnotes", "toc", "blockgroup", "horizontal-rule", "include", "include-image"}

RECURSIVE Rendered(_, _), RData(_, _), RGroups(_, _, _)
RAll(q, sep, h) == Join(TLCEval([j \in 1..Len(q) |-> Rendered(q[j], h)]), sep)
RLabels(q, h) == LET s == TLCEval(SortPairs(TLCEval([j \in 1..Len(q) |-> << q[j][2][1], q[j] >>])))
              IN Join(TLCEval([j \in 1..Len(s) |-> s[j][1] \o ":" \o Rendered(s[j][2], h)]), "")
RGroups(n, j, h) ==
  IF j > Len(n[4]) THEN ""
  ELSE "(" \o (IF j = Len(n[4]) /\ n[1] \in WithLabels THEN RLabels(n[4][j], h)
               ELSE IF j = 1 /\ n[1] \in {"macro-header", "toc-item", "macro-footnote", "footnotes-item"}
               THEN Join(TLCEval([i \in 1..Len(n[4][j]) |-> RData(n[4][j][i], h)]), "")
               ELSE RAll(n[4][j], JoinWith(n[1]), h)) \o ")" \o RGroups(n, j + 1, h)
Rendered(n, h) == IF n[1] \in h THEN "" ELSE "<" \o n[1] \o RFields(n) \o RArgs(n[3]) \o RGroups(n, 1, h) \o ">"
(* The data of a node that the template receives without rendering it. *)
RData(n, h) == "{" \o n[1] \o RFields(n) \o RArgs(n[3]) \o RGroups(n, 1, h) \o "}"

RenderedWithout(S, h) == LET o == TLCEval(Outcome(S)) IN IF o.r = "ok" THEN Rendered(o.d[1], h) ELSE ""
RenderedOutcome(S) == RenderedWithout(S, {})
================================================================================
