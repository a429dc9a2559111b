------------------------------- MODULE MauParents -------------------------------
(* The parent of each visited node: what holds it in the document, also when  *)
(* the node is a copy. A parent is <<kind, arguments, context, depth>>, the   *)
(* depth being that of the ancestor it is (0: it is no ancestor); <<>> is     *)
(* none; <<kind>> stands for any node of that kind and <<"*">> for any.       *)
EXTENDS MauVisit

Id(n, dep) == << n[1], n[3], n[5], dep >>
AnyNode == << "*" >>
(* The parent of the children of group j of n, at a depth and with parent p.  *)
ChildParent(n, j, p, dep) ==
  CASE n[1] \in {"paragraph-line", "list-item"} -> p          \* the paragraph, the main list
    [] n[1] = "list" /\ j = 1 -> IF n[2][2] = "main" THEN Id(n, dep) ELSE p
    [] n[1] = "include-mau" /\ j = 1 -> << "document" >>      \* that of the file
    [] n[1] = "macro-header" /\ j = 1 -> AnyNode              \* the header is where it is
    [] n[1] = "toc-item" -> IF j = 1 THEN AnyNode ELSE p      \* the table
    [] n[1] \in {"macro-footnote", "footnotes-item"} -> <<>>
    [] n[1] = "blockgroup" /\ j = 1 -> << "blockgroup" >>
    [] OTHER -> Id(n, dep)

(* Headers where they stand: pairs <<context, parent>>.                       *)
RECURSIVE Homes(_, _)
Homes(n, p) ==
  IF n[1] = "header" THEN << << n[5], IF Len(p) = 4 THEN [p EXCEPT ![4] = 0] ELSE p >> >>
  ELSE IF n[1] \notin {"document", "block", "blockgroup", "blockgroup-item", "include-mau"} THEN <<>>
  ELSE FlattenSeq([k \in 1..Len(n[4][1]) |-> Homes(n[4][1][k], ChildParent(n, 1, p, 0))])
Home(hs, n) == LET s == { hs[j][2] : j \in { i \in 1..Len(hs) : hs[i][1] = n[5] } }
               IN IF Cardinality(s) = 1 THEN CHOOSE x \in s : TRUE ELSE AnyNode

(* The parent of a node and of everything below, in order.                    *)
RECURSIVE ParentsOf(_, _, _, _)
ParentsOf(n, p, hs, dep) ==
  << IF p = AnyNode THEN Home(hs, n) ELSE p >>
  \o FlattenSeq([j \in 1..Len(n[4]) |-> FlattenSeq(TLCEval([k \in 1..Len(n[4][j]) |->
                 ParentsOf(n[4][j][k], ChildParent(n, j, p, dep), hs, dep + 1)]))])
Parents(d) == LET hs == TLCEval(Homes(d, <<>>)) IN ParentsOf(d, <<>>, hs, 1)
ParentsOutcome(S) == LET o == TLCEval(Outcome(S)) IN IF o.r = "ok" THEN Parents(o.d[1]) ELSE <<>>
================================================================================
