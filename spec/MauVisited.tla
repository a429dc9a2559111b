------------------------------- MODULE MauVisited -------------------------------
(* Operators on the visited document: <<kind, fields, arguments, groups,      *)
(* context>>.                                                                 *)
EXTENDS MauExplore

VDoc == Outcome(S).d[1]
Top == VDoc[4][1]
VKind(n) == n[1]
VField(n, j) == n[2][j]
VGroup(n, j) == n[4][j]
(* All the nodes below, in order, itself included. *)
RECURSIVE VAll(_)
VAll(q) == IF q = <<>> THEN <<>>
           ELSE <<q[1]>> \o VAll(FlattenSeq(q[1][4])) \o VAll(Tail(q))
VOf(q, k) == LET f(n) == n[1] = k IN SelectSeq(VAll(q), f)
RECURSIVE VText(_)
VText(q) == IF q = <<>> THEN ""
            ELSE (CASE q[1][1] \in {"text", "verbatim"} -> q[1][2][1]
                    [] q[1][1] = "macro-header" -> VText(q[1][4][2])
                    [] q[1][1] = "macro-footnote" -> ""
                    [] OTHER -> VText(FlattenSeq(q[1][4]))) \o VText(Tail(q))
NoCtx(n) == <<n[1], n[2]>>
(* A node without the positions. *)
RECURSIVE VBare(_)
VBare(n) == <<n[1], n[2], n[3], [j \in 1..Len(n[4]) |-> [k \in 1..Len(n[4][j]) |-> VBare(n[4][j][k])]]>>
=================================================================================
