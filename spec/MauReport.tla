------------------------------- MODULE MauReport -------------------------------
(* What is reported while a document is processed: its tokens, the error, and  *)
(* the nodes that are visited, with messages for those tagged for debugging.  *)
EXTENDS MauVisit

(* The nodes in the order in which their visit ends. The header of a link and  *)
(* of an entry, and the footnote of a mention, are data: only what is inside  *)
(* them is visited.                                                           *)
DataKinds == {"macro-header", "toc-item", "macro-footnote", "footnotes-item"}
RECURSIVE VisitOrder(_), InsideOrder(_, _), OrderAll(_, _)
OrderAll(q, data) == FlattenSeq(TLCEval([j \in 1..Len(q) |-> IF data THEN InsideOrder(q[j], 1) ELSE VisitOrder(q[j])]))
InsideOrder(n, j) == IF j > Len(n[4]) THEN <<>>
                     ELSE OrderAll(n[4][j], j = 1 /\ n[1] \in DataKinds) \o InsideOrder(n, j + 1)
VisitOrder(n) == Append(InsideOrder(n, 1), n)

Tagged(n) == n[3] # <<>> /\ \E j \in 1..Len(n[3][3]) : n[3][3][j] = "debug"
(* [order: kinds and places, tagged: which of them send a message, nodes: what they say] *)
Reports(o) ==
  IF o.r # "ok" THEN [order |-> <<>>, tagged |-> <<>>, nodes |-> <<>>]
  ELSE LET q == TLCEval(VisitOrder(o.d[1]))
           idx == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : Tagged(q[j]))
       IN [order |-> [j \in 1..Len(q) |-> << q[j][1], q[j][5] >>], tagged |-> idx, nodes |-> [j \in 1..Len(idx) |-> q[idx[j]]]]

TokenReport(text) == LET lx == Lex(text, 0) IN IF lx.ok THEN [j \in 1..Len(lx.toks) |-> << lx.toks[j].t, lx.toks[j].v, lx.toks[j].p >>] ELSE <<>>
================================================================================
