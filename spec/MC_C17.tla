--------------------------------- MODULE MC_C17 ---------------------------------
(* Blocks are isolated; with isolate=false they are part of the document.     *)
EXTENDS MauVisited

(* constructs whose effect depends on where they are *)
Q == << "= a", "[name=n]\n== b", "[header](n)\n", "x [footnote](f)\n", "[footnote=f]\n!!!!\ny\n!!!!", "[footnote=g]\n!!!!\n* z\n!!!!",
        "<< toc", "<< footnotes", "p {v}\n", ":v:2", "[header](n,t) _[footnote](g)_\n", ". [footnote](f)\n= c [header](n)" >>
NQ == Len(Q)
(* in place; in a block with isolate=false; twice; in an isolated block *)
Wrap(t) == "[isolate=false]\n----\n" \o t \o "\n----"
Wrap2(t) == "[isolate=false]\n----\n[k,isolate=false]\n++++\n" \o t \o "\n++++\n----"
Iso(t) == "----\n" \o t \o "\n----"
P1 == [k \in 1..(3 * NQ) |-> LET t == Q[((k - 1) % NQ) + 1] IN IF k <= NQ THEN t ELSE IF k <= 2 * NQ THEN Wrap(t) ELSE Wrap2(t)]
V1 == Alone(MakeEnv("v" :> "x", <<>>, NoFiles))
Merged == Join([j \in 1..Len(doc) |-> Q[((doc[j] - 1) % NQ) + 1]], "\n")

(* The result without positions, and with the content of the blocks instead   *)
(* of the blocks. *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>>
           ELSE (IF q[1][1] = "block" THEN Flat(q[1][4][1])
                 ELSE << << q[1][1], q[1][2], q[1][3], [j \in 1..Len(q[1][4]) |-> Flat(q[1][4][j])] >> >>) \o Flat(Tail(q))
Result(R) == LET o == Outcome(R) IN CASE o.r = "ok" -> << "ok", Flat(o.d[1][4][1]) >> [] o.r = "empty" -> << "ok", <<>> >> [] OTHER -> << o.r, <<>> >>
SameMerged == (Finished /\ \E j \in 1..Len(doc) : doc[j] > NQ) => Result(S) = Result(Run(Merged, E0))

(* Isolated blocks: the result is the one of the blocks alone, put together.   *)
(* Each piece is in a block, or in the document.                               *)
P2 == [k \in 1..(2 * NQ) |-> LET t == Q[((k - 1) % NQ) + 1] IN IF k <= NQ THEN t ELSE Iso(t)]
(* Each block alone as a document. *)
OutOf(k) == Run(Q[((k - 1) % NQ) + 1], E0)
Inside(k) == LET R == OutOf(k) IN IF R.st = "done" THEN Result(R)[2] ELSE <<>>
Rest == Join([j \in 1..Len(doc) |-> IF doc[j] <= NQ THEN Q[doc[j]] ELSE "----\n----"], "\n")
NoVariables == \A j \in 1..Len(doc) : ((doc[j] - 1) % NQ) + 1 # 10
(* What waits before a block is for the block, in both. *)
BlocksOf(q) == SelectSeq(q, LAMBDA n : n[1] = "block")
Blocks1 == SelectSeq(doc, LAMBDA k : k > NQ)
RECURSIVE NoBlocks(_)
NoBlocks(q) == SelectSeq(q, LAMBDA n : n[1] # "block")
IsoOwn ==
  (Finished /\ NoVariables) =>
     LET R == Run(Rest, E0)
         bad == R.st = "fail" \/ \E j \in 1..Len(Blocks1) : OutOf(Blocks1[j]).st = "fail"
     IN IF bad THEN Failed
        ELSE /\ Succeeded
             /\ S.out # <<>> =>
                  LET b == BlocksOf(Top) IN
                  /\ [j \in 1..Len(b) |-> Flat(b[j][4][1])] = [j \in 1..Len(Blocks1) |-> Inside(Blocks1[j])]
                  /\ Flat(NoBlocks(Top)) = Flat(NoBlocks(Outcome(R).d[1][4][1]))
(* Variables defined in a block are seen after it. *)
=================================================================================
