--------------------------------- MODULE MC_C26 ---------------------------------
(* The messages about a document, and a document that asks for none.          *)
EXTENDS MauExplore, MauReport

P1 == << "[#mau:debug]\n= H\n\n",                                  \* 1
         "a _[foo](#mau:debug)_\n\n",                              \* 2
         "[#mau:debug]\n----\nb [foo](#mau:debug)\n----\n\n",      \* 3
         "[#debug, #mau:debugs]\na\n\n",                           \* 4
         "[#mau:x,#mau:debug,k]\n* i\n** j\n\n",                   \* 5
         ":v:x\n@if v==y\n[#mau:debug]\n---\n\n",                        \* 6
         "[footnote=f]\n----\n[#mau:debug]\n---\n----\n\n",        \* 7
         "b [footnote](f)\n\n",                                    \* 8
         "<< footnotes\n\n",                                       \* 9
         "= G [foo](#mau:debug)\n\n",                              \* 10
         "[#mau:debug]\n<< toc\n\n",                               \* 11
         ".t [foo](#mau:debug)\n[#mau:debug,engine=raw]\n----\nx\n----\n\n",  \* 12
         "{no}\n\n", "----\nx\n\n" >>                              \* errors
V1 == Alone(MakeEnv(<<>>, <<>>, NoFiles))

Rep1 == Reports(Outcome(S))
Times(k) == Cardinality({ j \in 1..Len(doc) : doc[j] = k })
(* How many messages are sent, from the pieces. *)
Count == Succeeded => Len(Rep1.tagged) =
  Times(1) + Times(2) + 2 * Times(3) + Times(5) + (Times(8) + Times(9)) * Times(7) + Times(10) + Times(11) * (1 + Times(1) + 2 * Times(10)) + 2 * Times(12)
Silent == Failed => Rep1.nodes = <<>>
(* Each message is about a node that is somewhere in the text, with the tag.  *)
Truthful == \A j \in 1..Len(Rep1.nodes) : LET n == Rep1.nodes[j] IN
  /\ Tagged(n)
  /\ << n[1], n[5] >> = Rep1.order[Rep1.tagged[j]]
(* The document is the same without messages. *)
RECURSIVE Quiet(_)
Quiet(n) == << n[1], n[2], IF n[3] = <<>> THEN <<>> ELSE [n[3] EXCEPT ![3] = <<>>],
               [g \in 1..Len(n[4]) |-> [j \in 1..Len(n[4][g]) |-> Quiet(n[4][g][j])]], n[5] >>
Other == ReplaceAll(Text, "#mau:debug]", "#mau:other]")
Other2 == ReplaceAll(ReplaceAll(Other, "#mau:debug,", "#mau:other,"), "#mau:debug)", "#mau:other)")
SameQuiet == Finished =>
  LET o == Outcome(S) p == Outcome(Run(Other2, E0))
  IN o.r = p.r /\ o.l = p.l /\ o.c = p.c /\ (o.r = "ok" => Quiet(o.d[1]) = Quiet(p.d[1])) /\ Reports(p).nodes = <<>>

Export3 == Finished => PrintT("@@" \o ToJson(<< Text, EnvOut, Outcome(S), Rep1, TokenReport(Text) >>))
=================================================================================
