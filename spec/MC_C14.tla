--------------------------------- MODULE MC_C14 ---------------------------------
(* Footnotes are numbered in the order of their definitions, and mentions     *)
(* show them.                                                                 *)
EXTENDS MauVisited

(* m: names mentioned in the text, d: [name, text] defined; b: broken by itself *)
K(t, m, d) == [t |-> t, m |-> m, d |-> d]
None == <<>>
Q == << K("a [footnote](f)\n", <<"f">>, None),
        K("_b [footnote](g)_ [footnote](f)\n", <<"g", "f">>, None),
        K(". [footnote](f)\n---", <<"f">>, None),
        K("* i\n** [class](\"[footnote](g)\")\n", <<"g">>, None),
        K("= h [footnote](f)", <<"f">>, None),
        K("[footnote=f]\n----\nX\n----", None, << <<"f", "X">> >>),
        K("[footnote=g]\n----\n* Y\n----", None, << <<"g", "Y">> >>),
        K("[footnote=f,k=v]\n----\nZ\n----", None, << <<"f", "Z">> >>),
        K("<< footnotes", None, None),
        K("[isolate=false]\n----\nc [footnote](f)\n\n[footnote=h]\n++++\nW\n++++\n----", <<"f">>, << <<"h", "W">> >>),
        K("----\nd [footnote](f)\n\n[footnote=f]\n++++\nV\n++++\n\n<< footnotes\n----", None, None),
        K("[isolate=false]\n----\n[isolate=false]\n!!!!\n[footnote](g)\n\n[footnote=f]\n++++\nU\n++++\n!!!!\n----", <<"g">>, << <<"f", "U">> >>),
        K("[footnote=e]\n----\n----", None, << <<"e", "">> >>),
        K("@if v!=x\n[footnote](no)\n\n@if v!=x\n[footnote=f]\n----\nT\n----", None, None),
        K("[if:v!=x](\"[footnote](no)\",\"[footnote](g)\")\n", <<"g">>, None),
        K("<< mau:inc", None, None),
        K("[footnote=r,engine=raw]\n----\n{q}\n----", None, << <<"r", "{q}">> >>),
        K("`[footnote](no)` \\[footnote](no)\n", None, None),
        K("[group=w,position=p,isolate=false]\n----\n[footnote](g)\n----", <<"g">>, None) >>
P1 == [j \in 1..Len(Q) |-> Q[j].t]
V1 == Alone(MakeEnv("v" :> "x", <<>>, "inc" :> "[footnote](f)\n\n[footnote=f]\n----\nS\n----\n<< footnotes"))

Cat(f(_)) == FlattenSeq([j \in 1..Len(doc) |-> f(Q[doc[j]])])
Mentions == Cat(LAMBDA k : k.m)
Notes == Cat(LAMBDA k : k.d)
SetOf(q) == { q[j] : j \in 1..Len(q) }
NoteNames == [j \in 1..Len(Notes) |-> Notes[j][1]]
Repeated(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]
Count(t) == Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t = t })
Broken == SetOf(Mentions) \ SetOf(NoteNames) # {} \/ Repeated(NoteNames) \/ Count(Q[19].t) > 1
Resolved == Finished => (Failed <=> Broken)

Isolated(n) == \/ n[1] = "include-mau"
               \/ n[1] = "block" /\ \E j \in 1..Len(n[4][1]) : n[4][1][j][1] = "footnotes"
RECURSIVE Mine(_)
Mine(q) ==
  IF q = <<>> THEN <<>>
  ELSE (IF Isolated(q[1]) \/ q[1][1] = "footnotes" THEN <<q[1]>>
        ELSE IF q[1][1] = "macro-footnote" THEN <<q[1]>>
        ELSE <<q[1]>> \o Mine(FlattenSeq(q[1][4]))) \o Mine(Tail(q))
Nodes == Mine(Top)
OfK(k) == SelectSeq(Nodes, LAMBDA n : n[1] = k)
Number(name) == CHOOSE j \in 1..Len(Notes) : Notes[j][1] = name
RECURSIVE Shown(_)
Shown(q) == IF q = <<>> THEN "" ELSE (IF q[1][1] \in {"text", "raw-line"} THEN q[1][2][1] ELSE Shown(FlattenSeq(q[1][4]))) \o Shown(Tail(q))
(* A footnote shows its name, number, and text. *)
IsNote(n, j) == n[1] = "footnote" /\ n[2][1] = Notes[j][1] /\ n[2][2] = ToString(j) /\ Shown(n[4][1]) = Notes[j][2]
(* Mentions in order: each is connected (labels are visited after the nodes). *)
AllMentions ==
  (Succeeded /\ S.out # <<>>) =>
     LET q == OfK("macro-footnote")
         names == [j \in 1..Len(q) |-> q[j][4][1][1][2][1]]
     IN /\ \A j \in 1..Len(q) : Len(q[j][4][1]) = 1
        /\ \A j \in 1..Len(q) : IsNote(q[j][4][1][1], Number(names[j]))
        \* the mention in the group is not rendered
        /\ Count(Q[19].t) = 0 => names = Mentions
Lists ==
  (Succeeded /\ S.out # <<>>) =>
     LET q == OfK("footnotes")
     IN /\ Len(q) = Count(Q[9].t)
        /\ \A j \in 1..Len(q) : /\ Len(q[j][4][1]) = Len(Notes)
                                /\ \A k \in 1..Len(Notes) : IsNote(q[j][4][1][k][4][1][1], k)
(* The definitions are not rendered in place. *)
NotInPlace == (Succeeded /\ S.out # <<>>) => \A j \in 1..Len(Nodes) : Nodes[j][1] = "text" => \A k \in 1..Len(Notes) : Nodes[j][2][1] # Notes[k][2] \/ Notes[k][2] = ""
(* Isolated parts have their own. *)
OwnNotes ==
  (Succeeded /\ S.out # <<>>) =>
     LET all == VOf(Top, "footnotes")
         own == SelectSeq(all, LAMBDA n : Len(n[4][1]) = 1 /\ Shown(n[4][1][1][4][1]) \in {"V", "S"} /\ n[4][1][1][4][1][1][2][2] = "1")
     IN Len(own) = Count(Q[11].t) + Count(Q[16].t)
=================================================================================
