--------------------------------- MODULE MC_C15 ---------------------------------
(* Groups contain exactly their blocks, one for each position.                *)
EXTENDS MauVisited

(* g: [group, position, text] of the blocks; r: groups rendered               *)
K(t, g, r) == [t |-> t, g |-> g, r |-> r]
None == <<>>
Q == << K("[group=g,position=p]\n----\nA\n----", << <<"g", "p", "A">> >>, None),
        K("[group=g,position=q,k=v]\n----\n* B\n----", << <<"g", "q", "B">> >>, None),
        K("[position=p,group=h]\n----\nC\n\n<< blockgroup:g\n----", None, <<"#bad">>),
        K("[group=h,position=p]\n----\nD\n----", << <<"h", "p", "D">> >>, None),
        K("<< blockgroup:g", None, <<"g">>),
        K("[group=h]\n<< blockgroup", None, <<"h">>),
        K(". l\n<< blockgroup:group=g", None, <<"g">>),
        K("[group=g]\n----\nE\n----", None, None),
        K("[position=p]\n----\nF\n----", None, None),
        K("[group=g,position=\"\"]\n----\nG\n----", None, None),
        K("[group=g,position=p,engine=raw]\n----\n{x}\n----", << <<"g", "p", "{x}">> >>, None),
        K("[group=g,position=r,engine=source]\n----\ny:1:\n----", << <<"g", "r", "y1">> >>, None),
        K("[group=g,position=s]\n----\n[group=g,position=p]\n++++\nH\n++++\n<< blockgroup:g\n----", << <<"g", "s", "H">> >>, None),
        K("[isolate=false]\n----\n[group=g,position=p]\n++++\nI\n++++\n\n<< blockgroup:g\n----", None, None),
        K("@if v!=x\n[group=g,position=p]\n----\nJ\n----", None, None),
        K("[group=i,position=p]\n----\n----", << <<"i", "p", "">> >>, None),
        K("<< mau:inc", None, None),
        K("= T", None, None) >>
P1 == [j \in 1..Len(Q) |-> Q[j].t]
V1 == Alone(MakeEnv("v" :> "x", <<>>, "inc" :> "<< blockgroup:g\n\n[group=g,position=p]\n----\nK\n----"))

Cat(f(_)) == FlattenSeq([j \in 1..Len(doc) |-> f(Q[doc[j]])])
Members == Cat(LAMBDA k : k.g)
Rendered == Cat(LAMBDA k : k.r)
Repeated(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]
Places == [j \in 1..Len(Members) |-> <<Members[j][1], Members[j][2]>>]
Count(t) == Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t = t })
Exists1(g) == \E j \in 1..Len(Members) : Members[j][1] = g
Broken == Repeated(Places) \/ \E j \in 1..Len(Rendered) : ~Exists1(Rendered[j])
Resolved == Finished => (Failed <=> Broken)

RECURSIVE Shown(_)
Shown(q) == IF q = <<>> THEN "" ELSE (IF q[1][1] \in {"text", "raw-line", "source-marker"} THEN q[1][2][1]
                                      ELSE IF q[1][1] = "source-line" THEN q[1][2][2] \o Shown(FlattenSeq(q[1][4]))
                                      ELSE Shown(FlattenSeq(q[1][4]))) \o Shown(Tail(q))
GroupsOf(q) == SelectSeq(q, LAMBDA n : n[1] = "blockgroup")
(* Every rendering has the blocks of the group under their positions, in the   *)
(* order of the document. *)
Of(g) == SelectSeq(Members, LAMBDA m : m[1] = g)
AllGroups ==
  (Succeeded /\ S.out # <<>>) =>
     LET q == GroupsOf(Top)
     IN /\ Len(q) = Len(Rendered)
        /\ \A j \in 1..Len(q) :
             /\ q[j][2] = <<Rendered[j]>>
             /\ Len(q[j][4][1]) = Len(Of(Rendered[j]))
             /\ \A k \in 1..Len(q[j][4][1]) :
                  LET it == q[j][4][1][k] m == Of(Rendered[j])[k]
                  IN it[1] = "blockgroup-item" /\ it[2] = <<m[2]>> /\ Len(it[4][1]) = 1 /\ Shown(it[4][1]) = m[3]
(* The blocks of groups are not rendered in place; those with one argument are. *)
InPlace ==
  (Succeeded /\ S.out # <<>>) =>
     LET q == SelectSeq(Top, LAMBDA n : n[1] \in {"block", "raw", "source"})
         texts == [j \in 1..Len(q) |-> Shown(q[j][4][1])]
         e == SelectSeq([j \in 1..Len(doc) |-> Q[doc[j]].t], LAMBDA t : t \in {Q[8].t, Q[9].t, Q[10].t, Q[14].t})
     IN texts = [j \in 1..Len(e) |-> CASE e[j] = Q[8].t -> "E" [] e[j] = Q[9].t -> "F" [] e[j] = Q[10].t -> "G" [] e[j] = Q[14].t -> "I"]
=================================================================================
