--------------------------------- MODULE MC_C13 ---------------------------------
(* Links to headers are connected to the header with that name.               *)
EXTENDS MauVisited

(* l: names linked (in the document), d: names defined, x: is in an isolated  *)
(* part: names linked, names defined there                                    *)
K(t, l, d, xl, xd) == [t |-> t, l |-> l, d |-> d, xl |-> xl, xd |-> xd]
None == <<>>
Q == << K("a [header](h)\n", <<"h">>, None, None, None),
        K("_b [header](h,t)_ c\n", <<"h">>, None, None, None),
        K(". [header](h)\n---", <<"h">>, None, None, None),
        K("* [header](h)\n** [header](k,\"*u*\")\n", <<"h", "k">>, None, None, None),
        K("[link](u,\"[header](h)\") [class](\"_[header](k)_\",c)\n", <<"h", "k">>, None, None, None),
        K("[name=h]\n= H", None, <<"h">>, None, None),
        K("[name=k]\n== K _z_ [header](h)", <<"h">>, <<"k">>, None, None),
        K("[name=k,internal_id=i]\n= L", None, <<"k">>, None, None),
        K("= M [header](k)", <<"k">>, None, None, None),
        K("[if:v==x](\"[header](h)\",\"[header](no)\")\n", <<"h">>, None, None, None),
        K("@if v!=x\n[header](no)\n", None, None, None, None),
        K("----\nd [header](h)\n\n[name=h]\n= N\n----", None, None, <<"h">>, <<"h">>),
        K("----\nd [header](h)\n----", None, None, <<"h">>, None),
        K("[isolate=false]\n----\ne [header](h)\n----", <<"h">>, None, None, None),
        K("[isolate=false]\n----\n[name=h]\n= O\n\n[isolate=false]\n++++\n[header](k)\n++++\n----", <<"k">>, <<"h">>, None, None),
        K("[footnote=f]\n----\n[header](h)\n\n[name=h]\n= P\n----", None, None, <<"h">>, <<"h">>),
        K("<< toc", None, None, None, None),
        K("<< mau:inc", None, None, <<"h">>, <<"h">>),
        K("<< mau:bad", None, None, <<"h">>, None),
        K("[group=g,position=p]\n----\n[header](k)\n----", None, None, <<"k">>, None),
        K("`[header](no)` $[header](no)$ \\[header](no)\n", None, None, None, None) >>
P1 == [j \in 1..Len(Q) |-> Q[j].t]
V1 == Alone(MakeEnv("v" :> "x", <<>>, ("inc" :> "[header](h)\n\n[name=h]\n= I") @@ ("bad" :> "[header](h)")))

Cat(f(_)) == FlattenSeq([j \in 1..Len(doc) |-> f(Q[doc[j]])])
Links == Cat(LAMBDA k : k.l)
Defs == Cat(LAMBDA k : k.d)
SetOf(q) == { q[j] : j \in 1..Len(q) }
Repeated(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]
Count(t) == Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t = t })
Broken == \/ SetOf(Links) \ SetOf(Defs) # {}
          \/ Repeated(Defs)
          \/ \E j \in 1..Len(doc) : SetOf(Q[doc[j]].xl) \ SetOf(Q[doc[j]].xd) # {}
          \/ Count(Q[16].t) > 1 \/ Count(Q[20].t) > 1
Resolved == Finished => (Failed <=> Broken)

(* The header of a name, as it is in the document. *)
DefsIn(q) == LET f(n) == n[1] = "header" IN SelectSeq(q, f)
(* Not in the isolated parts. *)
RECURSIVE Mine(_)
Mine(q) ==
  IF q = <<>> THEN <<>>
  ELSE (IF q[1][1] \in {"include-mau", "toc"} \/ (q[1][1] = "block" /\ (\E h \in SetOf(DefsIn(q[1][4][1])) : VText(h[4][1]) = "N")) THEN <<>>
        ELSE IF q[1][1] = "macro-header" THEN <<q[1]>> \o Mine(q[1][4][2])
        ELSE <<q[1]>> \o Mine(FlattenSeq(q[1][4]))) \o Mine(Tail(q))
Nodes == Mine(Top)
Header1(n) == LET q == DefsIn(Nodes) IN q[CHOOSE j \in 1..Len(q) : q[j][2][3] = "+" \o n]
GoodLink(m) ==
  /\ Len(m[4][1]) = 1
  /\ LET h == m[4][1][1]
     IN /\ h[1] = "header" /\ <<h[2], h[5], VText(h[4][1])>> = <<Header1(m[2][1])[2], Header1(m[2][1])[5], VText(Header1(m[2][1])[4][1])>>
        /\ m[4][2] # <<>>
        /\ VText(m[4][2]) \in {"t", "u", VText(h[4][1])}
Connected ==
  (Succeeded /\ S.out # <<>>) => LET q == SelectSeq(Nodes, LAMBDA n : n[1] = "macro-header") IN
     /\ \A j \in 1..Len(q) : GoodLink(q[j])
     \* all the links that were written are there
     /\ \A n \in SetOf(Links) : \E j \in 1..Len(q) : q[j][2] = <<n>>
(* The links in isolated parts are connected to the headers of the part. *)
OwnHeaders ==
  (Succeeded /\ S.out # <<>>) =>
    LET q == VOf(Top, "macro-header")
        isl(n) == \E j \in 1..Len(Nodes) : Nodes[j] = n
    IN \A j \in 1..Len(q) : \/ isl(q[j]) \/ q[j][4][1] = <<>>
                            \/ q[j][4][1][1][2][3] = "+" \o q[j][2][1]
=================================================================================
