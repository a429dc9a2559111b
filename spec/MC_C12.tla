--------------------------------- MODULE MC_C12 ---------------------------------
(* Tables of contents list the headers of the document they are in.           *)
EXTENDS MauVisited

(* l: level (0 no header), h: text, i: id, n: name                            *)
K(t, l, h, i, n) == [t |-> t, l |-> l, h |-> h, i |-> i, n |-> n]
Q == << K("= a", 1, "a", "", ""), K("== b", 2, "b", "", ""), K("====== c", 6, "c", "", ""), K("==== _a_", 4, "a", "", ""), K("========= s", 9, "s", "", ""),
        K("<< toc", 0, "", "", ""), K("p\n", 0, "", "", ""),
        K("[name=n]\n== d [link](u)", 2, "d u", "", "n"), K("[internal_id=i]\n=== e", 3, "e", "i", ""), K("[k,internal_id=i,name=m]\n= f", 1, "f", "i", "m"),
        K("[isolate=false]\n----\n== g\n\n<< toc\n----", 2, "g", "", ""), K("----\n= h\n\n<< toc\n----", 0, "", "", ""),
        K("[isolate=false]\n----\n[isolate=false]\n++++\n=== j\n++++\n----", 3, "j", "", ""), K("@if v!=x\n== k", 0, "", "", ""), K("@if v==x\n== {v}", 2, "x", "", ""),
        K("<< mau:inc", 0, "", "", ""), K("[group=g,position=p,isolate=false]\n----\n= o\n----", 1, "o", "", ""), K(".t q\n= r", 1, "r", "", "") >>
P1 == [j \in 1..Len(Q) |-> Q[j].t]
V1 == Alone(MakeEnv("v" :> "x", <<>>, "inc" :> "= i\n\n<< toc"))

(* The headers of the document, reading the pieces. *)
RECURSIVE HeadsFrom(_)
HeadsFrom(j) == IF j > Len(doc) THEN <<>> ELSE (IF Q[doc[j]].l = 0 THEN <<>> ELSE << Q[doc[j]] >>) \o HeadsFrom(j + 1)
Heads == HeadsFrom(1)
Named == LET f(h) == h.n # "" IN SelectSeq(Heads, f)
Twice == \E i, j \in 1..Len(Named) : i < j /\ Named[i].n = Named[j].n
Groups == Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t = Q[17].t })

(* The tables that belong to the document: not those in an isolated block or  *)
(* in an included file. *)
Isolated(n) == LET q == VOf(<<n>>, "header") IN q # <<>> /\ VText(<<q[1]>>) = "h"
Outer(n) == ~(n[1] = "include-mau" \/ (n[1] = "block" /\ Isolated(n))) 
RECURSIVE Tocs(_)
Tocs(q) == IF q = <<>> THEN <<>> ELSE (IF q[1][1] = "toc" THEN <<q[1]>> ELSE IF Outer(q[1]) THEN Tocs(FlattenSeq(q[1][4])) ELSE <<>>) \o Tocs(Tail(q))
SameHead(n, h) ==
  /\ n[1] = "header" /\ VField(n, 1) = ToString(h.l) /\ VText(VGroup(n, 1)) = h.h
  /\ VField(n, 3) = (IF h.n = "" THEN "-" ELSE "+" \o h.n)
  /\ VField(n, 2) = (IF h.i = "" THEN "?" \o ToString(h.l) \o " " \o h.h ELSE "+" \o h.i)
(* Nested entries, with the number of their parent (0 if none). *)
RECURSIVE Parents(_, _)
Parents(q, n) ==
  IF q = <<>> THEN <<>>
  ELSE LET sub == Parents(VGroup(q[1], 2), 1)
           rest == Parents(Tail(q), 1)
       IN << [h |-> VGroup(q[1], 1)[1], d |-> n] >> \o [j \in 1..Len(sub) |-> [sub[j] EXCEPT !.d = @ + n]] \o [j \in 1..Len(rest) |-> [rest[j] EXCEPT !.d = @ + n - 1]]
(* The depth of each header, from its parent: the nearest previous one with a *)
(* smaller level. *)
RECURSIVE DepthOf(_)
DepthOf(j) == LET ps == { i \in 1..(j - 1) : Heads[i].l < Heads[j].l }
              IN IF ps = {} THEN 1 ELSE 1 + DepthOf(CHOOSE i \in ps : \A k \in ps : k <= i)
(* A header with no smaller one before is at the top, also when the levels    *)
(* before are greater.                                                        *)
GoodToc(n) ==
  /\ Len(VGroup(n, 1)) = Len(Heads) /\ \A j \in 1..Len(Heads) : SameHead(VGroup(n, 1)[j], Heads[j])
  /\ LET q == Parents(VGroup(n, 2), 1)
     IN /\ Len(q) = Len(Heads)
        /\ \A j \in 1..Len(q) : q[j].d = DepthOf(j) /\ VBare(q[j].h) = VBare(VGroup(n, 1)[j])
AllTocs ==
  Finished =>
    IF Twice \/ Groups > 1 THEN Failed
    ELSE /\ Succeeded
         /\ S.out # <<>> => /\ \A j \in 1..Len(Tocs(Top)) : GoodToc(Tocs(Top)[j])
                            /\ Len(Tocs(Top)) = Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t \in {"<< toc", Q[11].t} })
(* The table of an isolated block, and of a file, lists its own header only.  *)
Others ==
  (Succeeded /\ S.out # <<>>) =>
     LET q == VOf(Top, "toc")
     IN Len(q) = Len(Tocs(Top)) + Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t \in {Q[12].t, Q[16].t} })
        /\ Cardinality({ j \in 1..Len(q) : Len(VGroup(q[j], 1)) = 1 /\ VText(VGroup(q[j], 1)) \in {"h", "i"} })
             = Cardinality({ j \in 1..Len(doc) : Q[doc[j]].t \in {Q[12].t, Q[16].t} })
=================================================================================
