--------------------------------- MODULE MC_C11 ---------------------------------
(* Lists keep items, nesting and numbering.                                   *)
EXTENDS MauExplore

K(k, t, n, c) == [k |-> k, t |-> t, n |-> n, c |-> c]
(* "i" item with level and marker, "s" start, "e" end of the list, "p" paragraph, "x" nothing *)
Q == << K("i", "* a", 1, "*"), K("i", "# b", 1, "#"), K("i", "** c", 2, "*"), K("i", " ## d", 2, "#"), K("i", "*** _e_", 3, "*"), K("i", "  ###  f", 3, "#"),
        K("e", "", 0, ""), K("s", "[start=auto]", 0, "auto"), K("s", "[start=0]", 0, "0"), K("e", " ", 0, ""), K("p", "p\n", 0, ""), K("x", "// c", 0, ""), K("x", ":z:1", 0, ""),
        K("b", "----\n# x\n----", 0, ""), K("o", "---", 0, "") >>
P1 == [j \in 1..Len(Q) |-> Q[j].t]
PieceOf(j) == Q[doc[j]]
Chars1 == << "a", "b", "c", "d", "e", "f" >>

(* The lists of the document, reading the pieces: each is [o, start, items    *)
(* (pieces)], and whether there is an error.                                  *)
RECURSIVE ListsFrom(_, _, _, _, _)
(* i: piece; cur: items of the open list; st: the waiting start; num: next    *)
(* automatic number; acc                                                      *)
Close(cur, st, num) ==
  LET o == Q[doc[cur[1]]].c = "#"
      s == IF st = "" THEN 1 ELSE IF st = "auto" THEN num ELSE 0
      own == Cardinality({ j \in 1..Len(cur) : Q[doc[cur[j]]].n = Q[doc[cur[1]]].n })
  IN [l |-> [o |-> o, s |-> s, items |-> cur], num |-> IF o THEN s + own ELSE num]
(* An open list is followed only by items and what ends it. *)
ListsFrom(i, cur, st, num, acc) ==
  IF i > Len(doc) THEN [ok |-> TRUE, q |-> IF cur = <<>> THEN acc ELSE Append(acc, Close(cur, st, num).l)]
  ELSE
    LET p == PieceOf(i)
    IN IF cur # <<>>
       THEN IF p.k = "e" THEN LET c == Close(cur, st, num) IN ListsFrom(i + 1, <<>>, "", c.num, Append(acc, c.l))
            ELSE IF p.k = "i" /\ p.n >= Q[doc[cur[1]]].n THEN ListsFrom(i + 1, Append(cur, i), st, num, acc)
            ELSE IF p.k = "i" THEN LET c == Close(cur, st, num) IN ListsFrom(i + 1, <<i>>, "", c.num, Append(acc, c.l))
            ELSE IF p.t = "// c" THEN ListsFrom(i + 1, cur, st, num, acc)
            ELSE [ok |-> FALSE, q |-> acc]
       ELSE CASE p.k = "i" -> ListsFrom(i + 1, <<i>>, st, num, acc)
              [] p.k = "s" -> ListsFrom(i + 1, cur, p.c, num, acc)
              [] p.k \in {"e", "x"} -> ListsFrom(i + 1, cur, st, num, acc)
              [] OTHER -> ListsFrom(i + 1, cur, "", num, acc)
Expected == ListsFrom(1, <<>>, "", 1, <<>>)

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE (IF q[1].k = "list-item" THEN << q[1] >> ELSE Flat(q[1].c)) \o Flat(Tail(q))
RECURSIVE Seen(_)
Seen(q) == IF q = <<>> THEN "" ELSE (IF q[1].k = "text" THEN q[1].a[1] ELSE Seen(q[1].c)) \o Seen(Tail(q))

GotLists == LET f(n) == n.k = "list" IN SelectSeq(S.out, f)
SameList(n, e) ==
  /\ n.a = << IF e.o THEN "ordered" ELSE "unordered", "main", ToString(e.s) >>
  /\ LET q == Flat(n.c)
     IN /\ Len(q) = Len(e.items)
        /\ \A j \in 1..Len(q) : LET p == Q[doc[e.items[j]]]
                                IN q[j].a = << ToString(p.n) >> /\ Seen(q[j].c) = Chars1[doc[e.items[j]]]
AllLists ==
  Finished => IF ~Expected.ok THEN Failed
              ELSE Succeeded /\ Len(GotLists) = Len(Expected.q) /\ \A j \in 1..Len(GotLists) : SameList(GotLists[j], Expected.q[j])

(* Nesting: the items of a list have its level; what is nested is deeper and  *)
(* comes after an item; the type of a nested list is the one of its first     *)
(* marker; a nested list starts from 1.                                       *)
RECURSIVE Nested(_, _)
Nested(n, level) ==
  /\ n.c # <<>> /\ n.c[1].k = "list-item" /\ ToNum(n.c[1].a[1]) >= level
  /\ \A j \in 1..Len(n.c) :
       IF n.c[j].k = "list-item" THEN n.c[j].a = n.c[1].a
       ELSE n.c[j].k = "list" /\ n.c[j].a[2] = "nested" /\ n.c[j].a[3] = "1" /\ j > 1 /\ Nested(n.c[j], ToNum(n.c[1].a[1]) + 1)
FirstMark(n) == Ch(Span(n.c[1].p), 1)
RECURSIVE Typed(_)
Typed(n) == /\ n.a[1] = (IF FirstMark(n) = "#" THEN "ordered" ELSE "unordered")
            /\ \A j \in 1..Len(n.c) : n.c[j].k = "list" => Typed(n.c[j])
GoodNesting == Succeeded => \A j \in 1..Len(GotLists) : Nested(GotLists[j], 1) /\ Typed(GotLists[j])
=================================================================================
