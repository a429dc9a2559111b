------------------------------ MODULE MauPlainArgs ------------------------------
(* What a list of arguments means when there are no quotes, no escapes, and   *)
(* spaces only inside values: read from the text at once, cutting it at the   *)
(* commas.                                                                    *)
EXTENDS MauExplore

DropLast(q) == IF q # <<>> /\ Last(q) = "" THEN Front(q) ELSE q
Items(s) == DropLast(Split(s, ","))
EqAt(s) == FindFrom(s, "=", 1)
IsNamed(s) == EqAt(s) > 1 /\ ~Contains(SubSeq(s, 1, EqAt(s) - 1), " ")
KeyOf(s) == SubSeq(s, 1, EqAt(s) - 1)
ValueOf(s) == From(s, EqAt(s) + 1)
Positional(q) == LET p(s) == ~IsNamed(s) IN SelectSeq(q, p)
NamedItems(q) == SelectSeq(q, IsNamed)
(* Unnamed after named. *)
BadOrder(q) == \E i, j \in 1..Len(q) : i < j /\ IsNamed(q[i]) /\ ~IsNamed(q[j])
(* The value of a key: the latest one. *)
GivenKeys(q) == { KeyOf(q[j]) : j \in { k \in 1..Len(q) : IsNamed(q[k]) } }
Given(q, k) == ValueOf(q[CHOOSE j \in 1..Len(q) : IsNamed(q[j]) /\ KeyOf(q[j]) = k
                           /\ \A i \in (j + 1)..Len(q) : ~(IsNamed(q[i]) /\ KeyOf(q[i]) = k)])
(* The positional value that takes a name: the free names take them in order. *)
FreeNames(q, names) == LET f(n) == n \notin GivenKeys(q) IN SelectSeq(names, f)
IndexIn(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
Has(q, names, k) == \/ k \in GivenKeys(q)
                    \/ InSeq(FreeNames(q, names), k) /\ IndexIn(FreeNames(q, names), k) <= Len(Positional(q))
Value(q, names, k) == IF k \in GivenKeys(q) THEN Given(q, k) ELSE Positional(q)[IndexIn(FreeNames(q, names), k)]
Rest(q, names) == SubSeq(Positional(q), MinI(Len(FreeNames(q, names)), Len(Positional(q))) + 1, Len(Positional(q)))
=================================================================================
