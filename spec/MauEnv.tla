--------------------------------- MODULE MauEnv ---------------------------------
(* Environments: maps from dotted names to values, and what can be done with  *)
(* them. A dictionary is a sequence of <<key, tree>>; a tree is a record      *)
(* [leaf, v, kids]. An empty dictionary is a value, written "{}".             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Leaf(v) == [leaf |-> TRUE, v |-> v, kids |-> <<>>]
Dict(kids) == [leaf |-> FALSE, v |-> "", kids |-> kids]
Nothing == [x \in {} |-> ""]

EStarts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EFrom(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Dotted(p, k) == p \o "." \o k

(* The values of a tree, as a sequence of <<name, value>>. *)
RECURSIVE Leaves(_, _), KidLeaves(_, _, _)
Leaves(t, p) == IF t.leaf THEN << <<p, t.v>> >> ELSE IF t.kids = <<>> THEN << <<p, "{}">> >> ELSE KidLeaves(t.kids, p, 1)
KidLeaves(q, p, j) == IF j > Len(q) THEN <<>> ELSE Leaves(q[j][2], Dotted(p, q[j][1])) \o KidLeaves(q, p, j + 1)

RECURSIVE PutAll(_, _, _)
PutAll(m, q, j) == IF j > Len(q) THEN m ELSE PutAll((q[j][1] :> q[j][2]) @@ m, q, j + 1)
RECURSIVE TopLeaves(_, _)
TopLeaves(q, j) == IF j > Len(q) THEN <<>> ELSE Leaves(q[j][2], q[j][1]) \o TopLeaves(q, j + 1)
(* The dictionary d, under a namespace if there is one, as names and values. *)
DictLeaves(d, ns) == IF ns = "" THEN TopLeaves(d.kids, 1) ELSE Leaves(d, ns)
AsMap(d, ns) == PutAll(Nothing, DictLeaves(d, ns), 1)

Under(m, ns) == IF ns = "" THEN m
                ELSE IF DOMAIN m = {} THEN (ns :> "{}")
                ELSE [k \in { Dotted(ns, n) : n \in DOMAIN m } |-> m[EFrom(k, Len(ns) + 2)]]
Names(m, key) == { n \in DOMAIN m : EStarts(n, key \o ".") }
Sub(m, key) == [k \in { EFrom(n, Len(key) + 2) : n \in Names(m, key) } |-> m[key \o "." \o k]]

(* Reading: a value, the names under a prefix, or nothing. An empty dictionary  *)
(* does not hide the names that are stored under it.                          *)
Read(m, key) == IF key \in DOMAIN m /\ (m[key] = "{}" => Names(m, key) = {}) THEN << "value", m[key] >>
                ELSE IF Names(m, key) # {} THEN << "names", Sub(m, key) >>
                ELSE << "none", "" >>

(* Operations: [op, e, f (environments), ns, d (tree), key, ow].             *)
Allowed(envs, o) ==
  CASE o.op = "from" -> TRUE
    [] o.op = "sub" -> o.e <= Len(envs) /\ Read(envs[o.e], o.key)[1] = "names"
    [] o.op \in {"upd"} -> o.e <= Len(envs) /\ o.f <= Len(envs)
    [] OTHER -> o.e <= Len(envs)
Apply(envs, o) ==
  CASE o.op = "from"  -> Append(envs, AsMap(o.d, o.ns))
    [] o.op = "dup"   -> [envs EXCEPT ![o.e] = AsMap(o.d, o.ns) @@ @]
    [] o.op = "set"   -> [envs EXCEPT ![o.e] = AsMap(Dict(<< <<o.key, o.d>> >>), "") @@ @]
    [] o.op = "upd"   -> [envs EXCEPT ![o.e] = IF o.ow THEN Under(envs[o.f], o.ns) @@ @ ELSE @ @@ Under(envs[o.f], o.ns)]
    [] o.op = "clone" -> Append(envs, Under(envs[o.e], o.ns))
    [] o.op = "sub"   -> Append(envs, Sub(envs[o.e], o.key))

(* No name is both a value and a prefix. *)
Nestable(m) == \A n \in DOMAIN m : Names(m, n) = {}
Dots(n) == { i \in 1..Len(n) : SubSeq(n, i, i) = "." }
First(n) == IF Dots(n) = {} THEN n ELSE SubSeq(n, 1, (CHOOSE i \in Dots(n) : \A j \in Dots(n) : i <= j) - 1)
RECURSIVE Nest(_)
Nest(m) == [k \in { First(n) : n \in DOMAIN m } |-> IF k \in DOMAIN m THEN m[k] ELSE Nest(Sub(m, k))]

(* What is seen of an environment. *)
Seen(m, probes) == [flat |-> m, reads |-> [j \in 1..Len(probes) |-> Read(m, probes[j])],
                    nested |-> IF Nestable(m) THEN << Nest(m) >> ELSE <<>>]
=================================================================================
