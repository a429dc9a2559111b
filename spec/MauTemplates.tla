------------------------------ MODULE MauTemplates ------------------------------
(* Which template renders a node.                                             *)
(* A node is [type, sub (subtype or ""), tags (a set), fields (a function),   *)
(* parent (<<>> or <<node>>)].                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

TStarts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
TRest(s, p) == IF Len(s) = Len(p) THEN "" ELSE SubSeq(s, Len(p) + 1, Len(s))
(* "key__value", when there is exactly one separator. *)
Seps(s) == { i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = "__" }
IsPair(s) == Cardinality(Seps(s)) = 1
Pair(s) == LET i == CHOOSE x \in Seps(s) : TRUE
           IN << IF i = 1 THEN "" ELSE SubSeq(s, 1, i - 1), IF i + 2 > Len(s) THEN "" ELSE SubSeq(s, i + 2, Len(s)) >>

NoClaims(type) == [type |-> type, sub |-> "", prefix |-> "", ptype |-> "", psub |-> "",
                   custom |-> <<>>, pcustom |-> <<>>, tags |-> <<>>]
Claim(t, part) ==
  CASE TStarts(part, "pt_")  -> [t EXCEPT !.ptype = TRest(part, "pt_")]
    [] TStarts(part, "pts_") -> LET v == TRest(part, "pts_") IN
                                IF IsPair(v) THEN [t EXCEPT !.pcustom = Append(@, Pair(v))] ELSE [t EXCEPT !.psub = v]
    [] TStarts(part, "pf_")  -> [t EXCEPT !.prefix = TRest(part, "pf_")]
    [] TStarts(part, "tg_")  -> [t EXCEPT !.tags = Append(@, TRest(part, "tg_"))]
    [] IsPair(part)          -> [t EXCEPT !.custom = Append(@, Pair(part))]
    [] OTHER                 -> [t EXCEPT !.sub = part]
RECURSIVE Claims(_, _, _)
Claims(t, parts, j) == IF j > Len(parts) THEN t ELSE Claims(Claim(t, parts[j]), parts, j + 1)
(* The template whose name has the given type and parts. *)
Template(type, parts) == Claims(NoClaims(type), parts, 1)

HasFields(n, q) == \A j \in 1..Len(q) : q[j][1] \in DOMAIN n.fields /\ n.fields[q[j][1]] = q[j][2]
Fits(t, n, prefix) ==
  /\ t.type = n.type
  /\ t.prefix = prefix
  /\ t.sub = "" \/ t.sub = n.sub
  /\ \A j \in 1..Len(t.tags) : t.tags[j] \in n.tags
  /\ HasFields(n, t.custom)
  /\ (t.ptype # "" \/ t.psub # "" \/ t.pcustom # <<>>) => n.parent # <<>>
  /\ n.parent # <<>> => /\ t.ptype = "" \/ t.ptype = n.parent[1].type
                        /\ t.psub = "" \/ t.psub = n.parent[1].sub
                        /\ HasFields(n.parent[1], t.pcustom)

One(s) == IF s = "" THEN 0 ELSE 1
Weight(t) == << Len(t.custom), One(t.sub), One(t.prefix), One(t.ptype), Len(t.pcustom), One(t.psub), Len(t.tags) >>
Heavier(a, b) == \E i \in 1..7 : a[i] > b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* The templates (positions in T) that can render n: those of the first prefix *)
(* with any, the most specific ones.                                          *)
Fitting(T, n, prefix) == { j \in 1..Len(T) : Fits(T[j], n, prefix) }
Top(T, s) == { j \in s : \A k \in s : ~Heavier(Weight(T[k]), Weight(T[j])) }
RECURSIVE Chosen(_, _, _)
Chosen(T, prefixes, n) ==
  IF prefixes = <<>> THEN Top(T, Fitting(T, n, ""))
  ELSE LET s == Fitting(T, n, prefixes[1]) IN IF s # {} THEN Top(T, s) ELSE Chosen(T, Tail(prefixes), n)
=================================================================================
