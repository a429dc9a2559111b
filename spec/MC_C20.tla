--------------------------------- MODULE MC_C20 ---------------------------------
(* All the sets of a few templates, and the nodes they could render.          *)
EXTENDS MauTemplates, Json

CONSTANTS MaxTemplates, MaxPrefixes, ClaimSets, AllNodes

VARIABLES ts,        \* the templates: sequence of sequences of parts
          prefixes
vars == <<ts, prefixes>>

Parts == << "s", "style__star", "tg_a", "tg_b", "pt_block", "pts_p", "pts_style__caret", "pf_x", "pf_y", "style__tilde" >>
(* Sets of claims as increasing sequences of positions in Parts. *)
Sets1 == << <<>>, <<1>>, <<2>>, <<3>>, <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<10>>, <<1, 2>>, <<1, 3>>, <<1, 5>>, <<1, 8>>, <<2, 3>>, <<2, 5>>, <<2, 8>>,
           <<3, 4>>, <<3, 8>>, <<5, 6>>, <<5, 8>>, <<6, 8>>, <<7, 8>>, <<1, 2, 3>>, <<3, 4, 8>>, <<5, 6, 8>>, <<1, 9>> >>
Sets2 == << <<>>, <<1>>, <<2>>, <<3, 4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<1, 8>>, <<5, 6>>, <<3, 9>>, <<2, 8>>, <<1, 3>> >>

NoFields == [x \in {} |-> ""]
N(type, sub, tags, fields, parent) == [type |-> type, sub |-> sub, tags |-> tags, fields |-> fields, parent |-> parent]
Block(sub) == N("block", sub, {}, NoFields, <<>>)
Caret == N("style", "p", {"a"}, "style" :> "caret", <<>>)
Parents == << <<>>, << Block("p") >>, << Block("") >>, << Caret >> >>
Nodes1 == [k \in 1..24 |-> LET p == Parents[((k - 1) % 4) + 1]  m == (k - 1) \div 4 IN
             CASE m = 0 -> N("style", "s", {"a"}, "style" :> "star", p)
               [] m = 1 -> N("style", "", {}, "style" :> "star", p)
               [] m = 2 -> N("style", "s", {"a", "b"}, "style" :> "caret", p)
               [] m = 3 -> N("style", "q", {"b"}, "style" :> "tilde", p)
               [] m = 4 -> N("style", "", {"a", "b", "c"}, "style" :> "star", p)
               [] m = 5 -> N("text", "s", {"a"}, NoFields, p)]

All == [j \in 1..Len(ts) |-> Template("style", [k \in 1..Len(ts[j]) |-> Parts[ts[j][k]]])]
Init == ts = <<>> /\ prefixes = <<>>
AddTemplate == Len(ts) < MaxTemplates /\ \E j \in 1..Len(ClaimSets) :
                  /\ \A k \in 1..Len(ts) : ts[k] # ClaimSets[j]
                  /\ ts' = Append(ts, ClaimSets[j]) /\ UNCHANGED prefixes
AddPrefix == ts = <<>> /\ Len(prefixes) < MaxPrefixes /\ \E p \in {"x", "y", "z"} :
                  (\A k \in 1..Len(prefixes) : prefixes[k] # p) /\ prefixes' = Append(prefixes, p) /\ UNCHANGED ts
Next == AddTemplate \/ AddPrefix
Spec == Init /\ [][Next]_vars

(************************** Properties ************************************)
(* The claims, read directly. *)
Holds(c, n, prefix) ==
  CASE c = 1 -> n.sub = "s"
    [] c = 2 -> n.type = "style" /\ n.fields["style"] = "star"
    [] c = 10 -> n.type = "style" /\ n.fields["style"] = "tilde"
    [] c = 3 -> "a" \in n.tags
    [] c = 4 -> "b" \in n.tags
    [] c = 5 -> n.parent # <<>> /\ n.parent[1].type = "block"
    [] c = 6 -> n.parent # <<>> /\ n.parent[1].sub = "p"
    [] c = 7 -> n.parent # <<>> /\ n.parent[1].type = "style" /\ n.parent[1].fields["style"] = "caret"
    [] c = 8 -> prefix = "x"
    [] c = 9 -> prefix = "y"
PrefixClaim(s) == IF \E j \in 1..Len(s) : s[j] = 8 THEN "x" ELSE IF \E j \in 1..Len(s) : s[j] = 9 THEN "y" ELSE ""
Set(s) == { s[j] : j \in 1..Len(s) }
(* The places of the claims of ts[j] in the list of prefixes; the empty one is last. *)
Place(s) == IF PrefixClaim(s) = "" THEN Len(prefixes) + 1
            ELSE IF \E k \in 1..Len(prefixes) : prefixes[k] = PrefixClaim(s)
            THEN CHOOSE k \in 1..Len(prefixes) : prefixes[k] = PrefixClaim(s) ELSE 0
AllHold(s, n) == n.type = "style" /\ Place(s) # 0 /\ \A c \in Set(s) : Holds(c, n, PrefixClaim(s))
EveryClaim == \A i \in 1..Len(AllNodes) : LET n == AllNodes[i] best == Chosen(All, prefixes, n) IN
  /\ \A j \in best : AllHold(ts[j], n)
  /\ (best = {}) = (\A j \in 1..Len(ts) : ~AllHold(ts[j], n))
  /\ \A j \in best, k \in 1..Len(ts) :
       AllHold(ts[k], n) => /\ Place(ts[j]) <= Place(ts[k])
                            /\ Place(ts[k]) = Place(ts[j]) => ~(Set(ts[j]) \subseteq Set(ts[k]) /\ ts[j] # ts[k])
(* A template that does not fit changes nothing; one that fits can only take the place of others. *)
Stable == [][ \A i \in 1..Len(AllNodes) : LET n == AllNodes[i] old == Chosen(All, prefixes, n) new == Chosen(All', prefixes', n) IN
                ts' # ts => IF AllHold(ts'[Len(ts')], n) THEN new = old \/ Len(ts') \in new ELSE new = old ]_vars

RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SeqOf(s \ {m})
NodeOut(n) == << n.type, n.sub, n.tags, n.fields, IF n.parent = <<>> THEN <<>> ELSE << n.parent[1].type, n.parent[1].sub, n.parent[1].tags, n.parent[1].fields >> >>
Export == PrintT("@@" \o ToJson(<< [j \in 1..Len(ts) |-> [k \in 1..Len(ts[j]) |-> Parts[ts[j][k]]]], prefixes,
                                   [i \in 1..Len(AllNodes) |-> << NodeOut(AllNodes[i]), SeqOf(Chosen(All, prefixes, AllNodes[i])) >>] >>))
=================================================================================
