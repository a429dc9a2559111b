---------------------------- MODULE MauTemplateBatch ----------------------------
(* The templates that can render each node of a record, and all those that    *)
(* match: a record has templates ([type, parts]), prefixes, and nodes.        *)
EXTENDS MauTemplates, SequencesExt, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.MAU_RECORDS)
ToFields(q) == [k \in { q[j][1] : j \in 1..Len(q) } |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2]]
RECURSIVE ToNode(_)
ToNode(n) == [type |-> n[1], sub |-> n[2], tags |-> { n[3][j] : j \in 1..Len(n[3]) }, fields |-> ToFields(n[4]),
              parent |-> IF n[5] = <<>> THEN <<>> ELSE << ToNode(n[5] \o << <<>> >>) >>]
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o InOrder(s \ {m})

VARIABLES id, i, best, all
Rec == Records[id]
T == [j \in 1..Len(Rec.templates) |-> Template(Rec.templates[j][1], Rec.templates[j][2])]
Init == id \in 1..Len(Records) /\ i = 0 /\ best = <<>> /\ all = <<>>
Next == /\ i < Len(Rec.nodes)
        /\ i' = i + 1 /\ id' = id
        /\ best' = Append(best, InOrder(Chosen(T, Rec.prefixes, ToNode(Rec.nodes[i + 1]))))
        /\ all' = Append(all, FlattenSeq([j \in 1..(Len(Rec.prefixes) + 1) |->
                            InOrder(Fitting(T, ToNode(Rec.nodes[i + 1]), IF j > Len(Rec.prefixes) THEN "" ELSE Rec.prefixes[j]))]))
Spec == Init /\ [][Next]_<<id, i, best, all>>
Report == i = Len(Rec.nodes) => PrintT("@@" \o ToJson(<<id, << best, all >> >>))
=================================================================================
