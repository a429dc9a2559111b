---------------------------- MODULE MauSourcesBatch -----------------------------
(* The texts that can render the nodes of a record, for visitors whose         *)
(* templates come from many sources.                                           *)
EXTENDS MauSources, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.MAU_RECORDS)
RECURSIVE ToTree(_)
ToTree(t) == IF t[1] = "leaf" THEN Ev!Leaf(t[2]) ELSE Ev!Dict([j \in 1..Len(t[2]) |-> << t[2][j][1], ToTree(t[2][j][2]) >>])
ToWorld(q) == [k \in { q[j][1] : j \in 1..Len(q) } |-> ToTree(q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2])]
ToFields(q) == [k \in { q[j][1] : j \in 1..Len(q) } |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2]]
RECURSIVE ToNode(_)
ToNode(n) == [type |-> n[1], sub |-> n[2], tags |-> { n[3][j] : j \in 1..Len(n[3]) }, fields |-> ToFields(n[4]),
              parent |-> IF n[5] = <<>> THEN <<>> ELSE << ToNode(n[5] \o << <<>> >>) >>]

VARIABLES id, world, v
Init == \E j \in 1..Len(Records) : LET r == Records[j] IN
          /\ id = j
          /\ world = [providers |-> ToWorld(r.available), folders |-> ToWorld(r.dirs)]
          /\ v = Request(r.ext, r.pre, ToTree(r.defaults), r.providers, r.folders, ToTree(r.custom))
Next == ~Over(v) /\ v' = LoadStep(v, world) /\ UNCHANGED <<id, world>>
Spec == Init /\ [][Next]_<<id, world, v>>
Report == Over(v) => PrintT("@@" \o ToJson(<<id, << v.pc = "ready",
            IF v.pc = "ready" THEN Shows(v, [j \in 1..Len(Records[id].nodes) |-> ToNode(Records[id].nodes[j])], Records[id].prefixes) ELSE <<>>,
            IF v.pc = "ready" THEN SomeOrder(Library(v)) ELSE <<>> >> >>))
=================================================================================
