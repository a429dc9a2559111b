------------------------------ MODULE MauEnvBatch ------------------------------
(* Judges histories of operations on environments.                            *)
EXTENDS MauEnv, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.MAU_RECORDS)
RECURSIVE ToTree(_)
ToTree(t) == IF t[1] = "leaf" THEN Leaf(t[2])
             ELSE Dict([j \in 1..Len(t[2]) |-> << t[2][j][1], ToTree(t[2][j][2]) >>])
ToOp(o) == [op |-> o.op, e |-> o.e, f |-> o.f, ns |-> o.ns, d |-> ToTree(o.d), key |-> o.key, ow |-> o.ow]

VARIABLES id, i, envs
Init == id \in 1..Len(Records) /\ i = 0 /\ envs = <<>>
Next == /\ i < Len(Records[id].ops)
        /\ i' = i + 1 /\ id' = id
        /\ LET o == ToOp(Records[id].ops[i + 1]) IN envs' = IF Allowed(envs, o) THEN Apply(envs, o) ELSE envs
Spec == Init /\ [][Next]_<<id, i, envs>>
Report == i = Len(Records[id].ops) =>
            PrintT("@@" \o ToJson(<<id, [e \in 1..Len(envs) |-> Seen(envs[e], Records[id].probes)]>>))
=================================================================================
