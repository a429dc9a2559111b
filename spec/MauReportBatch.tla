----------------------------- MODULE MauReportBatch -----------------------------
(* What is reported for each record, with its outcome.                         *)
EXTENDS MauReport, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.MAU_RECORDS)
ToFun(q) == [k \in { q[j][1] : j \in 1..Len(q) } |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2]]
ToAlias(a) == [n |-> a[1], args |-> a[2], names |-> a[3], sub |-> a[4]]
RecEnv(r) == MakeConfEnv(ToFun(r.v), [j \in 1..Len(r.al) |-> ToAlias(r.al[j])], ToFun(r.f), r.st, r.hid, r.fid)

VARIABLES id, S
Init == \E j \in 1..Len(Records) : id = j /\ S = InitState(Records[j].t, RecEnv(Records[j]))
Next == S.st = "run" /\ S' = StepOf(S, Construct(S)) /\ id' = id
Spec == Init /\ [][Next]_<<id, S>>
Report == S.st # "run" => LET o == TLCEval(Outcome(S)) IN PrintT("@@" \o ToJson(<<id, << o, Reports(o), TokenReport(Records[id].t) >> >>))
=================================================================================
