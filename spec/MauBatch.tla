-------------------------------- MODULE MauBatch --------------------------------
(* Judges records of the real code: each record has a text, variables,       *)
(* aliases, files, and the outcome of the real code. The machine processes   *)
(* the text of each record step by step; the verdict is printed at the end.  *)
EXTENDS MauVisit, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.MAU_RECORDS)
ToFun(q) == [k \in { q[j][1] : j \in 1..Len(q) } |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2]]
ToAlias(a) == [n |-> a[1], args |-> a[2], names |-> a[3], sub |-> a[4]]
RecEnv(r) == MakeConfEnv(ToFun(r.v), [j \in 1..Len(r.al) |-> ToAlias(r.al[j])], ToFun(r.f), r.st, r.hid, r.fid)

VARIABLES id, S
vars == <<id, S>>

Init == \E j \in 1..Len(Records) : id = j /\ S = InitState(Records[j].t, RecEnv(Records[j]))

Do(k) == S.st = "run" /\ Construct(S) = k /\ S' = StepOf(S, k) /\ id' = id
End == Do("End")
Eol == Do("Eol")
Rule == Do("Rule")
Variable == Do("Variable")
Label == Do("Label")
Ctl == Do("Control")
Arguments == Do("Arguments")
Header == Do("Header")
Block == Do("Block")
Include == Do("Include")
List == Do("List")
Paragraph == Do("Paragraph")
BadToken == Do("BadToken")

Next == End \/ Eol \/ Rule \/ Variable \/ Label \/ Ctl \/ Arguments \/ Header \/ Block \/ Include
        \/ List \/ Paragraph \/ BadToken
Spec == Init /\ [][Next]_vars

Report == S.st # "run" => PrintT("@@" \o ToJson(<<id, Outcome(S)>>))
================================================================================
