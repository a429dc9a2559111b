------------------------------- MODULE MauCliBatch -------------------------------
(* Runs of the command line: a record has files ([path, kind, content]), and   *)
(* the arguments of the run.                                                   *)
EXTENDS MauCli, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.MAU_RECORDS)
RECURSIVE ToTree(_)
ToTree(t) == IF t[1] = "leaf" THEN Ev!Leaf(t[2]) ELSE Ev!Dict([j \in 1..Len(t[2]) |-> << t[2][j][1], ToTree(t[2][j][2]) >>])
ToFs(q) == [p \in { q[j][1] : j \in 1..Len(q) } |->
              LET e == q[CHOOSE j \in 1..Len(q) : q[j][1] = p] IN << e[2], IF e[2] = "yaml" THEN ToTree(e[3]) ELSE e[3] >>]

VARIABLES id, fs, run
Init == \E j \in 1..Len(Records) : id = j /\ fs = ToFs(Records[j].fs) /\ run = RunOf(Records[j].a)
Next == run.pc # "exit" /\ LET x == CliStep(run, fs) IN run' = x[1] /\ fs' = x[2] /\ id' = id
Spec == Init /\ [][Next]_<<id, fs, run>>
Report == run.pc = "exit" =>
  PrintT("@@" \o ToJson(<<id, << run.S # NoS, run.m, run.code, run.out, { p \in DOMAIN fs : fs[p][1] = "out" } >> >>))
=================================================================================
