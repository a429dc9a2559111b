--------------------------------- MODULE MC_C29 ---------------------------------
(* What templates see as configuration is the last value of every variable.   *)
EXTENDS MauVisited, MauConfig

(* Pieces and what they define: <<name, value>>, a reference is "=name"; the   *)
(* last group are those that define nothing.                                  *)
PieceDefs ==
  << << ":v:1", << <<"v", "1">> >> >>,
     << ":v:{w}x", << <<"v", "=w">> >> >>,
     << ":+w:", << <<"w", "true">> >> >>,
     << ":-a.b:", << <<"a.b", "false">> >> >>,
     << ":a.c:{v}", << <<"a.c", "=v">> >> >>,
     << ":a.d.e:`{v}` \\{", << <<"a.d.e", "`{v}` {">> >> >>,
     << ":mau.k.z:q", << <<"mau.k.z", "q">> >> >>,
     << "----\n:v:in\n\n++++\n:a.c:in2\n++++\n----", << <<"v", "in">>, <<"a.c", "in2">> >> >>,
     << "[isolate=false,k={v}]\n----\n:w:z\n----", << <<"w", "z">> >> >>,
     << "[footnote=f]\n----\n:a.b:fn\n----\n\n[footnote](f)", << <<"a.b", "fn">> >> >>,
     << "[group=g,position=x]\n----\n:w:gr\n----\n\n<< blockgroup:g", << <<"w", "gr">> >> >>,
     << "@if v==1\n:w:c\ntext", << <<"w", "c">> >> >>,
     << "@if v==none\n----\n:w:no\n----", <<>> >>,
     << "<< mau:inc,call:v=5,call:n.m=6", <<>> >>,
     << "<< mau:inc,pass_environment=false", <<>> >>,
     << "[engine=raw]\n----\n:v:raw\n----\n[engine=source]\n----\n:v:src\n----", <<>> >>,
     << "text :v:2 {v}\n\n// :v:3\n\n////\n:v:4\n////", <<>> >>,
     << "[alias](u) [a](\"b\",v=7) *v*\n. l\n= H", <<>> >> >>
P1 == [j \in 1..Len(PieceDefs) |-> PieceDefs[j][1]]
Start1 == [k \in {"v", "w", "o.p"} |-> "s-" \o k]
V1 == Alone(MakeEnv(Start1, <<>>, "inc" :> ":v:file\n:new:{v}\n\ni {v}"))

RECURSIVE Define(_, _, _), After(_, _)
Value(m, x) == IF x = "=w" THEN m["w"] \o "x" ELSE IF x = "=v" THEN m["v"] ELSE x
Define(m, q, j) == IF j > Len(q) THEN m ELSE Define((q[j][1] :> Value(m, q[j][2])) @@ m, q, j + 1)
After(m, j) == IF j > Len(doc) THEN m ELSE After(Define(m, PieceDefs[doc[j]][2], 1), j + 1)
(* Every variable has the value of its last definition, at any depth; what is *)
(* defined in an included file or for it only stays there.                    *)
LastOne == Config(S) # <<>> => Config(S)[1] = After(Start1, 1)
(* While the document is processed nothing is seen, and nothing is ever forgotten. *)
Grows == [][ (S.st = "run" /\ Len(S.fr) = 1 /\ S'.st = "run" /\ Len(S'.fr) = 1) => DOMAIN S.fr[1].E.vars \subseteq DOMAIN S'.fr[1].E.vars ]_vars
(* Nested dictionaries have the same names and values. *)
RECURSIVE Paths(_, _)
Paths(q, p) == IF q = <<>> THEN {}
               ELSE (IF q[1][2] = "value" THEN { << p \o q[1][1], q[1][3] >> } ELSE Paths(q[1][3], p \o q[1][1] \o ".")) \cup Paths(Tail(q), p)
SameNames == Config(S) # <<>> => Paths(Shown(S)[1], "") = { << n, Config(S)[1][n] >> : n \in DOMAIN Config(S)[1] }

Export2 == Finished => PrintT("@@" \o ToJson(<<Text, EnvOut, S.st, Shown(S)>>))
=================================================================================
