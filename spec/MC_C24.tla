--------------------------------- MODULE MC_C24 ---------------------------------
(* What comes from outside: configuration, environment files and variables.   *)
EXTENDS MauCli, Json

CONSTANTS MaxFiles, MaxVariables, FileArgs, VarArgs, Configs, SpacesF, SpacesV, Probes

VARIABLES a, probe, run
vars == <<a, probe, run>>

L(v) == Ev!Leaf(v)
D(q) == Ev!Dict(q)
Fs == ("f.yaml" :> << "yaml", D(<< <<"b", L("1")>>, <<"c", D(<< <<"d", L("2")>> >>)>> >>) >>)
   @@ ("g.x.yaml" :> << "yaml", D(<< <<"b", L("3")>>, <<"e.f", L("4")>> >>) >>)
   @@ ("d" :> << "dir", "" >>)
   @@ ("d/h" :> << "yaml", D(<< <<"d", L("int")>>, <<"l", L("list")>> >>) >>)
   @@ ("s.yaml" :> << "yaml", L("one") >>)
   @@ ("n.yaml" :> << "yaml", L("none") >>)
   @@ ("o.yaml" :> << "yaml", D(<<>>) >>)
   @@ ("bad.yaml" :> << "bad", "" >>)
   @@ ("c1.yaml" :> << "yaml", D(<< <<"x", L("y")>>, <<"envfiles", D(<< <<"f", D(<< <<"b", L("5")>>, <<"z", L("6")>> >>)>> >>)>>, <<"envvars", D(<< <<"k", L("7")>> >>)>> >>) >>)
   @@ ("c2.yaml" :> << "yaml", L("empty") >>)
   @@ ("c3.yaml" :> << "yaml", L("text") >>)
FA1 == << "f.yaml", "k=f.yaml", "k=g.x.yaml", "k.c=d/h", "g.x.yaml", "d/h", "s=s.yaml", "n.yaml", "k=o.yaml", "bad.yaml", "k=no.yaml", "d", "k=f.yaml=" >>
FA2 == << "k=f.yaml", "k=g.x.yaml", "k.c=d/h", "k.c=s.yaml", "k=o.yaml", "f.yaml", "k.c.d=s.yaml" >>
(* The same names again and again. *)
FA3 == << "k=f.yaml", "k=g.x.yaml", "k=o.yaml" >>
VA3 == << "k=1", "k=a=b", "k.b=", "k.b=two" >>
VA1 == << "k=1", "k=a=b", "k.b=", "k.c= x {y} ", "noequals", "f.b=v", "=", "k.b=two" >>
VA2 == << "k=1", "k.c.d=a=b", "k.b=", "f.b=v" >>
C1 == << "", "c1.yaml", "c2.yaml" >>
C2 == << "", "c1.yaml" >>
SF1 == << "", "ns", "envvars" >>
SV1 == << "", "ns", "a.b" >>
SF2 == << "", "envvars", "envfiles.f" >>
SV2 == << "" >>
Pr1 == << "mau.envvars.k", "mau.envfiles.k.b", "mau.envvars.k.c" >>
C3 == << "" >>
SF3 == << "" >>
SV3 == << "", "envfiles" >>
Pr3 == << "mau.envvars.k" >>
Pr2 == << "mau.envfiles.k.c.d", "mau.envvars.k.b", "mau.envvars.k.c.d" >>

Text(p) == "v: {" \o p \o "}\n"
Of(q) == { q[j] : j \in 1..Len(q) }
Init == /\ a \in { [NoOptions EXCEPT !.config = c, !.nsf = f, !.nsv = v, !.output = "-"] : c \in Of(Configs), f \in Of(SpacesF), v \in Of(SpacesV) }
        /\ probe = "" /\ run = <<>>
AddFile(x) == run = <<>> /\ a.envv = <<>> /\ Len(a.envf) < MaxFiles /\ a' = [a EXCEPT !.envf = Append(@, x)] /\ UNCHANGED <<probe, run>>
AddVar(x) == run = <<>> /\ Len(a.envv) < MaxVariables /\ a' = [a EXCEPT !.envv = Append(@, x)] /\ UNCHANGED <<probe, run>>
AllFiles == ("in.mau" :> << "text", Text(probe) >>) @@ Fs
Begin(p) == run = <<>> /\ probe' = p /\ run' = << RunOf(a) >> /\ a' = a
Goes == run # <<>> /\ run[1].pc # "exit" /\ run' = << CliStep(run[1], AllFiles)[1] >> /\ UNCHANGED <<a, probe>>
Next == (\E x \in Of(FileArgs) : AddFile(x)) \/ (\E x \in Of(VarArgs) : AddVar(x)) \/ (\E p \in Of(Probes) : Begin(p)) \/ Goes
Spec == Init /\ [][Next]_vars

(************************** Properties ************************************)
Ready == run # <<>> /\ run[1].pc = "read"
M == run[1].m
(* All the values given, in order: the names of a file given again for the    *)
(* same key do not count.                                                     *)
RECURSIVE Values(_, _)
Values(t, p) == IF t.leaf \/ t.kids = <<>> THEN << << p, IF t.leaf THEN t.v ELSE "{}" >> >>
                ELSE LET f(j) == Values(t.kids[j][2], p \o "." \o t.kids[j][1]) IN FlattenSeq([j \in 1..Len(t.kids) |-> f(j)])
Key(x) == CASE x \in {"f.yaml"} -> "f" [] x = "g.x.yaml" -> "g.x" [] x = "d/h" -> "h" [] x = "n.yaml" -> "n"
            [] StartsWith(x, "k=") -> "k" [] StartsWith(x, "s=") -> "s" [] StartsWith(x, "k.c=") -> "k.c" [] StartsWith(x, "k.c.d=") -> "k.c.d"
Path(x) == CASE x \in {"f.yaml", "k=f.yaml"} -> "f.yaml" [] x \in {"g.x.yaml", "k=g.x.yaml"} -> "g.x.yaml" [] x \in {"d/h", "k.c=d/h"} -> "d/h"
            [] x \in {"s=s.yaml", "k.c=s.yaml", "k.c.d=s.yaml"} -> "s.yaml" [] x = "n.yaml" -> "n.yaml" [] x = "k=o.yaml" -> "o.yaml"
Nsf == "mau." \o (IF a.nsf = "" THEN "envfiles" ELSE a.nsf) \o "."
Nsv == "mau." \o (IF a.nsv = "" THEN "envvars" ELSE a.nsv) \o "."
FromConfig == IF a.config = "c1.yaml" THEN Values(Fs["c1.yaml"][2], "mau") ELSE << <<"mau", "{}">> >>
FromFile(j) == IF \E i \in 1..Len(a.envf) : i > j /\ Key(a.envf[i]) = Key(a.envf[j]) THEN <<>>
               ELSE Values(Fs[Path(a.envf[j])][2], Nsf \o Key(a.envf[j]))
VName(x) == CASE x \in {"k=1", "k=a=b"} -> "k" [] x \in {"k.b=", "k.b=two"} -> "k.b" [] x = "k.c= x {y} " -> "k.c" [] x = "k.c.d=a=b" -> "k.c.d" [] x = "f.b=v" -> "f.b" [] x = "=" -> ""
VValue(x) == CASE x = "k=1" -> "1" [] x \in {"k=a=b", "k.c.d=a=b"} -> "a=b" [] x = "k.b=two" -> "two" [] x = "k.c= x {y} " -> " x {y} " [] x = "f.b=v" -> "v" [] OTHER -> ""
FromVar(j) == << << Nsv \o VName(a.envv[j]), VValue(a.envv[j]) >> >>
Given == FromConfig \o FlattenSeq([j \in 1..Len(a.envf) |-> FromFile(j)]) \o FlattenSeq([j \in 1..Len(a.envv) |-> FromVar(j)])
NothingElse == Ready => LET g == Given IN
  /\ DOMAIN M = { g[j][1] : j \in 1..Len(g) }
  /\ \A j \in 1..Len(g) : (\A i \in 1..Len(g) : i > j => g[i][1] # g[j][1]) => M[g[j][1]] = g[j][2]
AllOrNothing == (run # <<>> /\ run[1].pc = "exit" /\ run[1].S = NoS) =>
  (\E j \in 1..Len(a.envf) : a.envf[j] \in {"bad.yaml", "k=no.yaml", "d", "k=f.yaml="}) \/ (\E j \in 1..Len(a.envv) : a.envv[j] = "noequals")

Export == (run # <<>> /\ run[1].pc = "exit")
  => PrintT("@@" \o ToJson(<< AllFiles, a, run[1].S # NoS, M, run[1].code, run[1].out >>))
=================================================================================
