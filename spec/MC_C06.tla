--------------------------------- MODULE MC_C06 ---------------------------------
(* A construct excluded by a false control is as if it were not there; with a *)
(* true control it is as if the control were not there.                       *)
EXTENDS MauExplore

(* Constructs that could leave traces. *)
Q == << "a {w}", "= H1", "[name=h]\n== H2", "* i", "[start=auto]\n# j\n# k", "---", "<< toc", "<< footnotes",
        "[footnote=f]\n----\nb\n----", "b [footnote](f) [header](h)", "[group=g,position=p]\n----\nc\n----", "<< blockgroup:g",
        "<< mau:inc", "<< mau:missing", "<< raw:missing", "<< image:u", "<< image", "[isolate=false]\n----\n= H3\n\n[footnote=f]\n++++\nd\n++++\n----",
        "----\n:w:2\n\n[isolate=false]\n++++\n= H\n++++\n----", "[engine=source,language=c]\n----\nx:1:\n----", "[engine=raw]\n----\n{z}\n----",
        "[k]\n.lab t\nb", "[k]\n. {e}\nb", "{z}", "[if:z==1](x)", "[engine=nope]\n----\n----", "[name=h]\n= H [footnote](f)",
        "[isolate=false]\n----\nq [footnote](f)\n\n[group=g,position=p]\n++++\n++++\n----", "<< foo:x", "@if v==y\na", "# z\n# z" >>
(* The condition stands before the construct, its arguments and its label.    *)
Rows(t) == Split(t, "\n")
True == "@if v==x\n"
False == "@if v!=x\n"
Pad(n) == Rep("//\n", n)
NQ == Len(Q)
(* piece k: construct without control, with a true one, with a false one *)
P1 == [k \in 1..(3 * NQ) |-> LET q == Q[((k - 1) % NQ) + 1] IN
          (IF k <= NQ THEN "" ELSE IF k <= 2 * NQ THEN True ELSE False) \o q \o "\n\n"]
Reduced1 == [k \in 1..(3 * NQ) |-> LET q == Q[((k - 1) % NQ) + 1] IN
          IF k <= NQ THEN q \o "\n\n" ELSE IF k <= 2 * NQ THEN Pad(1) \o q \o "\n\n"
          ELSE Pad(Len(Rows(q)) + 1) \o "\n"]
Fs == ("inc" :> "= I\n\n[footnote=f]\n----\nx\n----\n:w:3")
E1 == MakeEnv(("v" :> "x") @@ ("w" :> "1") @@ ("e" :> ""), <<>>, Fs)
(* What follows shows the traces. *)
V1 == << Around(E1, "", ""),
         Around(E1, "", "\n<< toc\n\n[start=auto]\n# l {w}"),
         Around(E1, "[name=h]\n= B\n\n[footnote=f]\n++++\nb\n++++\n", "\n<< footnotes"),
         Around(E1, "[group=g,position=p]\n----\n----\n# a\n\n", "\n<< blockgroup:g") >>

(* Conditions: a comparison with the value as it is written. *)
Values == << "x", "X", "xx", "x y", "1", "true", "True", "\"x\"", "0", "x=", "==x", "!", "x!=x" >>
Pc == [k \in 1..(2 * Len(Values)) |-> IF k <= Len(Values) THEN "==" \o Values[k] ELSE "!=" \o Values[k - Len(Values)]]
CEnv(j) == Around(MakeEnv(("v" :> Values[j]), <<>>, NoFiles), "@if v", "\na\n\nb")
Vc == [j \in 1..Len(Values) |-> CEnv(j)]
ByValue == (Finished /\ Len(doc) = 1) =>
  LET same == env = ((doc[1] - 1) % Len(Values)) + 1
      equal == doc[1] <= Len(Values)
  IN S.st = "done" /\ Len(S.out) = (IF same = equal THEN 2 ELSE 1)

Reduced == Envs[env].b \o Join([j \in 1..Len(doc) |-> Reduced1[doc[j]]], Sep) \o Envs[env].a
Same == Finished => LET R == Run(Reduced, E0) IN Outcome(R) = Outcome(S) /\ R.used = S.used
=================================================================================
