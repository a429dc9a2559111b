--------------------------------- MODULE MC_C16 ---------------------------------
(* Inclusions: cycles are found, files see the variables they are given.      *)
EXTENDS MauVisited

(* Three files, each with a few lines; all the graphs of inclusions.          *)
FN == <<"f1", "f2", "f3">>
Calls == << "", "<< mau:f1", "<< mau:f2", "<< mau:f3", "----\n<< mau:f1\n----", "----\n\n++++\n<< mau:f2\n++++\n----",
            "<< mau:main.mau", "<< raw:f1", "<< mau:f3\n\n<< mau:f3" >>
NC == Len(Calls)
Graph(n) == LET a == (n - 1) % NC  b == ((n - 1) \div NC) % NC  c == ((n - 1) \div (NC * NC)) % NC
            IN ("f1" :> "t1\n\n" \o Calls[a + 1]) @@ ("f2" :> Calls[b + 1] \o "\n\nt2") @@ ("f3" :> "t3\n\n" \o Calls[c + 1] \o "\n")
V1 == [n \in 1..(NC * NC * NC) |-> Around(MakeEnv(NoVars, <<>>, Graph(n)), "", "")]
P1 == << "<< mau:f1", "<< mau:f2", "<< mau:f1\n\n<< mau:f1", "----\n<< mau:f2\n----\n\n<< mau:f2" >>

(* What a text includes. *)
Includes(t) == { f \in {"f1", "f2", "f3", "main.mau"} : Contains(t, "mau:" \o f) }
RECURSIVE ReachFrom(_)
ReachFrom(set) == LET new == set \cup UNION { IF f = "main.mau" THEN {"main.mau"} ELSE Includes(E0.files[f]) : f \in set }
                  IN IF new = set THEN set ELSE ReachFrom(new)
Reached == ReachFrom(Includes(Text))
Cyclic == "main.mau" \in Reached \/ \E f \in Reached \ {"main.mau"} : f \in ReachFrom(Includes(E0.files[f]))
CyclesFail == Finished => (Failed <=> Cyclic)
(* A file is never in the middle of itself. *)
NeverTwice == \A i, j \in 1..Len(S.fr) : (i < j /\ S.fr[i].file = S.fr[j].file) => \A k \in i..j : S.fr[k].file = S.fr[i].file
(* An inclusion is the document that the file contains. *)
Content(f) == LET R == Run(E0.files[f], E0) IN [j \in 1..Len(R.out) |-> R.out[j].k]
AsDocument == Succeeded => LET q == OfKind(AllNodes(S.out), "include-mau")
                           IN \A j \in 1..Len(q) : Kinds(q[j].c) = Content(q[j].a[1])

(* Variables. *)
P2 == << ":v:1", ":w:2", "<< mau:i", "<< mau:i,call:v=7", "<< mau:i,pass_environment=false,call:v=8,call:w=9", "[i,call:w=6]\n<< mau", "{v}{w}\n",
         "----\n:v:3\n<< mau:i\n----", "<< mau:j", "<< mau:j,pass_environment=no", "@if v==0\n<< mau:no", "<< mau:i,call:v={w}{v}" >>
V2 == Alone(MakeEnv(("v" :> "a") @@ ("w" :> "b"), <<>>, ("i" :> "{v}{w}\n:v:x\n:+z:\n{v}") @@ ("j" :> ":w:y\n<< mau:i,call:v=c\n\n{w}")))
RECURSIVE Seen(_)
Seen(q) == IF q = <<>> THEN "" ELSE (IF q[1].k = "text" THEN q[1].a[1] ELSE Seen(q[1].c)) \o Seen(Tail(q))
(* What is read, from the pieces; "!" is an error. *)
In1(v, w) == v \o w \o "x"
RECURSIVE Read(_, _, _)
Read(j, v, w) ==
  IF j > Len(doc) THEN ""
  ELSE LET t == P2[doc[j]]
       IN CASE t = ":v:1" -> Read(j + 1, "1", w) [] t = ":w:2" -> Read(j + 1, v, "2")
            [] t = "<< mau:i" -> In1(v, w) \o Read(j + 1, v, w)
            [] t = "<< mau:i,call:v=7" -> In1("7", w) \o Read(j + 1, v, w)
            [] t = "<< mau:i,pass_environment=false,call:v=8,call:w=9" -> In1("8", "9") \o Read(j + 1, v, w)
            [] t = "[i,call:w=6]\n<< mau" -> In1(v, "6") \o Read(j + 1, v, w)
            [] t = "{v}{w}\n" -> v \o w \o Read(j + 1, v, w)
            [] t = "----\n:v:3\n<< mau:i\n----" -> In1("3", w) \o Read(j + 1, "3", w)
            [] t = "<< mau:j" -> In1("c", "y") \o "y" \o Read(j + 1, v, w)
            [] t = "<< mau:j,pass_environment=no" -> In1("c", "y") \o "y" \o Read(j + 1, v, w)
            [] t = "@if v==0\n<< mau:no" -> Read(j + 1, v, w)
            [] t = "<< mau:i,call:v={w}{v}" -> In1(w \o v, w) \o Read(j + 1, v, w)
Given == Finished => Succeeded /\ Seen(S.out) = Read(1, "a", "b")
(* Nothing that happens in a file changes the variables of the document.      *)
Protected ==
  [][ (S.st = "run" /\ S'.st = "run" /\ Cur(S).kind = "mau" /\ Construct(S) = "End")
       => S'.fr[Len(S'.fr)].E = S.fr[Len(S.fr) - 1].E ]_vars
=================================================================================
