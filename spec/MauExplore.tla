------------------------------ MODULE MauExplore ------------------------------
(* All documents made of pieces of an alphabet, processed step by step. The  *)
(* models (MC_*.tla) extend this module: they choose the alphabet and state  *)
(* the properties of the documents.                                          *)
(* The properties are stated on their own terms, not with the operators of   *)
(* the machine.                                                              *)
EXTENDS MauVisit, Json

CONSTANTS Pieces,     \* the alphabet, a sequence of texts
          Sep,        \* what separates two pieces
          MaxPieces, MinPieces,
          Envs        \* sequence of [E (an environment, see MakeEnv), b, a (text before and after)]

VARIABLES doc,        \* the pieces of the document
          env,        \* which of Envs
          S           \* the machine

vars == <<doc, env, S>>

Body == Join([j \in 1..Len(doc) |-> Pieces[doc[j]]], Sep)
Text == Envs[env].b \o Body \o Envs[env].a
E0 == Envs[env].E

Writing == [fr |-> <<>>, T |-> <<>>, st |-> "write", out |-> <<>>, err |-> NoErr, used |-> <<>>, calls |-> <<>>, vars |-> NoVars]
Init == doc = <<>> /\ S = Writing /\ env \in 1..Len(Envs)

Write(k) == S.st = "write" /\ Len(doc) < MaxPieces /\ doc' = Append(doc, k) /\ S' = S /\ env' = env
Begin == S.st = "write" /\ Len(doc) >= MinPieces /\ S' = InitState(Text, E0) /\ UNCHANGED <<doc, env>>

Do(k) == S.st = "run" /\ Construct(S) = k /\ S' = StepOf(S, k) /\ UNCHANGED <<doc, env>>
End == Do("End")
Eol == Do("Eol")
Rule == Do("Rule")
Variable == Do("Variable")
Label == Do("Label")
Ctl == Do("Control")
Arguments == Do("Arguments")
Header == Do("Header")
Block == Do("Block")
Include == Do("Include")
List == Do("List")
Paragraph == Do("Paragraph")
BadToken == Do("BadToken")

Processing == End \/ Eol \/ Rule \/ Variable \/ Label \/ Ctl \/ Arguments \/ Header \/ Block \/ Include
              \/ List \/ Paragraph \/ BadToken
Next == (\E k \in 1..Len(Pieces) : Write(k)) \/ Begin \/ Processing
Spec == Init /\ [][Next]_vars

Finished == S.st \in {"done", "fail"}
Succeeded == S.st = "done"
Failed == S.st = "fail"

NL == "\n"
Glued == ""
NoFiles == [x \in {} |-> ""]
PlainEnv == MakeEnv(NoVars, <<>>, NoFiles)
Alone(E) == << [E |-> E, b |-> "", a |-> ""] >>
Plain == Alone(PlainEnv)
Around(E, b, a) == [E |-> E, b |-> b, a |-> a]

Lines == Split(Text, "\n")
Span(p) == SpanIn(Lines, p)

(* All the nodes of a piece of output, labels included. *)
RECURSIVE AllNodes(_)
AllNodes(q) ==
  IF q = <<>> THEN <<>>
  ELSE << q[1] >> \o AllNodes(q[1].c) \o AllNodes(FlattenSeq([j \in 1..Len(q[1].l) |-> q[1].l[j].c]))
       \o AllNodes(SubSeq(q, 2, Len(q)))
OfKind(q, k) == LET is(n) == n.k = k IN SelectSeq(q, is)
Kinds(q) == [j \in 1..Len(q) |-> q[j].k]

(* The finished documents are printed, to be replayed in the real code.      *)
EnvOut == << E0.vars, E0.files, E0.conf[1], E0.conf[2], E0.conf[3], E0.conf[4] >>
Export == Finished => PrintT("@@" \o ToJson(<<Text, EnvOut, Outcome(S)>>))
================================================================================
