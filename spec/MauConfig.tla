------------------------------- MODULE MauConfig -------------------------------
(* The configuration that templates see: the values of the environment when   *)
(* the document is over, as nested dictionaries; nothing is rendered when     *)
(* there is no document.                                                      *)
EXTENDS MauVisit
Env9 == INSTANCE MauEnv

Config(S) == IF S.st = "done" /\ S.out # <<>> THEN << S.vars >> ELSE <<>>
(* The dictionary nested, as a sequence of <<name, "value" or "names", x>>.   *)
RECURSIVE Nested(_)
Nested(m) ==
  LET ks == { Env9!First(n) : n \in DOMAIN m }
      RECURSIVE seq(_)
      seq(q) == IF q = {} THEN <<>>
                ELSE LET k == CHOOSE x \in q : TRUE
                     IN << IF k \in DOMAIN m THEN << k, "value", m[k] >> ELSE << k, "names", Nested(Env9!Sub(m, k)) >> >> \o seq(q \ {k})
  IN seq(ks)
Shown(S) == IF Config(S) = <<>> THEN <<>> ELSE << Nested(Config(S)[1]) >>
================================================================================
