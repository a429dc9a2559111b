--------------------------------- MODULE MC_C09 ---------------------------------
(* Macros: the arguments are where the syntax says, conditions select one     *)
(* branch, and what is not a macro is text.                                   *)
EXTENDS MauPlainArgs

Vars == ("v" :> "x") @@ ("w" :> "_e_") @@ ("z" :> "[link](r)")
E1 == MakeEnv(Vars, <<>>, NoFiles)
Heads == << "link", "mailto", "image", "class", "unicode", "raw", "foo", "if:v==x", "if:v!=x", "ifeval:v==x", "ifeval:v!=x" >>
V1 == [j \in 1..Len(Heads) |-> Around(E1, "a[" \o Heads[j] \o "](", ")b")]
Head1 == Heads[env]
(* the arguments *)
P1 == << "u", "t q", ",", "=", "_s_", "target", "text", "w", "z", "uri", "value", "email", "true_case", "false_case", "alt_text" >>
P2 == << "u", ",", "text=", "_s_", "\"", "\\", ")", "(", "[link](c", "w", " " >>

Op == Split(Head1, ":")[1]
Names == IF Op \in {"if", "ifeval"} THEN <<"true_case", "false_case">>
         ELSE CASE Op = "link" -> <<"target", "text">> [] Op = "mailto" -> <<"email", "text">>
                [] Op = "image" -> <<"uri", "alt_text", "width", "height">>
                [] Op = "class" -> <<"text">> [] Op \in {"unicode", "raw"} -> <<"value">> [] OTHER -> <<>>
I == Items(Body)
Got(k) == Value(I, Names, k)
Maybe(k) == IF Has(I, Names, k) THEN "+" \o Got(k) ELSE "-"
Plainly == ~Contains(Body, "\"") /\ ~Contains(Body, "\\") /\ ~Contains(Body, "(") /\ ~Contains(Body, ")") /\ ~StartsWith(Body, " ")
           /\ ~EndsWith(Body, " ") /\ \A x \in {" ,", ", ", " =", "= "} : ~Contains(Body, x)
Mandatory == IF Names = <<>> THEN TRUE ELSE Has(I, Names, Names[1])
Holds == Contains(Head1, "==")
Branch == IF Holds THEN "true_case" ELSE "false_case"
(* Pairs of markers are removed. *)
RECURSIVE LastAt(_, _, _)
LastAt(s, c, i) == IF Ch(s, i) = c THEN i ELSE LastAt(s, c, i - 1)
NoMarks(s) ==
  IF CountCh(s, "_", 1) % 2 = 0 THEN Without(s, {"_"}, 1)
  ELSE LET k == LastAt(s, "_", Len(s)) IN Without(SubSeq(s, 1, k - 1), {"_"}, 1) \o From(s, k)

RECURSIVE Seen(_)
Seen(q) == IF q = <<>> THEN "" ELSE (IF q[1].k \in {"text", "verbatim"} THEN q[1].a[1] ELSE Seen(q[1].c)) \o Seen(Tail(q))
Line == S.out[1].c[1].c
Macros == LET m(n) == n.k \notin {"text", "verbatim", "style"} IN SelectSeq(Line, m)
M == Macros[1]
(* One node, between the text before and the text after. *)
Alone1 == Len(Line) = 3 /\ Line[1].k = "text" /\ Line[1].a = <<"a">> /\ Line[3].k = "text" /\ Line[3].a = <<"b">> /\ Macros = << Line[2] >>
Text1 == IF Has(I, Names, "text") THEN NoMarks(Got("text")) ELSE Got(Names[1])
ArgsAsWritten ==
  (Finished /\ Plainly /\ ~StartsWith(Op, "if")) =>
    IF BadOrder(I) \/ ~Mandatory THEN Failed
    ELSE /\ Succeeded /\ Alone1
         /\ CASE Op = "link"    -> M.k = "macro-link" /\ M.a = <<Got("target")>> /\ Seen(M.c) = Text1
              [] Op = "mailto"  -> M.k = "macro-link" /\ M.a = <<"mailto:" \o Got("email")>> /\ Seen(M.c) = Text1
              [] Op = "image"   -> M.k = "macro-image" /\ M.a = <<Got("uri"), Maybe("alt_text"), Maybe("width"), Maybe("height")>>
              [] Op = "class"   -> M.k = "macro-class" /\ M.a = Rest(I, Names) /\ Seen(M.c) = NoMarks(Got("text"))
              [] Op = "unicode" -> M.k = "macro-unicode" /\ M.a = <<Got("value")>>
              [] Op = "raw"     -> M.k = "macro-raw" /\ M.a = <<Got("value")>>
              [] OTHER -> /\ M.k = "macro" /\ M.a = <<Op>> /\ M.g.un = Positional(I)
                          /\ { M.g.nm[j][1] : j \in 1..Len(M.g.nm) } = GivenKeys(I)
                          /\ \A j \in 1..Len(M.g.nm) : M.g.nm[j][2] = Given(I, M.g.nm[j][1])
(* A condition: the sentence with the branch in it; the other branch is not    *)
(* there at all.                                                              *)
NoPos(q) == [j \in 1..Len(q) |-> <<q[j].k, q[j].a>>]
Written(t) == Seen(TextParse("a" \o t \o "b", <<0, 0>>, E0).n)
OneBranch ==
  (Finished /\ Plainly /\ StartsWith(Op, "if")) =>
    IF BadOrder(I) \/ ~Mandatory THEN Failed
    ELSE IF Op = "if" THEN Succeeded /\ Seen(Line) = (IF Has(I, Names, Branch) THEN Written(Got(Branch)) ELSE "ab")
    ELSE IF ~Has(I, Names, Branch) THEN Failed
    ELSE IF Got(Branch) \notin DOMAIN Vars THEN Failed
    ELSE Succeeded /\ Seen(Line) = Written(Vars[Got(Branch)])

(* What is not well formed is text. *)
P3 == << "[", "]", "(", ")", "link", "foo", "a", " ", "\"", "if:v==x" >>
V3 == << Around(E1, "a ", "") >>
Source(n) == Span(n.p)
WellFormed ==
  (Succeeded /\ Len(S.out) = 1 /\ S.out[1].k = "paragraph") =>
    \A j \in 1..Len(Line) :
      LET n == Line[j] s == Source(n) c == FindFrom(s, "](", 1)
      IN IF n.k \in {"macro", "macro-link"}
         THEN /\ StartsWith(s, "[") /\ EndsWith(s, ")") /\ c > 2
              /\ (c = 3 \/ ~Contains(SubSeq(s, 2, c - 1), " "))
              /\ (n.k = "macro" => n.a = <<SubSeq(s, 2, c - 1)>>)
         ELSE n.k = "text"
(* No simple macro is left in the text. *)
NoMacroLeft ==
  (Succeeded /\ Len(S.out) = 1 /\ S.out[1].k = "paragraph") =>
    \A j \in 1..Len(Line) :
       Line[j].k = "text" => LET s == Line[j].a[1]
                             IN ~Contains(s, "[foo](a)") /\ ~Contains(s, "[link](a)") /\ ~Contains(s, "[foo]()") /\ ~Contains(s, "[link](foo)")
=================================================================================
