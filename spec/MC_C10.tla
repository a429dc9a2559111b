--------------------------------- MODULE MC_C10 ---------------------------------
(* Lists of arguments, in a line and in a macro.                              *)
EXTENDS MauPlainArgs

Al == << [n |-> "al", args |-> << <<"k", "1">>, <<"m", "2">> >>, names |-> <<"l", "k">>, sub |-> "z"],
         [n |-> "no", args |-> <<>>, names |-> <<>>, sub |-> ""] >>
E1 == MakeEnv(NoVars, Al, NoFiles)
V1 == << Around(E1, "[", "]\n---") >>
V2 == << Around(E1, "[", "]\n---"), Around(E1, "a [foo](", ")"), Around(E1, "<< foo:", "") >>
(* the characters that matter *)
P1 == << "a", "b", ",", " ", "\"", "=", "\\", "#", "*" >>
(* arguments, with prefixes and aliases *)
P2 == << "a", "", "k=v", "l=w", "k=\"v,w\"", "m=", "\"a,b\"", "#t", "#mau:i", "#mau:x:y", "*s", "\"*u\"", "@al", "@no", "@x", "#", "##a", "#*a", "*", "=x", "c d" >>
Comma == ","
CommaSpace == ", "

Args == S.out[1].g
One == Succeeded /\ Len(S.out) = 1 /\ S.out[1].k = "horizontal-rule"
Plainly == \A c \in {"\"", "\\", " "} : ~Contains(Body, c)
NmSeq(g) == [j \in 1..Len(g.nm) |-> g.nm[j][1]]

(* Without quotes and escapes: what the text says. *)
J == Items(Body)
Starts(q, c) == LET f(x) == StartsWith(x, c) IN SelectSeq(q, f)
Tails(q) == [j \in 1..Len(q) |-> From(q[j], 2)]
Pos == Positional(J)
Tags == Tails(Starts(Pos, "#"))
Subs == Tails(Starts(Pos, "*"))
Alis == Tails(Starts(Pos, "@"))
Others == LET f(x) == ~(StartsWith(x, "#") \/ StartsWith(x, "*") \/ StartsWith(x, "@")) IN SelectSeq(Pos, f)
Wrong == BadOrder(J) \/ Len(Subs) > 1 \/ Len(Alis) > 1 \/ (Len(Alis) = 1 /\ Alis[1] \notin {"al", "no", "source"})
(* What an alias adds. *)
A1 == IF Alis = <<>> THEN [n |-> "", args |-> <<>>, names |-> <<>>, sub |-> ""]
      ELSE CHOOSE a \in { E0.aliases[j] : j \in 1..Len(E0.aliases) } : a.n = Alis[1]
AliasKeys == { A1.args[j][1] : j \in 1..Len(A1.args) } \ GivenKeys(J)
AliasVal(k) == A1.args[CHOOSE j \in 1..Len(A1.args) : A1.args[j][1] = k][2]
ByName == LET f(n) == n \notin GivenKeys(J) \cup AliasKeys IN SelectSeq(A1.names, f)
NFill == MinI(Len(ByName), Len(Others))
Filled == { ByName[j] : j \in 1..NFill }
(* "start" is not treated specially on a rule *)
AsWritten ==
  (Finished /\ Plainly) =>
    IF Wrong THEN Failed
    ELSE /\ One
         /\ Args.un = SubSeq(Others, NFill + 1, Len(Others))
         /\ { NmSeq(Args)[j] : j \in 1..Len(NmSeq(Args)) } = GivenKeys(J) \cup AliasKeys \cup Filled
         /\ \A j \in 1..Len(Args.nm) :
              LET k == Args.nm[j][1] v == Args.nm[j][2]
              IN v = (IF k \in GivenKeys(J) THEN Given(J, k) ELSE IF k \in AliasKeys THEN AliasVal(k) ELSE Others[IndexIn(ByName, k)])
         /\ Args.tg = SelectSeq(Tags, External)
         /\ Args.itg = [j \in 1..Len(SelectSeq(Tags, Internal)) |-> From(SelectSeq(Tags, Internal)[j], 5)]
         /\ Args.sub = (IF Subs # <<>> THEN <<Subs[1]>> ELSE IF A1.sub # "" THEN <<A1.sub>> ELSE <<>>)
(* No argument is in two places, and no name is there twice. *)
OneName == One => \A i, j \in 1..Len(Args.nm) : Args.nm[i][1] = Args.nm[j][1] => i = j

(* Quotes around a value that does not need them change nothing. *)
RECURSIVE QuoteAll(_)
QuoteAll(q) ==
  IF q = <<>> THEN <<>>
  ELSE << IF Contains(q[1], "\"") THEN q[1]
          ELSE IF IsNamed(q[1]) THEN KeyOf(q[1]) \o "=\"" \o ValueOf(q[1]) \o "\"" ELSE "\"" \o q[1] \o "\"" >> \o QuoteAll(Tail(q))
Quoted == Envs[env].b \o Join(QuoteAll([j \in 1..Len(doc) |-> Pieces[doc[j]]]), Sep) \o Envs[env].a
NoStray == \A j \in 1..Len(doc) : IsNamed(Pieces[doc[j]]) \/ ~Contains(Pieces[doc[j]], "=")
RECURSIVE NoPos(_)
NoPos(q) == [j \in 1..Len(q) |-> <<q[j].k, q[j].a, q[j].g, NoPos(q[j].c)>>]
SameQuoted ==
  (Succeeded /\ NoStray /\ doc # <<>> /\ Last(doc) # 2 /\ (env = 3 => Body # "")) =>
     LET R == Run(Quoted, E0) IN R.st = "done" /\ NoPos(R.out) = NoPos(S.out)
=================================================================================
