--------------------------------- MODULE MC_C19 ---------------------------------
(* All the histories of a few operations on environments.                     *)
EXTENDS MauEnv, Json

CONSTANTS MaxOps, Dicts, Spaces, Keys, Values

VARIABLES envs,    \* the environments
          hist     \* the operations so far
vars == <<envs, hist>>

L(v) == Leaf(v)
D1 == << Dict(<< <<"a", L("1")>> >>),
         Dict(<< <<"a", Dict(<< <<"b", L("2")>>, <<"bc", L("3")>> >>)>> >>),
         Dict(<< <<"a.b", Dict(<< <<"c", L("4")>> >>)>>, <<"b", L("list")>> >>),
         Dict(<< <<"a", Dict(<<>>)>>, <<"ab", L("5")>> >>),
         Dict(<<>>) >>
S1 == << "", "a", "x.a" >>
K1 == << "a", "a.b", "b" >>
V1 == << L("6"), Dict(<< <<"b", L("7")>> >>), Dict(<<>>) >>
D2 == << Dict(<< <<"a", Dict(<< <<"b", L("2")>>, <<"a", L("3")>> >>)>>, <<"ab", L("8")>> >>) >>
S2 == << "", "a" >>
K2 == << "a", "a.b" >>
V2 == << L("6"), Dict(<< <<"b", L("7")>> >>) >>

Probes == << "a", "a.b", "a.bc", "a.b.c", "b", "ab", "x", "x.a", "x.a.a", "x.a.b", "a.a", "a.a.b", "", "c" >>

None == Dict(<<>>)
O(op, e, f, ns, d, key, ow) == [op |-> op, e |-> e, f |-> f, ns |-> ns, d |-> d, key |-> key, ow |-> ow]
Do(o) == Len(hist) < MaxOps /\ Allowed(envs, o) /\ envs' = Apply(envs, o) /\ hist' = Append(hist, o)

Init == envs = <<>> /\ hist = <<>>
From == \E d \in 1..Len(Dicts), n \in 1..Len(Spaces) : Do(O("from", 0, 0, Spaces[n], Dicts[d], "", FALSE))
Merge == \E e \in 1..Len(envs), d \in 1..Len(Dicts), n \in 1..Len(Spaces) : Do(O("dup", e, 0, Spaces[n], Dicts[d], "", TRUE))
Set == \E e \in 1..Len(envs), k \in 1..Len(Keys), v \in 1..Len(Values) : Do(O("set", e, 0, "", Values[v], Keys[k], TRUE))
Update == \E e, f \in 1..Len(envs), n \in 1..Len(Spaces), w \in BOOLEAN : Do(O("upd", e, f, Spaces[n], None, "", w))
Clone == \E e \in 1..Len(envs), n \in 1..Len(Spaces) : Do(O("clone", e, 0, Spaces[n], None, "", FALSE))
Prefix == \E e \in 1..Len(envs), k \in 1..Len(Keys) : Do(O("sub", e, 0, "", None, Keys[k], FALSE))
Next == From \/ Merge \/ Set \/ Update \/ Clone \/ Prefix
Spec == Init /\ [][Next]_vars

(************************** Properties ************************************)
Latest == hist'[Len(hist')]
(* What is stored is read by its full dotted name: the values of a tree, by  *)
(* following the keys. *)
RECURSIVE ValueAt(_, _)
ValueAt(t, path) == IF path = <<>> THEN IF t.leaf THEN t.v ELSE "{}"
                    ELSE ValueAt(t.kids[path[1]][2], Tail(path))
RECURSIVE Paths(_)
Paths(t) == IF t.leaf \/ t.kids = <<>> THEN { <<>> }
            ELSE UNION { { <<j>> \o p : p \in Paths(t.kids[j][2]) } : j \in 1..Len(t.kids) }
RECURSIVE NameAt(_, _)
NameAt(t, path) == IF path = <<>> THEN "" ELSE LET k == t.kids[path[1]] IN
                   IF Len(path) = 1 THEN k[1] ELSE k[1] \o "." \o NameAt(k[2], Tail(path))
FullName(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "." \o b
Stored(o) == { << FullName(IF o.op = "set" THEN o.key ELSE o.ns, NameAt(o.d, p)), ValueAt(o.d, p) >> :
               p \in { q \in Paths(o.d) : o.op = "set" \/ o.ns # "" \/ q # <<>> } }
Where(o) == IF o.op \in {"dup", "set", "upd"} THEN o.e ELSE Len(envs) + 1

ReadBack == [][ Latest.op \in {"from", "dup", "set"} =>
                  \A s \in Stored(Latest) : LET m == envs'[Where(Latest)] IN
                     (s[2] = "{}" /\ Names(m, s[1]) # {}) \/ Read(m, s[1]) = << "value", s[2] >> ]_vars
(* Names that are not stored are untouched, in every environment. *)
Untouched == [][ \A e \in 1..Len(envs) :
                   IF e # Where(Latest) THEN envs'[e] = envs[e]
                   ELSE /\ DOMAIN envs[e] \subseteq DOMAIN envs'[e]
                        /\ Latest.op \in {"dup", "set"} =>
                             \A n \in DOMAIN envs'[e] : (\A s \in Stored(Latest) : s[1] # n) =>
                                 n \in DOMAIN envs[e] /\ envs'[e][n] = envs[e][n] ]_vars
NeverOverwritten == [][ Latest.op = "upd" =>
   LET m == envs'[Latest.e] a == envs[Latest.e] b == Under(envs[Latest.f], Latest.ns) IN
   /\ DOMAIN m = DOMAIN a \cup DOMAIN b
   /\ \A n \in DOMAIN m : m[n] = IF n \in DOMAIN a /\ (n \notin DOMAIN b \/ ~Latest.ow) THEN a[n] ELSE b[n] ]_vars
PrefixExact == \A e \in 1..Len(envs), j \in 1..Len(Probes) :
   LET r == Read(envs[e], Probes[j]) IN
   r[1] = "names" => /\ \A n \in DOMAIN r[2] : envs[e][Probes[j] \o "." \o n] = r[2][n]
                     /\ Cardinality(DOMAIN r[2]) = Cardinality({ n \in DOMAIN envs[e] : EStarts(n, Probes[j] \o ".") })
                     /\ r[2] # Nothing
(* Nesting and flattening are inverse to each other. *)
RECURSIVE Reached(_, _)
Reached(t, n) == IF n \in DOMAIN t THEN t[n] ELSE Reached(t[First(n)], EFrom(n, Len(First(n)) + 2))
Inverse == \A e \in 1..Len(envs) :
   Nestable(envs[e]) => \A n \in DOMAIN envs[e] : Reached(Nest(envs[e]), n) = envs[e][n]

Export == hist # <<>> => PrintT("@@" \o ToJson(<<hist, [e \in 1..Len(envs) |-> Seen(envs[e], Probes)]>>))
=================================================================================
