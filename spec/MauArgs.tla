-------------------------------- MODULE MauArgs --------------------------------
(* Single lines: variable replacement, lists of arguments, conditions.       *)
(*                                                                           *)
(* The environment is [vars |-> function from names to texts,                *)
(*   aliases |-> sequence of [n, args (sequence of <<key, value>>), names    *)
(*   (sequence of names), sub (text)], styles |-> sequence of <<a, style>>,  *)
(*   sc |-> number of the scope of links and footnotes, files |-> function   *)
(*   from names to contents].                                                *)
EXTENDS MauText

(* A single line of text is split in tokens: literals (single characters),   *)
(* groups of spaces and groups of other characters. Spaces at the end of the *)
(* line are dropped at the boundary of a token; a line of spaces is one      *)
(* token. sp: "join" (one token for a group of spaces), "each" (one token    *)
(* for each space), "no" (spaces are like any other character).              *)
(* A token is [t, v, s], s being the 0-based offset in the line.             *)
LTok(t, v, s) == [t |-> t, v |-> v, s |-> s]

RECURSIVE LineToks(_, _, _, _, _)
LineToks(s, i, lits, sp, acc) ==
  IF i > Len(s) \/ AllSpacesFrom(s, i) THEN acc
  ELSE
    LET c == Ch(s, i)
    IN IF c \in lits THEN LineToks(s, i + 1, lits, sp, Append(acc, LTok("LITERAL", c, i - 1)))
       ELSE IF c = " " /\ sp = "each" THEN LineToks(s, i + 1, lits, sp, Append(acc, LTok("TEXT", c, i - 1)))
       ELSE IF c = " " /\ sp = "join"
       THEN LET j == SkipSp(s, i)
            IN LineToks(s, j, lits, sp, Append(acc, LTok("WS", SubSeq(s, i, j - 1), i - 1)))
       ELSE LET j == SkipOut(s, i, IF sp = "no" THEN lits ELSE lits \cup Sp)
            IN LineToks(s, j, lits, sp, Append(acc, LTok("TEXT", SubSeq(s, i, j - 1), i - 1)))

(* The end of the line is marked by an EOF token, whose value is empty.      *)
Tokens(s, lits, sp) ==
  IF s = "" THEN << LTok("EOF", "", 0) >>
  ELSE IF AllSpacesFrom(s, 1) THEN << LTok("EOL", s, 0), LTok("EOF", "", 0) >>
  ELSE Append(LineToks(s, 1, lits, sp, <<>>), LTok("EOF", "", Len(s)))

(* The token at position i; past the end, the last one. *)
At(toks, i) == IF i > Len(toks) THEN toks[Len(toks)] ELSE toks[i]
IsLit(toks, i, v) == At(toks, i).t = "LITERAL" /\ At(toks, i).v = v
IsEof(toks, i) == At(toks, i).t = "EOF"

(* Collect tokens up to a literal in stops, or the end. A backslash in front *)
(* of a stop is dropped, unless keep is on; the token that follows a         *)
(* backslash is always collected. Result: [v, from, to, i], where from and   *)
(* to are the first and the last collected tokens (0 if there are none).     *)
IsStop(toks, i, stops) == IsEof(toks, i) \/ (At(toks, i).t = "LITERAL" /\ At(toks, i).v \in stops)

RECURSIVE CollectFrom(_, _, _, _, _)
CollectFrom(toks, i, stops, keep, acc) ==
  IF IsStop(toks, i, stops) THEN [acc EXCEPT !.i = i]
  ELSE IF IsLit(toks, i, "\\")
  THEN LET kept == keep \/ ~IsStop(toks, i + 1, stops)
           first == IF kept THEN i ELSE i + 1
       IN CollectFrom(toks, i + 2, stops, keep,
                      [acc EXCEPT !.v = @ \o (IF kept THEN "\\" ELSE "") \o At(toks, i + 1).v,
                                  !.from = IF @ = 0 THEN first ELSE @,
                                  !.to = i + 1])
  ELSE CollectFrom(toks, i + 1, stops, keep,
                   [acc EXCEPT !.v = @ \o At(toks, i).v, !.from = IF @ = 0 THEN i ELSE @, !.to = i])
Collect(toks, i, stops, keep) == CollectFrom(toks, i, stops, keep, [v |-> "", from |-> 0, to |-> 0, i |-> i])

(* Context of a token, of a range of tokens, in a line that starts at b.     *)
TCtx(toks, i, b) == << b[1], b[2] + At(toks, i).s, b[1], b[2] + At(toks, i).s + Len(At(toks, i).v) >>
RCtx(toks, i, j, b) == IF i = 0 THEN Ctx0 ELSE Merge(TCtx(toks, i, b), TCtx(toks, j, b))

NoErr == [cls |-> "", line |-> 0, col |-> 0]
PErr(ctx) == [cls |-> "parser", line |-> ctx[1], col |-> ctx[2]]
LErr(l, c) == [cls |-> "lexer", line |-> l, col |-> c]
IsErr(e) == e.cls # ""

(***************************** Variables **********************************)
EnvHas(E, n) == n \in DOMAIN E.vars
EnvGet(E, n) == E.vars[n]
EnvSet(E, n, v) == [E EXCEPT !.vars = (n :> v) @@ @]

PreLits == {"\\", "`", "{", "}"}

(* Result: [v, err]. b is the position of the text in the source. *)
RECURSIVE PreFrom(_, _, _, _, _)
PreFrom(toks, i, b, E, acc) ==
  IF IsEof(toks, i) THEN [v |-> acc, err |-> NoErr]
  ELSE IF IsLit(toks, i, "\\")
  THEN LET c == At(toks, i + 1).v
       IN PreFrom(toks, i + 2, b, E, acc \o (IF c \in {"", "{", "}"} THEN c ELSE "\\" \o c))
  ELSE
    LET tick == IF IsLit(toks, i, "`") THEN Collect(toks, i + 1, {"`"}, TRUE) ELSE [i |-> 0]
        brac == IF IsLit(toks, i, "{") THEN Collect(toks, i + 1, {"}"}, FALSE) ELSE [i |-> 0]
    IN IF tick.i # 0 /\ IsLit(toks, tick.i, "`")
       THEN PreFrom(toks, tick.i + 1, b, E, acc \o "`" \o tick.v \o "`")
       ELSE IF brac.i # 0 /\ IsLit(toks, brac.i, "}")
       THEN IF StartsWith(brac.v, "{")
            THEN IF IsLit(toks, brac.i + 1, "}")
                 THEN PreFrom(toks, brac.i + 2, b, E, acc \o brac.v \o "}")
                 ELSE [v |-> "", err |-> PErr(RCtx(toks, brac.from, brac.to, b))]
            ELSE IF EnvHas(E, brac.v)
                 THEN PreFrom(toks, brac.i + 1, b, E, acc \o EnvGet(E, brac.v))
                 ELSE [v |-> "", err |-> PErr(RCtx(toks, i, brac.i, b))]
       ELSE PreFrom(toks, i + 1, b, E, acc \o At(toks, i).v)

Preprocess(s, b, E) == PreFrom(Tokens(s, PreLits, "no"), 1, b, E, "")

(***************************** Arguments **********************************)
ArgLits == {"\\", "=", ",", "\""}
Val(v, p) == [v |-> v, p |-> p]
NoVal == [v |-> "", p |-> <<-1, 0, 0, 0>>]     \* no value
IsVal(x) == x.p[1] # -1

(* un: positional values; nm: sequence of [k, x], a map in insertion order;  *)
(* tg: tags; sub, ali: subtype and alias.                                    *)
NoArgs == [un |-> <<>>, nm |-> <<>>, tg |-> <<>>, sub |-> NoVal, ali |-> NoVal]

NmHas(nm, k) == \E j \in 1..Len(nm) : nm[j].k = k
NmGet(nm, k) == IF NmHas(nm, k) THEN nm[CHOOSE j \in 1..Len(nm) : nm[j].k = k].x ELSE NoVal
NmSet(nm, k, x) ==
  IF NmHas(nm, k) THEN [j \in 1..Len(nm) |-> IF nm[j].k = k THEN [k |-> k, x |-> x] ELSE nm[j]]
  ELSE Append(nm, [k |-> k, x |-> x])
NmDel(nm, k) == LET keep(e) == e.k # k IN SelectSeq(nm, keep)
NmKeys(nm) == [j \in 1..Len(nm) |-> nm[j].k]

(* A value: quoted up to the next quotes, or up to the next comma.           *)
(* Result: [ok, x, i].                                                       *)
ArgValue(toks, i, b) ==
  IF IsLit(toks, i, "\"")
  THEN LET c == Collect(toks, i + 1, {"\""}, FALSE)
       IN [ok |-> IsLit(toks, c.i, "\""), x |-> Val(c.v, RCtx(toks, c.from, c.to, b)), i |-> c.i + 1]
  ELSE LET c == Collect(toks, i, {","}, FALSE)
       IN [ok |-> TRUE, x |-> Val(c.v, RCtx(toks, c.from, c.to, b)), i |-> c.i]

(* An optional comma, then optional spaces. *)
ArgSep(toks, i) ==
  LET j == IF IsLit(toks, i, ",") THEN i + 1 ELSE i
  IN IF At(toks, j).t = "WS" THEN j + 1 ELSE j

(* The value of a named argument loses the spaces around it. *)
Stripped(x) ==
  LET v == Strip(x.v)
  IN IF v = "" THEN [x EXCEPT !.v = v]
     ELSE [x EXCEPT !.v = v, !.p = <<@[1], @[2] + Len(x.v) - Len(LStrip(x.v)), @[3], @[4] - Len(x.v) + Len(RStrip(x.v))>>]

RECURSIVE ArgsFrom(_, _, _, _)
ArgsFrom(toks, i, b, a) ==
  IF IsEof(toks, i) THEN [a |-> a, err |-> NoErr]
  ELSE
    LET named == At(toks, i).t = "TEXT" /\ IsLit(toks, i + 1, "=")
        nv    == IF named THEN ArgValue(toks, i + 2, b) ELSE [ok |-> FALSE]
    IN IF nv.ok
       THEN ArgsFrom(toks, ArgSep(toks, nv.i), b,
                     [a EXCEPT !.nm = NmSet(@, At(toks, i).v, Stripped(nv.x))])
       ELSE IF a.nm # <<>> THEN [a |-> a, err |-> PErr(TCtx(toks, 1, b))]
       ELSE LET uv == ArgValue(toks, i, b)
            IN IF uv.ok THEN ArgsFrom(toks, ArgSep(toks, uv.i), b, [a EXCEPT !.un = Append(@, uv.x)])
               ELSE [a |-> a, err |-> PErr(TCtx(toks, i, b))]

(* Names for positional values, in order; names already given are skipped.   *)
RECURSIVE ZipNames(_, _, _, _)
ZipNames(un, nm, names, j) ==
  IF j > Len(names) \/ j > Len(un) THEN nm ELSE ZipNames(un, NmSet(nm, names[j], un[j]), names, j + 1)
SetNames(a, names) ==
  LET free(n) == ~NmHas(a.nm, n)
      ns == SelectSeq(names, free)
  IN [a EXCEPT !.nm = ZipNames(a.un, a.nm, ns, 1),
               !.un = SubSeq(@, MinI(Len(ns), Len(@)) + 1, Len(@))]

Cut(x) == [x EXCEPT !.v = From(@, 2)]

HasAlias(E, n) == \E j \in 1..Len(E.aliases) : E.aliases[j].n = n
GetAlias(E, n) == E.aliases[CHOOSE j \in 1..Len(E.aliases) : E.aliases[j].n = n]

RECURSIVE AddAliasArgs(_, _, _, _)
AddAliasArgs(nm, args, j, p) ==
  IF j > Len(args) THEN nm
  ELSE AddAliasArgs(IF NmHas(nm, args[j][1]) THEN nm ELSE NmSet(nm, args[j][1], Val(args[j][2], p)), args, j + 1, p)

(* Positional values with a prefix are tags (hash), the subtype (star), the  *)
(* alias (at). first is the context of the first token, for errors.                 *)
Classify(a0, E, first) ==
  LET tag(x)   == StartsWith(x.v, "#")
      subt(x)  == StartsWith(x.v, "*")
      alias(x) == StartsWith(x.v, "@")
      plain(x) == ~(tag(x) \/ subt(x) \/ alias(x))
      tags == SelectSeq(a0.un, tag)
      subs == SelectSeq(a0.un, subt)
      alis == SelectSeq(a0.un, alias)
      a1   == [a0 EXCEPT !.un = SelectSeq(@, plain),
                         !.tg = [j \in 1..Len(tags) |-> Cut(tags[j])],
                         !.sub = IF subs = <<>> THEN NoVal ELSE Cut(subs[1]),
                         !.ali = IF alis = <<>> THEN NoVal ELSE Cut(alis[1])]
  IN IF Len(subs) > 1 \/ Len(alis) > 1 THEN [a |-> a1, err |-> PErr(first)]
     ELSE IF ~IsVal(a1.ali) THEN [a |-> a1, err |-> NoErr]
     ELSE IF ~HasAlias(E, a1.ali.v) THEN [a |-> a1, err |-> PErr(first)]
     ELSE LET al == GetAlias(E, a1.ali.v)
              a2 == SetNames([a1 EXCEPT !.nm = AddAliasArgs(@, al.args, 1, a1.ali.p)], al.names)
          IN [a |-> [a2 EXCEPT !.sub = IF ~IsVal(@) /\ al.sub # "" THEN Val(al.sub, a1.ali.p) ELSE @],
              err |-> NoErr]

ParseArgs(s, b, E) ==
  LET toks == Tokens(s, ArgLits, "join")
      r    == ArgsFrom(toks, 1, b, NoArgs)
  IN IF IsErr(r.err) THEN r ELSE Classify(r.a, E, TCtx(toks, 1, b))

(* Arguments as they are attached to nodes: plain texts. *)
Internal(t) == StartsWith(t, "mau:")
External(t) == ~Internal(t)
Texts(q) == [j \in 1..Len(q) |-> q[j].v]
NodeArgs(a) ==
  [un  |-> Texts(a.un),
   nm  |-> [j \in 1..Len(a.nm) |-> << a.nm[j].k, a.nm[j].x.v >>],
   tg  |-> SelectSeq(Texts(a.tg), External),
   itg |-> LET q == SelectSeq(Texts(a.tg), Internal) IN [j \in 1..Len(q) |-> RemovePrefix(q[j], "mau:")],
   sub |-> IF IsVal(a.sub) THEN <<a.sub.v>> ELSE <<>>]
NoNodeArgs == [un |-> <<>>, nm |-> <<>>, tg |-> <<>>, itg |-> <<>>, sub |-> <<>>]

(* The same operations on the arguments of nodes. *)
NaHas(na, k) == \E j \in 1..Len(na.nm) : na.nm[j][1] = k
NaGet(na, k, default) == IF NaHas(na, k) THEN na.nm[CHOOSE j \in 1..Len(na.nm) : na.nm[j][1] = k][2] ELSE default
NaDel(na, k) == LET keep(e) == e[1] # k IN [na EXCEPT !.nm = SelectSeq(@, keep)]
RECURSIVE NaZip(_, _, _, _)
NaZip(un, nm, names, j) ==
  IF j > Len(names) \/ j > Len(un) THEN nm ELSE NaZip(un, Append(nm, <<names[j], un[j]>>), names, j + 1)
NaSetNames(na, names) ==
  LET free(n) == ~NaHas(na, n)
      ns == SelectSeq(names, free)
  IN [na EXCEPT !.nm = NaZip(na.un, na.nm, ns, 1), !.un = SubSeq(@, MinI(Len(ns), Len(@)) + 1, Len(@))]

(***************************** Conditions *********************************)
CondNameSet == AlnumSet \cup {"_", ".", "+", "-"}
(* Result: [var, op, val, err]; var is "" when the text is empty. *)
ParseCond(s, b) ==
  LET e  == SkipIn(s, 1, CondNameSet)
      c  == SkipSp(s, e)
      op == SubSeq(s, c, MinI(c + 1, Len(s)))
      v  == SkipSp(s, c + 2)
      no == [var |-> "", op |-> "", val |-> ""]
  IN IF s = "" THEN no @@ [err |-> NoErr]
     ELSE IF AllSpacesFrom(s, 1) THEN no @@ [err |-> PErr(<<b[1], b[2], b[1], b[2]>>)]
     ELSE IF e = 1 \/ op \notin {"==", "!="} THEN no @@ [err |-> LErr(b[1], b[2])]
     ELSE [var |-> SubSeq(s, 1, e - 1), op |-> op, val |-> From(s, v), err |-> NoErr]

(* The value of a condition whose variable is defined. *)
CondTrue(c, E) == IF c.op = "==" THEN EnvGet(E, c.var) = c.val ELSE EnvGet(E, c.var) # c.val
================================================================================
