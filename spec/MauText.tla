------------------------------- MODULE MauText -------------------------------
(* Operators on text. TLC strings are sequences of characters, a character   *)
(* is a string of length 1. Positions are 1-based here.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(s, i)     == SubSeq(s, i, i)
From(s, i)   == SubSeq(s, i, Len(s))
Upto(s, i)   == SubSeq(s, 1, i)

LowerSet == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpperSet == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitSet == {"0","1","2","3","4","5","6","7","8","9"}
AlnumSet == LowerSet \cup UpperSet \cup DigitSet

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* The first position from i on whose character is not in (is in) a set;     *)
(* Len(s)+1 if there is none.                                                *)
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, set) ==
  IF i > Len(s) THEN i ELSE IF Ch(s, i) \in set THEN SkipIn(s, i + 1, set) ELSE i
RECURSIVE SkipOut(_, _, _)
SkipOut(s, i, set) ==
  IF i > Len(s) THEN i ELSE IF Ch(s, i) \in set THEN i ELSE SkipOut(s, i + 1, set)

Sp == {" "}
SkipSp(s, i) == SkipIn(s, i, Sp)
AllSpacesFrom(s, i) == SkipSp(s, i) > Len(s)

LStrip(s) == From(s, SkipSp(s, 1))
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))

(* Position of the first occurrence of p in s at or after i, 0 if none.      *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
Contains(s, p) == FindFrom(s, p, 1) # 0

(* Python's s.split(sep), sep not empty. *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, i) ==
  LET k == FindFrom(s, sep, i)
  IN IF k = 0 THEN << From(s, i) >>
     ELSE << SubSeq(s, i, k - 1) >> \o SplitFrom(s, sep, k + Len(sep))
Split(s, sep) == SplitFrom(s, sep, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) ==
  IF i > Len(q) THEN ""
  ELSE IF i = Len(q) THEN q[i] ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

RemovePrefix(s, p) == IF StartsWith(s, p) THEN From(s, Len(p) + 1) ELSE s
RemoveSuffix(s, p) == IF p # "" /\ EndsWith(s, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s

Front(q) == SubSeq(q, 1, Len(q) - 1)
Last(q)  == q[Len(q)]

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)

(* A decimal number in an optional sign and digits, as Python's int() on the *)
(* texts used in the models; -1000000 stands for "not a number".             *)
NaN == -1000000
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Ch(s, i) \in DigitSet THEN NumFrom(s, i + 1, acc * 10 + DigitVal(Ch(s, i))) ELSE NaN
ToNum(s0) ==
  LET s == Strip(s0)
  IN IF s = "" THEN NaN
     ELSE IF Ch(s, 1) \in {"-", "+"}
          THEN IF Len(s) = 1 THEN NaN
               ELSE LET v == NumFrom(s, 2, 0)
                    IN IF v = NaN THEN NaN ELSE IF Ch(s, 1) = "-" THEN -v ELSE v
          ELSE NumFrom(s, 1, 0)

(* Lowercase, for the ids of headers. *)
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerCh(c) == IF c \in UpperSet THEN LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c] ELSE c
RECURSIVE Slug(_, _, _)
(* letters, digits, dashes, dots, and a single dash for a group of spaces    *)
Slug(s, i, insp) ==
  IF i > Len(s) THEN ""
  ELSE LET c == LowerCh(Ch(s, i))
       IN IF c = " " THEN (IF insp THEN "" ELSE "-") \o Slug(s, i + 1, TRUE)
          ELSE IF c \in LowerSet \cup DigitSet \cup {"-", "."} THEN c \o Slug(s, i + 1, FALSE)
          ELSE Slug(s, i + 1, insp)

(* Net strings: an unambiguous rendering of a piece of text. *)
Ns(s) == ToString(Len(s)) \o ":" \o s

MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b

(* Contexts: <<start line, start column, end line, end column>>, 0-based.    *)
Ctx0 == <<0, 0, 0, 0>>
Merge(a, b) == << MinI(a[1], b[1]), MinI(a[2], b[2]), MaxI(a[3], b[3]), MaxI(a[4], b[4]) >>

(* The text in a span of lines and columns. *)
SpanIn(lines, p) ==
  IF p[1] + 1 > Len(lines) THEN ""
  ELSE IF p[1] = p[3] THEN SubSeq(lines[p[1] + 1], p[2] + 1, p[4])
  ELSE Join([j \in 1..(p[3] - p[1] + 1) |->
               IF j = 1 THEN From(lines[p[1] + 1], p[2] + 1)
               ELSE IF j = p[3] - p[1] + 1 THEN SubSeq(lines[p[3] + 1], 1, p[4])
               ELSE lines[p[1] + j]], "\n")

RECURSIVE CountCh(_, _, _)
CountCh(s, c, i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) = c THEN 1 ELSE 0) + CountCh(s, c, i + 1)
RECURSIVE Without(_, _, _)
(* s without the characters of a set *)
Without(s, set, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in set THEN "" ELSE Ch(s, i)) \o Without(s, set, i + 1)
(* Python's s.replace(a, b) *)
ReplaceAll(s, a, b) == Join(Split(s, a), b)

RECURSIVE FlattenSeq(_)
FlattenSeq(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlattenSeq(SubSeq(q, 2, Len(q)))
==============================================================================
