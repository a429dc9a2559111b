--------------------------------- MODULE MC_C04 ---------------------------------
(* The structure of the document is the one of the source, read line by line. *)
EXTENDS MauExplore

P1 == << "a", "*b* c", "", "// x", "////\n= x\n////", "---", ":v:x", "= H", "* i", "# j", "[k]", ".l m", "<< toc",
         "----\na\n// y\nb\n\n= B\n----", "----\n----", "[engine=raw]\n----\n= r\n----", "<< image:u" >>
P2 == << "a", "", "----", "++++", "---", "= H", "* i", "<< foo", "//", "[engine=raw]", "////", "---- ", "-----", " ----", "//// " >>

(* The outline of some lines: [k, n, s] for each construct, n being the      *)
(* number of lines or items, s the outline of what is inside.                *)
O(k, n, s) == << [k |-> k, n |-> n, s |-> s] >>
Comment(l) == StartsWith(l, "//") /\ l # "////"
Delim(l) == l \in {"----", "++++"}
Skip1(l) == l = "" \/ Comment(l) \/ StartsWith(l, ":") \/ StartsWith(l, "[") \/ StartsWith(l, ".")
Item(l) == StartsWith(l, "* ") \/ StartsWith(l, "# ")
Plain1(l) == ~(Skip1(l) \/ Delim(l) \/ Item(l) \/ l \in {"////", "---"} \/ StartsWith(l, "=") \/ StartsWith(l, "<< "))
RECURSIVE NextEq(_, _, _)
NextEq(ls, d, i) == IF i > Len(ls) THEN 0 ELSE IF ls[i] = d THEN i ELSE NextEq(ls, d, i + 1)

RECURSIVE Texts1(_, _)      \* how many lines of text from i on, and where they end: comments are nothing
Texts1(ls, i) ==
  IF i > Len(ls) THEN [n |-> 0, i |-> i]
  ELSE IF Comment(ls[i]) THEN Texts1(ls, i + 1)
  ELSE IF ls[i] = "////" THEN Texts1(ls, NextEq(ls, "////", i + 1) + 1)
  ELSE IF Plain1(ls[i]) THEN LET r == Texts1(ls, i + 1) IN [r EXCEPT !.n = @ + 1]
  ELSE [n |-> 0, i |-> i]
RECURSIVE Items1(_, _)
Items1(ls, i) ==
  IF i > Len(ls) THEN [n |-> 0, i |-> i]
  ELSE IF Comment(ls[i]) THEN Items1(ls, i + 1)
  ELSE IF ls[i] = "////" THEN Items1(ls, NextEq(ls, "////", i + 1) + 1)
  ELSE IF Item(ls[i]) THEN LET r == Items1(ls, i + 1) IN [r EXCEPT !.n = @ + 1]
  ELSE [n |-> 0, i |-> i]

RECURSIVE Outline(_, _, _)
Outline(ls, i, eng) ==
  IF i > Len(ls) THEN <<>>
  ELSE IF ls[i] = "////" THEN Outline(ls, NextEq(ls, "////", i + 1) + 1, eng)
  ELSE IF StartsWith(ls[i], "[") THEN Outline(ls, i + 1, IF ls[i] = "[engine=raw]" THEN "raw" ELSE "default")
  ELSE IF Skip1(ls[i]) THEN Outline(ls, i + 1, eng)
  ELSE IF Delim(ls[i])
  THEN LET j == NextEq(ls, ls[i], i + 1)
           inner == SubSeq(ls, i + 1, j - 1)
       IN (IF eng = "raw" THEN O("raw", Len(inner), <<>>)
           ELSE LET o == Outline(inner, 1, "default") IN O("block", Len(o), o))
          \o Outline(ls, j + 1, "default")
  ELSE IF Plain1(ls[i]) THEN LET r == Texts1(ls, i) IN O("paragraph", r.n, <<>>) \o Outline(ls, r.i, "default")
  ELSE IF Item(ls[i]) THEN LET r == Items1(ls, i) IN O("list", r.n, <<>>) \o Outline(ls, r.i, "default")
  ELSE (IF ls[i] = "---" THEN O("horizontal-rule", 0, <<>>)
        ELSE IF StartsWith(ls[i], "=") THEN O("header", 0, <<>>)
        ELSE IF ls[i] = "<< toc" THEN O("toc", 0, <<>>)
        ELSE IF StartsWith(ls[i], "<< image") THEN O("include-image", 0, <<>>)
        ELSE O("include", 0, <<>>))
       \o Outline(ls, i + 1, "default")

RECURSIVE OutlineOf(_)
OutlineOf(q) ==
  [j \in 1..Len(q) |->
     [k |-> q[j].k,
      n |-> IF q[j].k \in {"paragraph", "list", "raw", "block"} THEN Len(q[j].c) ELSE 0,
      s |-> IF q[j].k = "block" THEN OutlineOf(q[j].c) ELSE <<>>]]

SameOutline == Succeeded => OutlineOf(S.out) = Outline(Lines, 1, "default")
=================================================================================
