--------------------------------- MODULE MC_C07 ---------------------------------
(* Variables are replaced by their latest value, as text.                     *)
EXTENDS MauExplore

(* A line of text; the values contain what should not be interpreted again. *)
P1 == << "{", "}", "a", "b", "`", "\\", "x", " " >>
V1 == Alone(MakeEnv(("a" :> "{b}") @@ ("b" :> "`{a}\\") @@ ("" :> "e"), <<>>, NoFiles))
(* The replacement does not look into the values: it is the same as replacing *)
(* a mark and then the mark with the value.                                   *)
Mark == "#"
Opaque ==
  S.st = "run" =>
    LET p  == Preprocess(Text, <<0, 0>>, E0)
        pa == Preprocess(Text, <<0, 0>>, [E0 EXCEPT !.vars = ("a" :> Mark) @@ @])
    IN p.err = pa.err /\ p.v = ReplaceAll(pa.v, Mark, E0.vars["a"])
(* A text without special characters is not changed; nor is the one between   *)
(* backticks.                                                                 *)
Untouched ==
  (S.st = "run" /\ doc # <<>>) =>
    /\ (\A c \in PreLits : ~Contains(Text, c)) =>
          Preprocess(Text, <<0, 0>>, E0) = [v |-> Text, err |-> NoErr]
    /\ (StartsWith(Text, "`") /\ CountCh(Text, "`", 1) = 2 /\ EndsWith(Text, "`") /\ ~Contains(Text, "\\")) =>
          Preprocess(Text, <<0, 0>>, E0).v = Text

(* Definitions and uses: the value is the latest one. *)
P2 == << ":a:1", ":a:{b}2", ":b:{a}", ":+a:", ":-b:", "{a}\n", "= {b}", "* {a}{b}\n", "[{a},k={b}]\n---", ".l {b}\n---", "@if a=={b}\ny\n", "[if:a==1](y{a},n{b})\n",
         "----\n{a}\n:a:3\n----", "[engine=raw]\n----\n{a}\n----", "`{a}` \\{a\\} {b}\n", "<< mau:inc", "<< mau:inc,call:a={b}",
         "<< mau:inc,pass_environment=false,call:a=9", "[engine=source]\n----\n{a}:{b}:\n----", "[foo](k={a},{b})\n", "<< foo:{a},l={b}" >>
V2 == Alone(MakeEnv(("a" :> "i") @@ ("b" :> "j"), <<>>, "inc" :> "{a}\n:a:7\n:b:8"))

(* The values read from the definitions, piece by piece, and the texts that   *)
(* are expected. U(j, a, b): from piece j on, with these values.              *)
Par(t) == << <<"paragraph", t>> >>
RECURSIVE Uses(_, _, _)
Uses(j, a, b) ==
  IF j > Len(doc) THEN <<>>
  ELSE LET k == P2[doc[j]]
           rest == Uses(j + 1, a, b)
       IN CASE k = ":a:1" -> Uses(j + 1, "1", b) [] k = ":a:{b}2" -> Uses(j + 1, b \o "2", b)
            [] k = ":b:{a}" -> Uses(j + 1, a, a) [] k = ":+a:" -> Uses(j + 1, "true", b) [] k = ":-b:" -> Uses(j + 1, a, "false")
            [] k = "{a}\n" -> Par(a) \o rest [] k = "= {b}" -> << <<"header", b>> >> \o rest
            [] k = "* {a}{b}\n" -> << <<"list", a \o b>> >> \o rest
            [] k = "[{a},k={b}]\n---" -> << <<"horizontal-rule", a \o "," \o b>> >> \o rest
            [] k = ".l {b}\n---" -> << <<"horizontal-rule", b>> >> \o rest
            [] k = "@if a=={b}\ny\n" -> (IF a = b THEN Par("y") ELSE <<>>) \o rest
            [] k = "[if:a==1](y{a},n{b})\n" -> Par(IF a = "1" THEN "y" \o a ELSE "n" \o b) \o rest
            [] k = "----\n{a}\n:a:3\n----" -> << <<"block", a>> >> \o Uses(j + 1, "3", b)
            [] k = "[engine=raw]\n----\n{a}\n----" -> << <<"raw", "{a}">> >> \o rest
            [] k = "`{a}` \\{a\\} {b}\n" -> Par("{a} {a} " \o b) \o rest
            [] k = "<< mau:inc" -> << <<"include-mau", a>> >> \o rest
            [] k = "<< mau:inc,call:a={b}" -> << <<"include-mau", b>> >> \o rest
            [] k = "<< mau:inc,pass_environment=false,call:a=9" -> << <<"include-mau", "9">> >> \o rest
            [] k = "[engine=source]\n----\n{a}:{b}:\n----" -> << <<"source", "{a}{b}">> >> \o rest
            [] k = "[foo](k={a},{b})\n" -> rest
            [] k = "<< foo:{a},l={b}" -> << <<"include", a \o "," \o b>> >> \o rest
RECURSIVE Leaves(_)
Leaves(q) ==
  IF q = <<>> THEN ""
  ELSE (CASE q[1].k \in {"text", "verbatim", "raw-line", "source-marker"} -> q[1].a[1] \o Leaves(q[1].c)
          [] q[1].k = "source-line" -> q[1].a[2] \o Leaves(q[1].c)
          [] OTHER -> Join(q[1].g.un \o [j \in 1..Len(q[1].g.nm) |-> q[1].g.nm[j][2]], ",") \o Leaves(q[1].c)
                      \o Leaves(FlattenSeq([j \in 1..Len(q[1].l) |-> q[1].l[j].c])))
       \o Leaves(Tail(q))
Latest == Succeeded => [j \in 1..Len(S.out) |-> <<S.out[j].k, Leaves(<<S.out[j]>>)>>] = Uses(1, "i", "j")

(* Values keep their spaces. *)
P3 == << ":a: x ", ":b:{a} y ", ":a:{b}|{a}", "_{a}_\n", "*{b}|* q\n" >>
RECURSIVE Uses3(_, _, _)
Uses3(j, a, b) ==
  IF j > Len(doc) THEN <<>>
  ELSE CASE doc[j] = 1 -> Uses3(j + 1, " x ", b) [] doc[j] = 2 -> Uses3(j + 1, a, a \o " y ")
         [] doc[j] = 3 -> Uses3(j + 1, b \o "|" \o a, b)
         [] doc[j] = 4 -> Par(a) \o Uses3(j + 1, a, b) [] doc[j] = 5 -> Par(b \o "| q") \o Uses3(j + 1, a, b)
Spaces == Succeeded => [j \in 1..Len(S.out) |-> <<S.out[j].k, Leaves(<<S.out[j]>>)>>] = Uses3(1, "i", "j")
=================================================================================
