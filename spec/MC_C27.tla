--------------------------------- MODULE MC_C27 ---------------------------------
(* What a program gets from the parser besides the document: the table of     *)
(* contents, the inclusions that took place, and the ids given by configured  *)
(* functions.                                                                 *)
EXTENDS MauVisited

P1 == << "= A", "[name=n]\n== B _x_", "[internal_id=own]\n=== C", "@if v==y\n= D", "----\n= E\n\n<< mau:one\n----", "[isolate=false]\n----\n== F\n\n<< mau:two\n----",
         "<< mau:one", "<< mau:two,call:p=1,k=v,call:q.r=\"a b\"", "@if v!=x\n<< mau:one", "[uri=three,pass_environment=false]\n<< mau",
         "[group=g,position=x]\n----\n<< mau:one\n----\n\n<< blockgroup:g", "[footnote=f]\n----\n<< mau:one,call:p=2\n----\n\nt[footnote](f)", "<< toc", "<< raw:one", "[header](n)" >>
Files == ("one" :> "= One\n\n<< footnotes") @@ ("two" :> "<< mau:one,call:v={v}\n\n= Two\n\n----\n<< mau:three\n----")
         @@ ("three" :> "= Three\n\n[footnote=g]\n----\n= Four\n----\n\n<< footnotes")
Env(hid, fid) == [E |-> MakeConfEnv("v" :> "x", <<>>, Files, <<>>, hid, fid), b |-> "", a |-> ""]
V1 == << Env("", ""), Env("H", "F-") >>

(* The table of contents is what a table of contents of the document shows. *)
Own(f(_)) == SelectSeq(Top, f)
TocOnTop(n) == n[1] = "toc"
SameToc == Succeeded =>
  LET t == TocOf(S) IN
    /\ (t = <<>>) = (S.out = <<>>)
    /\ t # <<>> => /\ Len(t) = 1
                   /\ \A j \in 1..Len(Own(TocOnTop)) : Own(TocOnTop)[j][4][1] = t[1][4][1] /\ Own(TocOnTop)[j][4][2] = t[1][4][2]
                   /\ \A j \in 1..Len(Top) : Top[j][1] = "header" => \E i \in 1..Len(t[1][4][1]) : t[1][4][1][i] = Top[j]

(* The inclusions are those of the nodes of the document, in order (blocks    *)
(* that are shown elsewhere aside).                                           *)
Aside == \E j \in 1..Len(doc) : doc[j] \in {11, 12}
RECURSIVE InDocument(_)
InDocument(q) ==
  IF q = <<>> THEN <<>>
  ELSE (IF q[1][1] = "include-mau" THEN << <<q[1][2][1], q[1][5]>> >> ELSE <<>>)
       \o (IF q[1][1] \in {"blockgroup", "footnotes", "macro-footnote", "toc"} THEN <<>> ELSE InDocument(FlattenSeq(q[1][4]))) \o InDocument(Tail(q))
Called(c) == << c[2], << c[1] >> \o c[4] >>
SameCalls == (Succeeded /\ ~Aside) =>
  [j \in 1..Len(S.calls) |-> Called(S.calls[j])] = InDocument(IF S.out = <<>> THEN <<>> ELSE Top)
(* A call is made by the main file or by a file that was included before. *)
Chain == \A j \in 1..Len(S.calls) :
           /\ S.calls[j][1] = MainFile \/ \E i \in 1..(j - 1) : S.calls[i][2] = S.calls[j][1]
           /\ S.calls[j][2] \in DOMAIN Files
CallsKept == [][Len(S'.calls) >= Len(S.calls) /\ SubSeq(S'.calls, 1, Len(S.calls)) = S.calls]_vars

(* The ids are given by the functions of the environment. *)
Ids == (Succeeded /\ S.out # <<>>) =>
  LET h == VOf(<<VDoc>>, "header")  f == VOf(<<VDoc>>, "footnote")  conf == E0.hid # ""
      alone == \E j \in 1..Len(S.calls) : S.calls[j][2] = "three"      \* a file without the environment
  IN /\ \A j \in 1..Len(h) : LET id == h[j][2][2] IN
          /\ id # NoText
          /\ (VText(h[j][4][1]) = "C") = (id = "+own")
          /\ (~conf /\ id # "+own") => StartsWith(id, "?")
          /\ (conf /\ id # "+own" /\ h[j][5][1] = MainFile) => id = "+H" \o h[j][2][1] \o ":" \o VText(h[j][4][1])
     /\ \A j \in 1..Len(f) : LET n == f[j][2][1] IN
          f[j][2][3] = (IF E0.fid # "" /\ n = "f" THEN "F-f" ELSE f[j][2][3])
          /\ (E0.fid = "" => f[j][2][3] = n)

Export2 == Finished => PrintT("@@" \o ToJson(<<Text, EnvOut, Outcome(S), TocOf(S), S.calls>>))
=================================================================================
