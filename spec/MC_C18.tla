--------------------------------- MODULE MC_C18 ---------------------------------
(* The code of raw blocks, source blocks and raw inclusions.                  *)
EXTENDS MauVisited

(* letters of code, among them everything Mau gives a meaning to *)
P1 == << "a", ":", "@", "1", "+", " ", "{v}", "_", "\n" >>
P2 == << "a", "#", "::", ":", "!", "hl", "\n", "\\" >>
(* whole lines that are constructs elsewhere *)
P3 == << "= a", "// c", "////", "* i", "[x]", "<< toc", ":v:1", "++++", "@if {v}", "", "  b  ", ". t", "\\----", "---", "`c` [link](u) {z}", "c:@:", "d:1:", "\tc:@+:" >>
\* All the blocks have the same number of rows above the code.
D(args) == [E |-> MakeEnv("v" :> "x", <<>>, NoFiles), b |-> "[" \o args \o "]\n----\n", a |-> "\n----"]
V1 == << D("engine=raw"), D("@source,python"), D("engine=source") >>
V2 == << D("@source,marker_delimiter=\"::\",highlight_marker=hl,highlight_default_style=+"),
         D("@source,marker_delimiter=#"),
         [D("engine=source,highlight_marker=!,marker_delimiter=:") EXCEPT !.E = MakeConfEnv("v" :> "x", <<>>, NoFiles, << <<"a", "b">>, <<"!", "i!">>, <<"default", "d">> >>, "", "")] >>
V3 == << D("engine=raw"), D("@source") >>

Code == Split(Body, "\n")
Code1 == Top[1]
Delim == CASE env = 1 /\ Pieces[2] = "#" -> "::" [] env = 2 /\ Pieces[2] = "#" -> "#" [] OTHER -> ":"
Highlight == CASE env = 1 /\ Pieces[2] = "#" -> "hl" [] env = 3 /\ Pieces[2] = "#" -> "!" [] OTHER -> "@"
DefaultStyle == IF env = 1 /\ Pieces[2] = "#" THEN "+" ELSE "default"
Raw == Pieces[2] # "#" /\ env = 1

AllLines == (Finished => Succeeded) /\ (Succeeded => Len(Top) = 1 /\ Len(VGroup(Code1, 1)) = Len(Code))

RawVerbatim ==
  (Succeeded /\ Raw) => /\ VKind(Code1) = "raw"
                        /\ \A j \in 1..Len(Code) : VField(VGroup(Code1, 1)[j], 1) = Code[j]

(* The aliases of styles; the configured ones replace the others. *)
Styles == ("+" :> "add") @@ ("-" :> "remove") @@ ("!" :> "important") @@ ("x" :> "error")
Configured == ("a" :> "b") @@ ("!" :> "i!") @@ ("default" :> "d")
StyleNamed(s) == LET t == IF env = 3 /\ Pieces[2] = "#" THEN Configured @@ Styles ELSE Styles IN IF s \in DOMAIN t THEN t[s] ELSE s
(* The number of times a text is in another. *)
Occurs(s, d) == Len(Split(s, d)) - 1
(* A line has a marker when it ends with delimiter, text, delimiter.          *)
HasMarker(s) == LET q == Split(s, Delim) IN Len(q) >= 3 /\ Last(q) = "" /\ q[Len(q) - 1] # ""
SourceVerbatim ==
  (Succeeded /\ ~Raw) =>
     /\ VKind(Code1) = "source"
     /\ VField(Code1, 1) = (IF env = 2 /\ Pieces[2] = ":" /\ Pieces[3] = "@" THEN "+python" ELSE "+text")
     /\ \A j \in 1..Len(Code) :
          LET n == VGroup(Code1, 1)[j]
              marker == VGroup(n, 1)
              text == VField(n, 2)
              style == VField(n, 3)
              mark == IF marker = <<>> THEN "" ELSE VField(marker[1], 1)
              rest == From(Code[j], Len(text) + 1)
          IN /\ VField(n, 1) = ToString(j)
             /\ StartsWith(Code[j], text)
             /\ Len(marker) <= 1
             /\ (rest = "") = (marker = <<>> /\ style = NoText)
             /\ marker # <<>> => style = NoText /\ rest = Delim \o mark \o Delim /\ mark # "" /\ ~StartsWith(mark, Highlight)
             /\ style # NoText =>
                  \E m \in { SubSeq(rest, Len(Delim) + 1, Len(rest) - Len(Delim)) } :
                     /\ rest = Delim \o m \o Delim
                     /\ StartsWith(m, Highlight)
                     /\ style = SomeText(IF m = Highlight THEN StyleNamed(DefaultStyle)
                                         ELSE StyleNamed(From(m, Len(Highlight) + 1)))
             /\ Len(Delim) = 1 => (rest # "") = HasMarker(Code[j])
             /\ Len(Delim) = 1 => Occurs(rest, Delim) \in {0, 2}

(* Raw inclusion of a file: all the files of two lines. *)
Two == [j \in 1..(Len(P3) * Len(P3)) |-> P3[((j - 1) % Len(P3)) + 1] \o "\n" \o P3[((j - 1) \div Len(P3)) + 1]]
V4 == [j \in 1..Len(Two) |-> [E |-> MakeEnv("v" :> "x", <<>>, "f" :> Two[j]), b |-> "<< raw:f\n", a |-> ""]]
Included2 ==
  Succeeded => LET q == Split(E0.files["f"], "\n") IN
                 /\ VKind(Code1) = "include-raw" /\ VField(Code1, 1) = "f"
                 /\ [j \in 1..Len(VGroup(Code1, 1)) |-> VField(VGroup(Code1, 1)[j], 1)] = q
=================================================================================
