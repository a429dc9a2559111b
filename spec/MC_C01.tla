--------------------------------- MODULE MC_C01 ---------------------------------
(* Any text is processed up to the end: the result is a document or one error *)
(* that has a place in the text.                                              *)
EXTENDS MauExplore

(* pieces that start, end, or break something *)
P1 == << "a", "\n", " ", "@if ", "v==", "<< ", "mau:", ":", "[", "](", "]", ")", "if:v==", "{v", "}", "----", "\\", "* ", "= ", ".", "\"", "=", ",", "`" >>
(* lines that are incomplete or unusual *)
P2 == << "a", "=", "= ", "*", "** a", "# *", "[", "[]", "[a", "[*a,*b]", "[@x]", "[k=1,a]", "@", "@if", "@if ", "@if v", "@if v==x", "@if w==x", "@if v=x",
         "<<", "<< mau", "<< mau:inc", "<< mau:bad", "<< mau:no", "<< raw", "<< blockgroup", "<< blockgroup:g", "<< foo", "<< image:", "<< image",
         ":", ":a", ":a:", ":+a:", ":a:{u}", "{u}", ". ", ".x", "----", "----\n----", "[engine=zz]", "[engine=raw]", "[footnote=f]", "[group=g,position=p]", "[isolate=false]",
         "[footnote](f)", "[header](h)", "[name=h]", "[start=x]", "[if:v==x]()", "[if:v](a)", "[if:](a)", "[if](a)", "[ifeval:v==x](w)", "[link]()", "[link](k=1)", "////", "---", "[mailto](", "_`", "%$" >>
(* unusual calls of macros *)
P3 == << "[", "]", "(", ")", "link", "if:", "v", "==", "x", ",", "\"", "=", "text=", " ", "\\", "{v}", "header", "_" >>
V1 == Alone(MakeEnv("v" :> "x", <<>>, ("inc" :> "b {v}") @@ ("bad" :> "a\n----\nb")))

(* There is always one thing to do next, until the end. *)
Actions == {"End", "Eol", "Rule", "Variable", "Label", "Control", "Arguments", "Header", "Block", "Include", "List", "Paragraph", "BadToken"}
NotStuck == S.st = "run" => ENABLED Processing /\ Construct(S) \in Actions
(* Each step goes on: it consumes tokens, or begins or ends a text.           *)
Depth(U) == Len(U.fr)
GoesOn ==
  [][ (S.st = "run" /\ S'.st = "run") =>
        \/ Depth(S') = Depth(S) /\ Cur(S').i > Cur(S).i
        \/ Depth(S') = Depth(S) + 1 /\ S'.fr[Depth(S)].i > Cur(S).i
        \/ Depth(S') = Depth(S) - 1 /\ At(Cur(S).toks, Cur(S).i).t = "EOF" ]_vars
(* What is begun is smaller than what it is in: the text of a block is part   *)
(* of the text it is in, and a file is never in itself.                       *)
Smaller ==
  \A j \in 2..Len(S.fr) :
    LET f == S.fr[j]  g == S.fr[j - 1]
    IN IF f.kind = "block" THEN f.file = g.file /\ Len(f.toks) <= Len(Text) + Cardinality(DOMAIN E0.files) * 20
       ELSE ~InSeq(g.forb, f.file) /\ f.file # g.file
(* One error, with a place in the text, and no output; or an output.          *)
OneResult ==
  /\ Failed => S.out = <<>> /\ S.err.cls \in {"lexer", "parser"}
  /\ (Succeeded \/ S.st = "run") => S.err = NoErr
InMain == ~\E j \in 1..Len(doc) : Contains(Pieces[doc[j]], "mau") \/ Contains(Pieces[doc[j]], "raw")
PlaceInText ==
  (Failed /\ InMain) => /\ 0 <= S.err.line /\ S.err.line < Len(Lines)
                        /\ 0 <= S.err.col /\ S.err.col <= Len(Lines[S.err.line + 1])
=================================================================================
