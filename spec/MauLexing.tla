------------------------------- MODULE MauLexing -------------------------------
(* The document lexer on all texts made of pieces of an alphabet, line by    *)
(* line, and what is true of the tokens whatever the text.                   *)
EXTENDS MauDocLexer, Json

CONSTANTS Pieces, Sep, MaxPieces, MinPieces
VARIABLES doc, L
vars == <<doc, L>>

NL == "\n"
Glued == ""
Text == Join([j \in 1..Len(doc) |-> Pieces[doc[j]]], Sep)
Writing == [LexInit("", 0) EXCEPT !.st = "write"]
Init == doc = <<>> /\ L = Writing
Write(k) == L.st = "write" /\ Len(doc) < MaxPieces /\ doc' = Append(doc, k) /\ L' = L
Begin == L.st = "write" /\ Len(doc) >= MinPieces /\ L' = LexInit(Text, 0) /\ doc' = doc

Do(kind) == L.st = "run" /\ LexKind(L) = kind /\ L' = LexStep(L, kind) /\ doc' = doc
Eof == Do("eof")
EmptyLine == Do("empty")
MultilineComment == Do("mcomment")
Comment == Do("comment")
Rule == Do("hrule")
Block == Do("block")
ControlLine == Do("control")
Include == Do("include")
Variable == Do("variable")
Arguments == Do("arguments")
Label == Do("label")
ListItem == Do("list")
Header == Do("header")
TextLine == Do("text")
Lexing == Eof \/ EmptyLine \/ MultilineComment \/ Comment \/ Rule \/ Block \/ ControlLine \/ Include
          \/ Variable \/ Arguments \/ Label \/ ListItem \/ Header \/ TextLine
Next == (\E k \in 1..Len(Pieces) : Write(k)) \/ Begin \/ Lexing
Spec == Init /\ [][Next]_vars
Finished == L.st \in {"done", "fail"}

(************************ Properties of the tokens ************************)
Lines == Split(Text, "\n")
Span(p) == SpanIn(Lines, p)
(* A token spans exactly the text where its value is found. *)
ExactSpans == \A j \in 1..Len(L.toks) : Span(L.toks[j].p) = L.toks[j].v
(* Tokens are in the order of the source, and do not overlap. *)
Before(p, q) == p[3] < q[1] \/ (p[3] = q[1] /\ p[4] <= q[2])
InOrder == \A j \in 1..(Len(L.toks) - 1) : Before(L.toks[j].p, L.toks[j + 1].p)

(* The tokens that start on a line. *)
Types(q) == [j \in 1..Len(q) |-> q[j].t]
OnLine(n) == LET on(t) == t.p[1] = n IN SelectSeq(L.toks, on)
Shapes == { <<>>, <<"EOL">>, <<"EOF">>, <<"HORIZONTAL_RULE">>, <<"BLOCK">>, <<"CONTROL", "TEXT", "TEXT">>,
            <<"INCLUDE", "TEXT">>, <<"INCLUDE", "TEXT", "TEXT">>, <<"INCLUDE", "TEXT", "LITERAL">>,
            <<"INCLUDE", "TEXT", "LITERAL", "TEXT">>,
            <<"VARIABLE", "TEXT">>, <<"VARIABLE", "TEXT", "TEXT">>, <<"VARIABLE", "TEXT", "LITERAL">>,
            <<"VARIABLE", "TEXT", "LITERAL", "TEXT">>,
            <<"ARGUMENTS", "TEXT", "LITERAL">>, <<"LABEL", "TEXT">>, <<"LIST", "TEXT">>, <<"HEADER", "TEXT">>, <<"TEXT">> }
OneConstruct == \A n \in 0..Len(Lines) : Types(OnLine(n)) \in Shapes

(* What is not in a token is a comment, or spaces that separate tokens.      *)
Covered(n) == { c \in 0..(Len(Lines[n + 1]) - 1) :
                  \E j \in 1..Len(L.toks) :
                    LET p == L.toks[j].p
                    IN \/ p[1] = p[3] /\ p[1] = n /\ p[2] <= c /\ c < p[4]
                       \/ p[1] < p[3] /\ p[1] <= n /\ n <= p[3] }
IsOpen(n) == \E j \in 1..Len(L.toks) : L.toks[j].p[1] <= n /\ n <= L.toks[j].p[3]
NothingLost ==
  L.st = "done" =>
    \A n \in 0..(Len(Lines) - 1) :
      IsOpen(n) => \A c \in 0..(Len(Lines[n + 1]) - 1) : c \notin Covered(n) => Ch(Lines[n + 1], c + 1) = " "
(* The lines without tokens are comments, or between two comment delimiters. *)
Delimiters(n) == Cardinality({ m \in 0..(n - 1) : ~IsOpen(m) /\ Lines[m + 1] = "////" })
NoTokenNoText ==
  L.st = "done" =>
    \A n \in 0..(Len(Lines) - 1) :
      ~IsOpen(n) => \/ StartsWith(Lines[n + 1], "//")
                    \/ Delimiters(n) % 2 = 1
                    \/ n = Len(Lines) - 1 /\ Lines[n + 1] = ""
(* Lexing fails only for something that is not closed: the line of the error *)
(* is a delimiter with no equal line after it.                               *)
FailsOnlyWhenOpen ==
  L.st = "fail" => /\ IsBlockDelim(Lines[L.line + 1])
                   /\ \A m \in (L.line + 2)..Len(Lines) : Lines[m] # Lines[L.line + 1]

TokOut == [j \in 1..Len(L.toks) |-> << L.toks[j].t, L.toks[j].v, L.toks[j].p >>]
Export == Finished => PrintT("@@" \o ToJson(<<Text, IF L.st = "done" THEN << "ok", TokOut >> ELSE << "lexer", L.line, L.col >> >>))
===============================================================================
