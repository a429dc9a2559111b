------------------------------ MODULE MauDocLexer ------------------------------
(* The document lexer: every line, or every group of lines between           *)
(* delimiters, becomes the tokens of one construct. A token is               *)
(* [t |-> type, v |-> value, p |-> context]. The result of Lex is            *)
(* [ok, toks, line, col]; when it fails, line and col are the position.      *)
EXTENDS MauText

Tok(t, v, line, col) == [t |-> t, v |-> v, p |-> <<line, col, line, col + Len(v)>>]

NameSet  == AlnumSet \cup {"_", ".", "+", "-"}     \* names of variables
TypeSet  == LowerSet \cup DigitSet \cup {"_", "#", "."}   \* types of includes
RoleSet  == LowerSet \cup DigitSet \cup {"-", "_"}  \* roles of labels
MarkSet  == {"*", "#"}

IsBlank(s)   == AllSpacesFrom(s, 1)
IsBlockDelim(s) == /\ Len(s) = 4
                   /\ Ch(s, 2) = Ch(s, 1) /\ Ch(s, 3) = Ch(s, 1) /\ Ch(s, 4) = Ch(s, 1)

IsControl(s)  == StartsWith(s, "@") /\ Len(s) >= 2 /\ Ch(s, 2) \in LowerSet
IncludeTypeStart(s) == SkipSp(s, 3)
IsInclude(s)  == /\ StartsWith(s, "<<")
                 /\ IncludeTypeStart(s) <= Len(s)
                 /\ Ch(s, IncludeTypeStart(s)) \in TypeSet
IsVariable(s) == StartsWith(s, ":") /\ Len(s) >= 2 /\ Ch(s, 2) \in NameSet
IsArguments(s) == Len(s) >= 2 /\ Ch(s, 1) = "[" /\ Ch(s, Len(s)) = "]"
IsLabel(s)    == StartsWith(s, ".")
ListMark(s)   == SkipSp(s, 1)
ListMarkEnd(s) == SkipIn(s, ListMark(s), MarkSet)
IsList(s)     == /\ ListMarkEnd(s) > ListMark(s)
                 /\ ListMarkEnd(s) <= Len(s)
                 /\ Ch(s, ListMarkEnd(s)) = " "
IsHeader(s)   == StartsWith(s, "=") /\ Len(s) >= 2

(* The kind of a line, in order of precedence. *)
LineKind(s) ==
  CASE IsBlank(s)            -> "empty"
    [] s = "////"            -> "mcomment"
    [] StartsWith(s, "//")   -> "comment"
    [] s = "---"             -> "hrule"
    [] IsBlockDelim(s)       -> "block"
    [] IsControl(s)          -> "control"
    [] IsInclude(s)          -> "include"
    [] IsVariable(s)         -> "variable"
    [] IsArguments(s)        -> "arguments"
    [] IsLabel(s)            -> "label"
    [] IsList(s)             -> "list"
    [] IsHeader(s)           -> "header"
    [] OTHER                 -> "text"

(* Tokens of the lines that stand on their own; l is the 0-based line.       *)
OptTok(t, v, line, col) == IF v = "" THEN <<>> ELSE << Tok(t, v, line, col) >>

ControlToks(s, l) ==
  LET e == SkipIn(s, 2, LowerSet)
      c == SkipSp(s, e)
  IN << Tok("CONTROL", "@", l, 0), Tok("TEXT", SubSeq(s, 2, e - 1), l, 1), Tok("TEXT", From(s, c), l, c - 1) >>

(* name, optional colon, optional rest *)
NamedToks(s, l, b, e) ==
  LET colon == e <= Len(s) /\ Ch(s, e) = ":"
      r     == IF colon THEN e + 1 ELSE e
  IN << Tok("TEXT", SubSeq(s, b, e - 1), l, b - 1) >>
     \o (IF colon THEN << Tok("LITERAL", ":", l, e - 1) >> ELSE <<>>)
     \o OptTok("TEXT", From(s, r), l, r - 1)

IncludeToks(s, l) ==
  << Tok("INCLUDE", "<<", l, 0) >> \o NamedToks(s, l, IncludeTypeStart(s), SkipIn(s, IncludeTypeStart(s), TypeSet))

VariableToks(s, l) ==
  << Tok("VARIABLE", ":", l, 0) >> \o NamedToks(s, l, 2, SkipIn(s, 2, NameSet))

ArgumentsToks(s, l) ==
  << Tok("ARGUMENTS", "[", l, 0), Tok("TEXT", SubSeq(s, 2, Len(s) - 1), l, 1), Tok("LITERAL", "]", l, Len(s) - 1) >>

LabelToks(s, l) ==
  LET e == SkipIn(s, 2, RoleSet)
      c == SkipSp(s, e)
  IN << Tok("LABEL", SubSeq(s, 1, e - 1), l, 0), Tok("TEXT", From(s, c), l, c - 1) >>

ListToks(s, l) ==
  LET c == SkipSp(s, ListMarkEnd(s))
  IN << Tok("LIST", SubSeq(s, ListMark(s), ListMarkEnd(s) - 1), l, ListMark(s) - 1), Tok("TEXT", From(s, c), l, c - 1) >>

(* The text of a header has at least one character: when only markers and    *)
(* spaces are left, the last one of them is the text.                        *)
HeaderToks(s, l) ==
  LET e == SkipIn(s, 1, {"="})
      c == MinI(SkipSp(s, e), Len(s))
      k == MinI(e, c)
  IN << Tok("HEADER", SubSeq(s, 1, k - 1), l, 0), Tok("TEXT", From(s, c), l, c - 1) >>

SimpleToks(kind, s, l) ==
  CASE kind = "empty"     -> << Tok("EOL", s, l, 0) >>
    [] kind = "comment"   -> <<>>
    [] kind = "hrule"     -> << Tok("HORIZONTAL_RULE", s, l, 0) >>
    [] kind = "control"   -> ControlToks(s, l)
    [] kind = "include"   -> IncludeToks(s, l)
    [] kind = "variable"  -> VariableToks(s, l)
    [] kind = "arguments" -> ArgumentsToks(s, l)
    [] kind = "label"     -> LabelToks(s, l)
    [] kind = "list"      -> ListToks(s, l)
    [] kind = "header"    -> HeaderToks(s, l)
    [] kind = "text"      -> << Tok("TEXT", s, l, 0) >>

(* The end of the file is past the last line, or an empty last line.         *)
AtEof(lines, i) == i > Len(lines) \/ (i = Len(lines) /\ lines[i] = "")

(* The first line from i on equal to d before the end of the file, or 0.     *)
RECURSIVE Closing(_, _, _)
Closing(lines, d, i) ==
  IF AtEof(lines, i) THEN 0 ELSE IF lines[i] = d THEN i ELSE Closing(lines, d, i + 1)

(* Tokens of the block opened at line i and closed at line j. *)
BlockToks(lines, i, j, l0) ==
  LET content == SubSeq(lines, i + 1, j - 1)
      text    == IF content = <<>> THEN <<>>
                 ELSE << [t |-> "TEXT", v |-> Join(content, "\n"),
                          p |-> <<l0 + i, 0, l0 + j - 2, Len(Last(content))>>] >>
  IN << Tok("BLOCK", lines[i], l0 + i - 1, 0) >> \o text \o << Tok("BLOCK", lines[j], l0 + j - 1, 0) >>

(* The lexer as a machine: one line, or one group of lines between           *)
(* delimiters, at a time. l0 is the line of the source where the text        *)
(* starts; st is "run", "done" or "fail".                                    *)
LexInit(text, l0) ==
  [lines |-> IF text = "" THEN <<>> ELSE Split(text, "\n"), i |-> 1, l0 |-> l0, toks |-> <<>>,
   st |-> "run", line |-> 0, col |-> 0]

LexKind(L) == IF AtEof(L.lines, L.i) THEN "eof" ELSE LineKind(L.lines[L.i])

LexGroup(L, kind) ==
  LET j == Closing(L.lines, L.lines[L.i], L.i + 1)
  IN IF j = 0 THEN [L EXCEPT !.st = "fail", !.line = L.l0 + L.i - 1]
     ELSE [L EXCEPT !.i = j + 1, !.toks = IF kind = "block" THEN @ \o BlockToks(L.lines, L.i, j, L.l0) ELSE @]

LexStep(L, kind) ==
  CASE kind = "eof" -> [L EXCEPT !.st = "done", !.toks = Append(@, Tok("EOF", "", L.l0 + L.i - 1, 0))]
    [] kind \in {"mcomment", "block"} -> LexGroup(L, kind)
    [] OTHER -> [L EXCEPT !.i = @ + 1, !.toks = @ \o SimpleToks(kind, L.lines[L.i], L.l0 + L.i - 1)]

RECURSIVE LexFrom(_)
LexFrom(L) == IF L.st = "run" THEN LexFrom(LexStep(L, LexKind(L))) ELSE L

Lex(text, l0) ==
  LET L == LexFrom(LexInit(text, l0)) IN [ok |-> L.st = "done", toks |-> L.toks, line |-> L.line, col |-> L.col]
================================================================================
