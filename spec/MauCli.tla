--------------------------------- MODULE MauCli ---------------------------------
(* The command line. A run loads the configuration, the environment files    *)
(* and variables, reads the input, processes it, and writes the result.      *)
(*                                                                           *)
(* Files: a function from paths to <<"text", t>>, <<"yaml", tree>> (see      *)
(* MauEnv), <<"bad", "">> (not YAML), <<"dir", "">> or, for what a run        *)
(* wrote, <<"out", format, text>>.                                           *)
(* Arguments: [input, output ("" when missing), fmt, lonly, config, envf,    *)
(* envv, nsf, nsv]; envf and envv are sequences of texts as written.         *)
(* A run: [a, pc, m (environment), S (the document), code, out].             *)
EXTENDS MauRender

Ev == INSTANCE MauEnv

NoOptions == [input |-> "in.mau", output |-> "", fmt |-> "yaml", lonly |-> FALSE, config |-> "", envf |-> <<>>, envv |-> <<>>, nsf |-> "", nsv |-> ""]
NoS == [st |-> "none"]
FirstPc == [pc |-> "config", m |-> Ev!Nothing, S |-> NoS, code |-> -1, out |-> <<>>]
RunOf(a) == [a |-> a] @@ FirstPc
Exit(r, code) == [r EXCEPT !.pc = "exit", !.code = code]

Has(fs, p) == p \in DOMAIN fs
Kind(fs, p) == IF p \in DOMAIN fs THEN fs[p][1] ELSE "none"

(***************************** Environment ********************************)
Falsy == { "no", "empty", "zero", "none", "{}" }
(* What a configuration file contains. *)
ConfigMap(tree) == IF tree.leaf THEN ("mau" :> IF tree.v \in Falsy THEN "{}" ELSE tree.v)
                   ELSE Ev!AsMap(tree, "mau")
NsOr(ns, default) == "mau." \o (IF ns = "" THEN default ELSE ns)
Equals(s) == { i \in 1..Len(s) : Ch(s, i) = "=" }
LastPart(p) == LET q == Split(p, "/") IN Last(q)
(* The name of a file without its last extension. *)
Stem(p) == LET n == LastPart(p)
               dots == { i \in 2..Len(n) : Ch(n, i) = "." }
               k == CHOOSE i \in dots : \A j \in dots : j <= i
           IN IF dots = {} \/ k = Len(n) THEN n ELSE Upto(n, k - 1)
FileKey(s) == IF Cardinality(Equals(s)) = 1 THEN Upto(s, (CHOOSE i \in Equals(s) : TRUE) - 1) ELSE Stem(s)
FilePath(s) == IF Cardinality(Equals(s)) = 1 THEN From(s, (CHOOSE i \in Equals(s) : TRUE) + 1) ELSE s
Loadable(fs, s) == Kind(fs, FilePath(s)) = "yaml"
(* The last file given for each key, in the order they were given. *)
LastGiven(q, key(_)) == LET f(j) == \A i \in 1..Len(q) : i > j => key(q[i]) # key(q[j])
                            idx == SelectSeq([j \in 1..Len(q) |-> j], f)
                        IN [j \in 1..Len(idx) |-> q[idx[j]]]
RECURSIVE AddFiles(_, _, _, _)
AddFiles(m, fs, q, ns) ==
  IF q = <<>> THEN m
  ELSE AddFiles(Ev!AsMap(Ev!Dict(<< << FileKey(q[1]), fs[FilePath(q[1])][2] >> >>), ns) @@ m, fs, Tail(q), ns)
VarOk(s) == Equals(s) # {}
VarCut(s) == CHOOSE i \in Equals(s) : \A j \in Equals(s) : i <= j
RECURSIVE AddVars(_, _, _)
AddVars(m, q, ns) ==
  IF q = <<>> THEN m
  ELSE AddVars((ns \o "." \o Upto(q[1], VarCut(q[1]) - 1) :> From(q[1], VarCut(q[1]) + 1)) @@ m, Tail(q), ns)

LoadConfig(r, fs) ==
  IF r.a.config = "" THEN [r EXCEPT !.pc = "files", !.m = ("mau" :> "{}")]
  ELSE IF Kind(fs, r.a.config) # "yaml" THEN Exit(r, 1)
  ELSE [r EXCEPT !.pc = "files", !.m = ConfigMap(fs[r.a.config][2])]
LoadFiles(r, fs) ==
  IF \E j \in 1..Len(r.a.envf) : ~Loadable(fs, r.a.envf[j]) THEN Exit(r, 1)
  ELSE [r EXCEPT !.pc = "variables", !.m = AddFiles(@, fs, LastGiven(r.a.envf, FileKey), NsOr(r.a.nsf, "envfiles"))]
LoadVars(r, fs) ==
  IF \E j \in 1..Len(r.a.envv) : ~VarOk(r.a.envv[j]) THEN Exit(r, 1)
  ELSE [r EXCEPT !.pc = "read", !.m = AddVars(@, r.a.envv, NsOr(r.a.nsv, "envvars"))]

(****************************** Document **********************************)
(* How values are written in the text. *)
Str(v) == CASE v = "list" -> "['x', 'y']" [] v = "int" -> "7" [] v = "none" -> "None" [] v = "no" -> "False"
            [] v = "empty" -> "" [] v = "zero" -> "0" [] OTHER -> v
DocVars(m) == [n \in DOMAIN m |-> Str(m[n])]
DocFiles(fs) == [p \in { q \in DOMAIN fs : fs[q][1] = "text" } |-> fs[p][2]]
ReadInput(r, fs) ==
  IF Kind(fs, r.a.input) # "text" THEN Exit(r, 1)
  ELSE LET S == InitState(fs[r.a.input][2], MakeEnv(DocVars(r.m), <<>>, DocFiles(fs)))
       IN IF S.st = "fail" THEN Exit(r, 1)                      \* the lexer
          ELSE IF r.a.lonly THEN Exit([r EXCEPT !.S = S], 0)
          ELSE [r EXCEPT !.pc = "parse", !.S = S]
Parse(r) ==
  LET S == r.S
  IN IF S.st = "run" THEN [r EXCEPT !.S = StepOf(S, Construct(S))]
     ELSE IF S.st = "fail" THEN Exit(r, 1)
     ELSE IF r.a.fmt = "" THEN Exit(r, 1)
     ELSE [r EXCEPT !.pc = "visit"]

(* The templates of the configuration: "TEMPLATES" are those of MauRender,   *)
(* "PARTIAL" the same without the one for styles. Templates cannot be        *)
(* rendered at all with both a name and names under it (a known finding).    *)
TemplatesName == "mau.visitor.templates.custom"
RECURSIVE KindsIn(_)
KindsIn(q) == UNION { { q[j][1] } \cup UNION { KindsIn(q[j][4][i]) : i \in 1..Len(q[j][4]) } : j \in 1..Len(q) }
CanRender(r) == LET o == r.out[3] IN
  IF o.r = "empty" THEN TRUE
  ELSE IF TemplatesName \notin DOMAIN r.m THEN FALSE
  ELSE IF r.m[TemplatesName] = "TEMPLATES" THEN TRUE
  ELSE r.m[TemplatesName] = "PARTIAL" /\ "style" \notin KindsIn(o.d)
VisitDoc(r) == [r EXCEPT !.pc = IF r.a.fmt = "jinja" THEN "render" ELSE "output", !.out = << "out", IF r.a.fmt = "page" THEN "page" ELSE "yaml", Outcome(r.S) >>]
Render(r) == IF CanRender(r) THEN [r EXCEPT !.pc = "output", !.out = << "out", "jinja", IF @[3].r = "ok" THEN Rendered(@[3].d[1], {}) ELSE "" >>]
             ELSE Exit([r EXCEPT !.out = <<>>], 1)

(******************************** Output **********************************)
(* "page" is the format of a visitor of a plugin. *)
Extension(fmt) == CASE fmt = "jinja" -> "j2" [] fmt = "page" -> "html" [] OTHER -> fmt
Target(a) == IF a.output # "" THEN a.output ELSE RemoveSuffix(a.input, ".mau") \o "." \o Extension(a.fmt)
FolderOf(p) == LET q == Split(p, "/") IN Join(Front(q), "/")
CanWrite(fs, p) == Kind(fs, p) # "dir" /\ (FolderOf(p) = "" \/ Kind(fs, FolderOf(p)) = "dir")
(* A step of the run: the run and the files after it. *)
CliStep(r, fs) ==
  CASE r.pc = "config"    -> << LoadConfig(r, fs), fs >>
    [] r.pc = "files"     -> << LoadFiles(r, fs), fs >>
    [] r.pc = "variables" -> << LoadVars(r, fs), fs >>
    [] r.pc = "read"      -> << ReadInput(r, fs), fs >>
    [] r.pc = "parse"     -> << Parse(r), fs >>
    [] r.pc = "visit"     -> << VisitDoc(r), fs >>
    [] r.pc = "render"    -> << Render(r), fs >>
    [] r.pc = "output"    -> IF r.a.output = "-" THEN << Exit(r, 0), fs >>
                             ELSE IF ~CanWrite(fs, Target(r.a)) THEN << Exit(r, 1), fs >>
                             ELSE << Exit(r, 0), (Target(r.a) :> r.out) @@ fs >>
================================================================================
