--------------------------------- MODULE MC_C23 ---------------------------------
(* Runs of the command line, with all the combinations of a few arguments.    *)
EXTENDS MauCli, Json

CONSTANTS MaxRuns, Inputs, Outputs, Formats, Sources, Configs, Lexing

VARIABLES fs, run, hist
vars == <<fs, run, hist>>

Leaf(v) == Ev!Leaf(v)
Dict(q) == Ev!Dict(q)
Templates(v) == Dict(<< << "visitor", Dict(<< << "templates", Dict(<< << "custom", Leaf(v) >> >>) >> >>) >> >>)
Base == ("full.yaml" :> << "yaml", Templates("TEMPLATES") >>) @@ ("part.yaml" :> << "yaml", Templates("PARTIAL") >>)
        @@ ("empty.yaml" :> << "yaml", Leaf("none") >>) @@ ("bad.yaml" :> << "bad", "" >>)
        @@ ("old.txt" :> << "text", "old\n" >>) @@ ("in.yaml" :> << "text", "old yaml" >>) @@ ("in.j2" :> << "text", "old j2" >>)
        @@ ("d" :> << "dir", "" >>) @@ ("inc" :> << "text", "_i_" >>)
T1 == << "a b\n\nc", "_a_\n", "", "= h\n[header](no)\n", "{no}", "----\nopen", "<< mau:inc", "<< mau:no", "// c" >>
I1 == << "in.mau", "doc.txt", "noext", "a.mau.mau", "in.yaml", "d/in.mau", "x.j2" >>
I2 == << "in.mau", "in.yaml" >>
T2 == << "a b", "{no}", "_a_" >>
O1 == << "", "-", "new.txt", "old.txt", "d/new", "no/new", "d" >>
O2 == << "", "old.txt" >>
F1 == << "yaml", "jinja", "page", "" >>
F2 == << "yaml", "jinja" >>
C1 == << "", "full.yaml", "part.yaml" >>
C2 == << "full.yaml" >>
C3 == << "empty.yaml", "bad.yaml", "no.yaml" >>
L1 == {TRUE, FALSE}
L2 == {FALSE}

Args == [input : { Inputs[j] : j \in 1..Len(Inputs) }, output : { Outputs[j] : j \in 1..Len(Outputs) }, fmt : { Formats[j] : j \in 1..Len(Formats) },
         lonly : Lexing, config : { Configs[j] : j \in 1..Len(Configs) }, envf : {<<>>}, envv : {<<>>}, nsf : {""}, nsv : {""}]

Init == fs = Base /\ run = <<>> /\ hist = <<>>
(* The user writes the input, and runs. *)
Begin(a, t) == /\ run = <<>> /\ Len(hist) < MaxRuns
               /\ fs' = (a.input :> << "text", Sources[t] >>) @@ fs
               /\ run' = << RunOf(a) >> /\ hist' = Append(hist, << a, fs', [code |-> -1] >>)
Goes == /\ run # <<>> /\ run[1].pc # "exit"
        /\ LET x == CliStep(run[1], fs) IN run' = <<x[1]>> /\ fs' = x[2] /\ hist' = hist
Ends == /\ run # <<>> /\ run[1].pc = "exit"
        /\ run' = <<>> /\ fs' = fs
        /\ hist' = [hist EXCEPT ![Len(hist)][3] = [code |-> run[1].code, fs |-> fs, out |-> run[1].out, lonly |-> run[1].a.lonly]]
Next == (\E a \in Args, t \in 1..Len(Sources) : Begin(a, t)) \/ Goes \/ Ends
Spec == Init /\ [][Next]_vars

(************************** Properties ************************************)
Over == { j \in 1..Len(hist) : hist[j][3].code # -1 }
Changed(before, after) == { p \in DOMAIN before \cup DOMAIN after : p \notin DOMAIN before \/ p \notin DOMAIN after \/ before[p] # after[p] }
(* Nothing changes when the run fails, stops after the lexer or prints. *)
Untouched == \A j \in Over : LET h == hist[j] IN
  (h[3].code # 0 \/ h[1].lonly \/ h[1].output = "-") => Changed(h[2], h[3].fs) = {}
(* A run that ends well writes one file, where told. *)
Where(a) == IF a.output # "" THEN a.output
            ELSE (CASE a.input = "in.mau" -> "in" [] a.input = "d/in.mau" -> "d/in" [] a.input = "a.mau.mau" -> "a.mau" [] OTHER -> a.input)
                 \o (CASE a.fmt = "yaml" -> ".yaml" [] a.fmt = "page" -> ".html" [] OTHER -> ".j2")
Written == \A j \in Over : LET h == hist[j] IN
  (h[3].code = 0 /\ ~h[1].lonly /\ h[1].output # "-")
    => /\ Changed(h[2], h[3].fs) \subseteq { Where(h[1]) }
       /\ h[3].fs[Where(h[1])] = h[3].out
       /\ h[3].out[2] = h[1].fmt
NeverInput == \A j \in Over : LET h == hist[j] IN h[1].output # h[1].input => h[3].fs[h[1].input] = h[2][h[1].input]
(* Which runs end well. *)
Wrong(t) == t \in { "= h\n[header](no)\n", "{no}", "----\nopen", "<< mau:no" }
Code == \A j \in Over : LET h == hist[j] a == h[1] t == h[2][a.input][2] IN
  h[3].code = (IF a.config \in {"bad.yaml", "no.yaml"} \/ t = "----\nopen" THEN 1
               ELSE IF a.lonly THEN 0
               ELSE IF Wrong(t) \/ a.fmt = "" THEN 1
               ELSE IF a.fmt = "jinja" /\ t \notin {"", "// c"} /\ (a.config \in {"", "empty.yaml"} \/ (a.config = "part.yaml" /\ t \in {"_a_\n", "_a_", "<< mau:inc"})) THEN 1
               ELSE IF a.output \in {"no/new", "d"} THEN 1 ELSE 0)
(* Files are written only at the very end. *)
AtTheEnd == [][ (run # <<>> /\ run' # <<>> /\ fs' # fs) => run'[1].pc = "exit" /\ run'[1].code = 0 ]_vars

Shown(f) == [p \in { q \in DOMAIN f : f[q][1] = "out" } |-> << f[p][2], f[p][3] >>]
Export == (run = <<>> /\ Len(hist) = MaxRuns)
  => PrintT("@@" \o ToJson(<< Base, [j \in 1..Len(hist) |-> << hist[j][1], hist[j][2][hist[j][1].input][2], hist[j][3].code, Shown(hist[j][3].fs), hist[j][3].out >>] >>))
=================================================================================
