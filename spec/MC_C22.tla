--------------------------------- MODULE MC_C22 ---------------------------------
(* Documents processed one after the other, while a file that some of them   *)
(* include changes. A process has no state of its own: what a run gives is   *)
(* what the text, its environment and the files give.                        *)
EXTENDS MauVisit, Json

CONSTANTS MaxRuns, Docs
VARIABLES file,      \* the content of the file: an element of Contents
          now,       \* <<>>, or the run in progress: [k, f, S]
          hist       \* the finished runs: [k: the document, f: the file when it ran, o: the outcome]
vars == <<file, now, hist>>

NoFiles == [x \in {} |-> ""]
D(t, v) == [t |-> t, v |-> v]
X == "v" :> "x"
Plain == NoVars
Docs1 == << D(":v:1\n:+w:\n{v}{w}\n", Plain), D("{v}\n", Plain), D("{v}\n", X),
            D("a [footnote](f)\n\n[footnote=f]\n----\nF\n----\n\n<< footnotes", Plain), D("[footnote](f)\n", Plain), D("<< footnotes", Plain),
            D("[group=g,position=p]\n----\nG\n----\n\n<< blockgroup:g", Plain), D("<< blockgroup:g", Plain),
            D("[name=h]\n= H\n\n[header](h)\n", Plain), D("[header](h)\n", Plain), D("= H\n<< toc", Plain), D("<< toc", Plain),
            D("# a\n# b\n\n[start=auto]\n# c", Plain), D("[start=auto]\n# a", Plain),
            D("a\n\n. label *l*", Plain), D("[x,#t,*s,k=v]", Plain), D("@if v==x", X), D("----\nopen", Plain), D("b\n", Plain),
            D("<< mau:inc", Plain), D("<< raw:inc", Plain), D("<< mau:inc\n\n<< mau:inc", X), D("", Plain),
            D("[engine=source,python,a]\n----\nx:1:\n:@:y\n----", Plain), D("[c]\n----\np\n----\n----\nq\n----", Plain), D("[isolate=false]\n----\n:v:2\n= T\n----\n{v}\n\n<< toc", X),
            D("[if:v==x](\"[link](u)\")[nothing](1,a=2)\n", X), D("<< other:1,b=2", Plain), D("_a *b_ `c\n", Plain) >>
Docs2 == SubSeq(Docs1, 1, 22)
Contents == { "+", "+= I\n{v}\n", "+:v:9\n[header](h)\n", "-" }         \* "-": no file
Files(f) == IF f = "-" THEN NoFiles ELSE "inc" :> (IF f = "+" THEN "" ELSE SubSeq(f, 2, Len(f)))
FirstState(k, f) == InitState(Docs[k].t, MakeEnv(Docs[k].v, <<>>, Files(f)))

Init == file = "-" /\ now = <<>> /\ hist = <<>>
Begin(k) == now = <<>> /\ Len(hist) < MaxRuns /\ now' = << [k |-> k, S |-> FirstState(k, file)] >> /\ UNCHANGED <<file, hist>>
Goes == now # <<>> /\ now[1].S.st = "run"
        /\ now' = << [now[1] EXCEPT !.S = StepOf(@, Construct(@))] >> /\ UNCHANGED <<file, hist>>
Ends == now # <<>> /\ now[1].S.st # "run"
        /\ hist' = Append(hist, [k |-> now[1].k, f |-> file, o |-> Outcome(now[1].S)]) /\ now' = <<>> /\ file' = file
Edit(f) == now = <<>> /\ f # file /\ Len(hist) < MaxRuns /\ file' = f /\ UNCHANGED <<now, hist>>
Next == (\E k \in 1..Len(Docs) : Begin(k)) \/ Goes \/ Ends \/ \E f \in Contents : Edit(f)
Spec == Init /\ [][Next]_vars

(* The same document with the same environment and files has one outcome,     *)
(* whatever was processed before.                                             *)
SameAgain == \A i, j \in 1..Len(hist) : hist[i].k = hist[j].k /\ hist[i].f = hist[j].f => hist[i].o = hist[j].o
(* Documents without inclusions do not even depend on the file.               *)
NoFile == \A i, j \in 1..Len(hist) : hist[i].k = hist[j].k /\ ~Contains(Docs[hist[i].k].t, ":inc") => hist[i].o = hist[j].o
(* Documents that need what another document defines always fail.             *)
Fail(t) == t \in { "[footnote](f)\n", "[header](h)\n", "----\nopen", "<< blockgroup:g" }
Alone == \A i \in 1..Len(hist) : Fail(Docs[hist[i].k].t) => hist[i].o.r \in {"lexer", "parser"}
PastIsPast == [][ \A i \in 1..Len(hist) : i <= Len(hist') /\ hist'[i] = hist[i] ]_vars

Export == (now = <<>> /\ Len(hist) = MaxRuns) => PrintT("@@" \o ToJson([i \in 1..Len(hist) |-> << Docs[hist[i].k].t, Docs[hist[i].k].v, hist[i].f, hist[i].o >>]))
=================================================================================
