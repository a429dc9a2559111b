--------------------------------- MODULE MC_C21 ---------------------------------
(* A processed document is visited a few times, by different visitors.        *)
EXTENDS MauVisited, MauRender

CONSTANT MaxVisits
VARIABLE visits      \* the visitors that visited the document

Visitors == {"base", "yaml", "jinja"}
Init2 == Init /\ visits = <<>>
Visit(v) == Succeeded /\ Len(visits) < MaxVisits /\ visits' = Append(visits, v) /\ UNCHANGED vars
Next2 == (Next /\ visits' = visits) \/ \E v \in Visitors : Visit(v)
Spec2 == Init2 /\ [][Next2]_<<vars, visits>>

P1 == << "[name=h,k=v,#t,*s]\n= H [header](h) _w_", "== G [header](h,\"l `v`\")", ". role _l_\n[a,b=c]\n", "[footnote=f]\n----\nN [footnote](f) *n*\n\n. q\n---\n----",
         "a *b _c_* [footnote](f)\nd [header](h)\n", "* i\n*# j\n* k", "[cc]\n----\np\n\n[group=g,position=x]\n++++\nin\n++++\n----",
         "[group=g,position=x]\n----\nr\ns\n----", "<< blockgroup:g", "<< toc", "<< footnotes", "[p,engine=source]\n----\nx:1:\n:@:y\n\nz\n----", "[engine=raw]\n----\nR\n----",
         "<< mau:inc", "<< raw:inc", "<< image:i.png,alt", "<< other:1,2", "[image](u,\"t\") [class](\"*x*\",c,d) [link](u,\"_t_\") [unicode](1F30B) [raw](r) [zz](1,k=2)\n", "---" >>
V1 == Alone(MakeEnv("v" :> "x", <<>>, "inc" :> "= I\ni1\n\ni2"))

(* What is in the document itself, and not shown there from another place. *)
RECURSIVE Own(_)
Own(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET n == q[1]
           g == n[4]
           in == CASE n[1] \in {"macro-footnote", "footnotes-item", "toc-item", "blockgroup-item"} -> <<>>
                   [] n[1] = "macro-header" -> <<>>
                   [] n[1] \in {"toc", "footnotes", "blockgroup"} -> g[Len(g)]
                   [] OTHER -> FlattenSeq(g)
       IN << n >> \o Own(in) \o Own(Tail(q))
(* The processed document, links without content. *)
RECURSIVE Below(_)
Below(q) ==
  IF q = <<>> THEN <<>>
  ELSE << q[1] >> \o (IF q[1].k = "macro-header" THEN <<>> ELSE Below(q[1].c))
       \o FlattenSeq([j \in 1..Len(q[1].l) |-> << [q[1] EXCEPT !.k = "label", !.a = <<q[1].l[j].r>>] >> \o Below(q[1].l[j].c)]) \o Below(Tail(q))
(* Every node is reported once, in order, with its fields. *)
Brief(k, a) == << k, IF k \in {"header", "macro-footnote"} THEN <<>> ELSE a >>
Complete == Succeeded /\ S.out # <<>> =>
  LET v == Own(Top)  b == Below(S.out)
  IN [j \in 1..Len(v) |-> Brief(v[j][1], v[j][2])] = [j \in 1..Len(b) |-> Brief(b[j].k, b[j].a)]
(* The text of every node is in the rendered text, as many times as the node. *)
RECURSIVE Occurrences(_, _, _)
Occurrences(s, p, i) == LET k == FindFrom(s, p, i) IN IF k = 0 THEN 0 ELSE 1 + Occurrences(s, p, k + Len(p))
DataOnly == {"header", "footnote"}
Rendering == Succeeded /\ S.out # <<>> =>
  LET t == RenderedOutcome(S)
  IN \A k \in {"text", "style", "macro", "list-item", "label", "block", "blockgroup-item", "toc-item", "footnotes-item", "source-line", "raw-line"} :
       Occurrences(t, "<" \o k \o "|", 1) + Occurrences(t, "<" \o k \o "!", 1) = Len(VOf(<<VDoc>>, k))
Unchanged == [][visits' # visits => S' = S]_<<vars, visits>>

Export2 == (Finished /\ (Failed \/ Len(visits) = MaxVisits))
             => PrintT("@@" \o ToJson(<<Text, EnvOut, visits, Outcome(S), RenderedOutcome(S)>>))
=================================================================================
