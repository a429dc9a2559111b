--------------------------------- MODULE MC_C28 ---------------------------------
(* The parent of a node is the nearest node around it that holds it.          *)
EXTENDS MauVisited, MauParents

P1 == << "[name=h,k=v]\n= H *w _x_* [link](u,\"_t_ `c`\")", "== G [header](h) [header](h,\"l *s*\")", ". r _l_ [class](\"q *z*\",k)\n[a]",
         "[footnote=f,n]\n----\nN *n _o_*\n\n. t\n* i\n*# j _k_\n* l\n\n[toc,name=g]\n= F\n----", "a [footnote](f) *b [mailto](m,\"n\")*\nc [header](h)\n",
         "# i [link](u)\n## j *k*\n### l\n# m\n", "[b]\n----\np\n\n[isolate=false,c]\n++++\n* in\n++++\n----", "[group=g,position=x]\n----\nr *s*\n----",
         "<< blockgroup:g", "<< toc:n", ". y\n<< footnotes", "[engine=source]\n----\nx:1:\ny\n----", "[d,engine=raw]\n----\nR\n----", "<< mau:inc", "<< raw:inc",
         "[if:v==x](*t* u [link](w,\"[class](z,k)\"))\n", ". _q_\n---" >>
V1 == Alone(MakeEnv("v" :> "x", <<>>, "inc" :> "= I\ni1 *i2*\n* i3\n\n----\ni4\n----"))

(* What holds other nodes: all but lines, items and nested lists. *)
Holds(n) == n[1] \notin {"paragraph-line", "list-item", "toc-item"} /\ (n[1] = "list" => n[2][2] = "main")
RECURSIVE Around2(_, _)
Around2(n, hs) ==   \* the nodes, in order, each with those around it, the nearest first
  << << n, hs >> >> \o FlattenSeq([j \in 1..Len(n[4]) |-> FlattenSeq([k \in 1..Len(n[4][j]) |-> Around2(n[4][j][k], << n >> \o hs)])])
Nearest(q) == LET s == SelectSeq(q, Holds) IN IF s = <<>> THEN <<>> ELSE s[1]
Held ==
  (Succeeded /\ S.out # <<>>) =>
    LET q == TLCEval(Around2(VDoc, <<>>))
        p == TLCEval(Parents(VDoc))
    IN /\ Len(p) = Len(q)
       /\ \A j \in 1..Len(q) :
            LET n == q[j][1]  hs == q[j][2]
            IN IF n[1] \in {"document", "footnote"} THEN p[j] = <<>>
               ELSE IF n[1] = "header" /\ hs[1][1] \in {"toc-item", "macro-header"} THEN Len(p[j]) = 1 \/ p[j][1] \in {"document", "block", "footnote"}
               ELSE LET h == Nearest(hs)
                    IN p[j][1] = (IF h[1] = "include-mau" /\ n[1] # "label" THEN "document" ELSE h[1])
                       /\ (Len(p[j]) > 1 => SubSeq(p[j], 1, 3) = << h[1], h[3], h[5] >> /\ hs[Len(hs) + 1 - p[j][4]] = h)
(* In a footnote, where nodes are copied, parents are as they are in a block. *)
RECURSIVE KindsBelow(_, _)
KindsBelow(n, p) ==
  << << n[1], IF p # <<>> /\ p[1] \in {"block", "footnote"} THEN "held" ELSE IF p = <<>> THEN "" ELSE p[1] >> >>
  \o FlattenSeq([j \in 1..Len(n[4]) |-> IF n[1] \in {"macro-footnote", "macro-header", "toc-item", "blockgroup", "footnotes", "toc"} THEN <<>>
                                        ELSE FlattenSeq([k \in 1..Len(n[4][j]) |-> KindsBelow(n[4][j][k], ChildParent(n, j, p, 0))])])
Content(n) == LET q == n[4][1] IN FlattenSeq([j \in 1..Len(q) |-> KindsBelow(q[j], Id(n, 0))])
InCopies ==
  (Finished /\ Len(doc) > 0) =>
    LET A == TLCEval(Outcome(Run("[footnote=ff]\n%%%%\n" \o Text \o "\n%%%%\n[footnote](ff)\n", E0)))
        B == TLCEval(Outcome(Run("%%%%\n" \o Text \o "\n%%%%\n", E0)))
        f == VOf(A.d, "footnote")
        b == VOf(B.d, "block")
    IN (A.r = "ok" /\ B.r = "ok") =>
         \E j \in 1..Len(f) : VField(f[j], 1) = "ff" /\ Content(f[j]) = Content(b[1])

Export2 == Finished => PrintT("@@" \o ToJson(<<Text, EnvOut, Outcome(S), ParentsOutcome(S)>>))
=================================================================================
