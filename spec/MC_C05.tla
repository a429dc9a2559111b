--------------------------------- MODULE MC_C05 ---------------------------------
(* What is written before a construct is attached to it, and only to it.      *)
EXTENDS MauExplore

(* kinds of pieces: "a" arguments, "l" label, "t" / "f" true or false         *)
(* condition, "n" nothing, "c" a construct that makes a node                  *)
K(k, t, x, y) == [k |-> k, t |-> t, x |-> x, y |-> y]
Q == << K("a", "[p]", "p", ""), K("a", "[q]", "q", ""), K("l", ".one x", "one", "x"), K("l", ".one y", "one", "y"), K("l", ". z", "title", "z"),
        K("t", "@if v==x", "", ""), K("f", "@if v!=x", "", ""),
        K("n", "", "", ""), K("n", "// c", "", ""), K("n", ":w:1", "", ""), K("n", "////\n[r]\n////", "", ""),
        K("c", "a\n", "", ""), K("c", "---", "", ""), K("c", "= H", "", ""), K("c", "* i\n** j\n", "", ""),
        K("c", "----\nb\n\n---\n----", "", ""), K("c", "[footnote=f]\n++++\nc\n++++\n[s]\n---", "", ""), K("c", "<< toc", "", ""), K("c", "<< image", "", ""),
        K("c", "<< image:u", "", ""), K("c", "----\n----", "", ""), K("c", "<< foo", "", ""), K("c", "[engine=source]\n----\nx\n----", "", "") >>
(* without the last, unusual, constructs *)
QS == SubSeq(Q, 1, 16) \o << Q[18], Q[21], Q[22] >>
P1 == [j \in 1..Len(QS) |-> QS[j].t]
P2 == [j \in 1..Len(Q) |-> Q[j].t]
V1 == Alone(MakeEnv("v" :> "x", <<>>, NoFiles))

(* What every node receives, reading the pieces in order. *)
RECURSIVE Put1(_, _)
Put1(ls, l) == IF ls = <<>> THEN <<l>> ELSE IF ls[1][1] = l[1] THEN <<l>> \o Tail(ls) ELSE <<ls[1]>> \o Put1(Tail(ls), l)
RECURSIVE Bind(_, _, _, _)
Bind(j, args, labels, ctl) ==
  IF j > Len(doc) THEN <<>>
  ELSE LET q == QS[doc[j]]
       IN CASE q.k = "a" -> Bind(j + 1, <<q.x>>, labels, ctl)
            [] q.k = "l" -> Bind(j + 1, args, Put1(labels, <<q.x, q.y>>), ctl)
            [] q.k \in {"t", "f"} -> Bind(j + 1, args, labels, q.k)
            [] q.k = "n" -> Bind(j + 1, args, labels, ctl)
            [] OTHER -> (IF ctl = "f" THEN <<>> ELSE << [a |-> args, l |-> labels] >>) \o Bind(j + 1, <<>>, <<>>, "")

Got(n) == [a |-> n.g.un, l |-> [j \in 1..Len(n.l) |-> << n.l[j].r, n.l[j].c[1].a[1] >>]]
Bound == Succeeded => [j \in 1..Len(S.out) |-> Got(S.out[j])] = Bind(1, <<>>, <<>>, "")
(* What is inside the nodes receives nothing. *)
InsideNothing ==
  Succeeded => \A j \in 1..Len(S.out) :
                 LET q == AllNodes(S.out[j].c) IN \A k \in 1..Len(q) : q[k].g = NoNodeArgs /\ q[k].l = <<>>
(* A step that does not make a node of the document and is not a definition   *)
(* of arguments, label or control leaves what is waiting as it is.            *)
Waiting(f) == <<f.args, f.labels, f.ctl>>
StillWaiting ==
  [][ (S.st = "run" /\ S'.st = "run" /\ Len(S.fr) = Len(S'.fr) /\ Construct(S) \in {"Eol", "Variable"})
      => Waiting(Cur(S)) = Waiting(Cur(S)') ]_vars
=================================================================================
