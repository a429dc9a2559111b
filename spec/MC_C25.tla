--------------------------------- MODULE MC_C25 ---------------------------------
(* Visitors created one after the other, with the same names of templates in  *)
(* different sources. Files can change between two visitors.                  *)
EXTENDS MauSources, Json

CONSTANTS MaxVisitors, DefaultSets, ProviderSets, FolderSets, CustomSets, ProviderLists, FolderLists, Kinds

VARIABLES world, v, hist
vars == <<world, v, hist>>

Names1 == << "style.a.j2", "style.j2", "style.a.html", "text.j2" >>
(* The text tells where it is from. *)
Src(which, set) == Ev!Dict([j \in 1..Len(set) |-> << Names1[set[j]], Ev!Leaf(which \o ToString(set[j])) >>])
Providers(a, b) == ("one" :> Src("P", a)) @@ ("two" :> Src("Q", b))
Folders(a, b) == ("f" :> Src("F", a)) @@ ("g" :> Src("G", b))

S1 == << <<>>, <<1>>, <<1, 2>> >>
S2 == << <<>>, <<2, 3>>, <<1, 3>> >>
S3 == << <<2, 1>> >>
S4 == << <<>> >>
S5 == << <<>>, <<1, 2, 3, 4>> >>
LP1 == << <<>>, <<"one">>, <<"two", "one">>, <<"one", "no">> >>
LP2 == << <<"one">> >>
LP3 == << <<"one", "two">> >>
LF1 == << <<>>, <<"f">>, <<"g", "f">>, <<"f", "g">> >>
LF2 == << <<"f">> >>
K1 == << <<".j2", FALSE>> >>
K2 == << <<".j2", FALSE>>, <<".html", TRUE>> >>

Node1(type, sub) == [type |-> type, sub |-> sub, tags |-> {}, fields |-> (IF type = "style" THEN "style" :> "star" ELSE [x \in {} |-> ""]), parent |-> <<>>]
Probes == << Node1("style", ""), Node1("style", "a"), Node1("style", "b"), Node1("text", "") >>

Idx(q) == 1..Len(q)
Init == /\ \E a, b \in Idx(ProviderSets), c, d \in Idx(FolderSets) :
              world = [providers |-> Providers(ProviderSets[a], ProviderSets[b]), folders |-> Folders(FolderSets[c], FolderSets[d])]
        /\ v = <<>> /\ hist = <<>>
Create == /\ v = <<>> /\ Len(hist) < MaxVisitors
          /\ \E k \in Idx(Kinds), d \in Idx(DefaultSets), c \in Idx(CustomSets), p \in Idx(ProviderLists), f \in Idx(FolderLists) :
               v' = << Request(Kinds[k][1], Kinds[k][2], Src("D", DefaultSets[d]), ProviderLists[p], FolderLists[f], Src("C", CustomSets[c])) >>
          /\ hist' = Append(hist, << v'[1], world.folders, v'[1] >>) /\ world' = world
Load == /\ v # <<>> /\ ~Over(v[1])
        /\ v' = << LoadStep(v[1], world) >> /\ UNCHANGED <<world, hist>>
Finish == /\ v # <<>> /\ Over(v[1])
          /\ hist' = [hist EXCEPT ![Len(hist)][3] = v[1]] /\ v' = <<>> /\ world' = world
(* The user edits the files of a folder. *)
Edit == /\ v = <<>> /\ 0 < Len(hist) /\ Len(hist) < MaxVisitors
        /\ \E c \in Idx(FolderSets) : world' = [world EXCEPT !.folders = ("f" :> Src("N", FolderSets[c])) @@ @] /\ world' # world
        /\ UNCHANGED <<v, hist>>
Next == Create \/ Load \/ Finish \/ Edit
Spec == Init /\ [][Next]_vars

(************************** Properties ************************************)
(* What the sources contain, read directly: the letter of the source that    *)
(* provides a name is the last one of those that have it.                    *)
Has(t, n) == \E j \in 1..Len(t.kids) : t.kids[j][1] = n
Letter(t, n) == t.kids[CHOOSE j \in 1..Len(t.kids) : t.kids[j][1] = n][2].v
SourcesOf(h) == LET r == h[1] IN
  << r.defaults >> \o [j \in Idx(r.providers) |-> world.providers[r.providers[j]]]
  \o [j \in Idx(r.folders) |-> h[2][r.folders[j]]] \o << r.custom >>
IsFolder(h, i) == i > 1 + Len(h[1].providers) /\ i < 2 + Len(h[1].providers) + Len(h[1].folders)
Done == { j \in Idx(hist) : Over(hist[j][3]) }
Available(h) == \A j \in Idx(h[1].providers) : h[1].providers[j] \in DOMAIN world.providers
Failure == \A j \in Done : (hist[j][3].pc = "failed") = ~Available(hist[j])
Latest == \A j \in Done : LET h == hist[j] IN
  h[3].pc = "ready" =>
    LET q == SourcesOf(h)
        with(n) == { i \in Idx(q) : Has(q[i], n) }
        good == { k \in 1..Len(Names1) : EndsWith(Names1[k], h[1].ext) /\ with(Names1[k]) # {} }
    IN /\ { n \in DOMAIN h[3].m : EndsWith(n, h[1].ext) } = { Names1[k] : k \in good }
       /\ \A k \in good : LET i == CHOOSE x \in with(Names1[k]) : \A y \in with(Names1[k]) : y <= x
                          IN h[3].m[Names1[k]] = (IF h[1].pre /\ IsFolder(h, i) THEN "pre " ELSE "") \o Letter(q[i], Names1[k])
(* Reading a source removes no template. *)
Kept == [][ (v # <<>> /\ v' # <<>>) => DOMAIN v[1].m \subseteq DOMAIN v'[1].m ]_vars
(* A visitor stays as it was when others are created and files change. *)
Fixed == [][ \A j \in Done : hist'[j] = hist[j] ]_vars

Plain(t) == [j \in 1..Len(t.kids) |-> << t.kids[j][1], t.kids[j][2].v >>]
ReqOut(r) == << r.ext, r.pre, Plain(r.defaults), r.providers, r.folders, Plain(r.custom) >>
Export == (v = <<>> /\ Len(hist) = MaxVisitors)
  => PrintT("@@" \o ToJson(<< [p \in DOMAIN world.providers |-> Plain(world.providers[p])],
                              [j \in Idx(hist) |-> << ReqOut(hist[j][1]), [f \in DOMAIN hist[j][2] |-> Plain(hist[j][2][f])],
                                                     hist[j][3].pc = "ready", Shows(hist[j][3], Probes, <<>>),
                                                     IF hist[j][3].pc = "ready" THEN SomeOrder(Library(hist[j][3])) ELSE <<>> >>] >>))
=================================================================================
