------------------------------- MODULE MauSources -------------------------------
(* Where the templates of a visitor come from. A visitor is created from its  *)
(* defaults, the providers it asks for, the folders and the dictionary of its *)
(* configuration, which are read in this order.                               *)
(*                                                                            *)
(* Sources are trees (see MauEnv) whose leaves are texts of templates. A      *)
(* visitor: [ext, pre (files are preprocessed), defaults, providers (a        *)
(* sequence of names), folders (a sequence of names), custom, pc, m (names    *)
(* and texts)]. The world: [providers, folders], functions from names to      *)
(* trees.                                                                     *)
EXTENDS MauTemplates

Ev == INSTANCE MauEnv

Request(ext, pre, defaults, providers, folders, custom) ==
  [ext |-> ext, pre |-> pre, defaults |-> defaults, providers |-> providers, folders |-> folders, custom |-> custom,
   pc |-> "defaults", m |-> Ev!Nothing]
Texts(t) == Ev!AsMap(t, "")
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
(* Only the files with the extension are read. *)
Files(t, v) == LET m == Texts(t) IN
  [n \in { k \in DOMAIN m : EndsWith(k, v.ext) } |-> IF v.pre THEN "pre " \o m[n] ELSE m[n]]
(* An empty dictionary of templates contains no template. *)
Some1(m) == [n \in { k \in DOMAIN m : m[k] # "{}" } |-> m[n]]

LoadStep(v, w) ==
  CASE v.pc = "defaults"  -> [v EXCEPT !.m = Texts(v.defaults), !.pc = "providers"]
    [] v.pc = "providers" -> IF v.providers = <<>> THEN [v EXCEPT !.pc = "folders"]
                             ELSE IF v.providers[1] \notin DOMAIN w.providers THEN [v EXCEPT !.pc = "failed"]
                             ELSE [v EXCEPT !.m = Some1(Texts(w.providers[v.providers[1]])) @@ @, !.providers = Tail(@)]
    [] v.pc = "folders"   -> IF v.folders = <<>> THEN [v EXCEPT !.pc = "custom"]
                             ELSE [v EXCEPT !.m = Files(w.folders[v.folders[1]], v) @@ @, !.folders = Tail(@)]
    [] v.pc = "custom"    -> [v EXCEPT !.m = Some1(Texts(v.custom)) @@ @, !.pc = "ready"]
Over(v) == v.pc \in {"ready", "failed"}

(* The templates: names with the extension, without it. *)
NamesOf(v) == { SubSeq(n, 1, Len(n) - Len(v.ext)) : n \in { k \in DOMAIN v.m : EndsWith(k, v.ext) /\ Len(k) > Len(v.ext) } }
Cuts(n) == { i \in 1..Len(n) : SubSeq(n, i, i) = "." }
RECURSIVE PartsOf(_)
PartsOf(n) == IF Cuts(n) = {} THEN <<n>>
              ELSE LET i == CHOOSE x \in Cuts(n) : \A y \in Cuts(n) : x <= y
                   IN << IF i = 1 THEN "" ELSE SubSeq(n, 1, i - 1) >> \o PartsOf(Ev!EFrom(n, i + 1))
RECURSIVE SomeOrder(_)
SomeOrder(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN << x >> \o SomeOrder(s \ {x})
(* The templates that other templates can use, by name. *)
Library(v) == { << n, v.m[n \o v.ext] >> : n \in NamesOf(v) }
(* The texts that can render each node. *)
Shows(v, nodes, prefixes) ==
  LET q == SomeOrder(NamesOf(v))
      T == [j \in 1..Len(q) |-> LET p == PartsOf(q[j]) IN Template(p[1], Tail(p))]
  IN [i \in 1..Len(nodes) |-> { v.m[q[j] \o v.ext] : j \in Chosen(T, prefixes, nodes[i]) }]
=================================================================================
