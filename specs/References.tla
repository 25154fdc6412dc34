------------------------------ MODULE References ------------------------------
(* References to the views of a network: patterns with wildcards, nested      *)
(* dictionaries, defaults and fallbacks. Names and patterns are sequences of  *)
(* characters. A reference dictionary is a sequence of entries                *)
(*   [p |-> pattern, leaf |-> id]  or  [p |-> pattern, sub |-> dictionary].   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Match(_, _)
Match(p, k) ==
  IF p = <<>> THEN k = <<>>
  ELSE IF p[1] = "*" THEN Match(Tail(p), k) \/ (k # <<>> /\ Match(p, Tail(k)))
  ELSE k # <<>> /\ p[1] = k[1] /\ Match(Tail(p), Tail(k))
Default == <<"d", "e", "f", "a", "u", "l", "t">>
Fallback == <<"f", "a", "l", "l", "b", "a", "c", "k">>
Special(p) == p \in {Default, Fallback}
IsLeaf(e) == "leaf" \in DOMAIN e
Entry(refs, p) == {refs[i] : i \in {j \in 1..Len(refs) : refs[j].p = p}}
(* the entries of a dictionary that speak about a key                         *)
Explicit(refs, k) == {i \in 1..Len(refs) : ~Special(refs[i].p) /\ Match(refs[i].p, k)}
Speaking(refs, k) ==
  LET E == Explicit(refs, k)
  IN IF E # {} THEN E ELSE {i \in 1..Len(refs) : refs[i].p = Default}
(* default (fallback) in force inside a dictionary: its own, else inherited   *)
LeafOf(refs, p, inherited) ==
  LET D == {e \in Entry(refs, p) : IsLeaf(e)} IN IF D = {} THEN inherited ELSE {e.leaf : e \in D}
(* what the references say about one view, given by its path                  *)
RECURSIVE Say(_, _, _, _)
Say(refs, path, d, f) ==
  LET cd == LeafOf(refs, Default, d)
      cf == LeafOf(refs, Fallback, f)
      M == Speaking(refs, path[1])
      R(i) == IF IsLeaf(refs[i]) THEN [c |-> {refs[i].leaf}, d |-> cd, f |-> cf]
              ELSE Say(refs[i].sub, Tail(path), cd, cf)
  IN IF M = {} THEN [c |-> {}, d |-> cd, f |-> cf]
     ELSE [c |-> UNION {R(i).c : i \in M}, d |-> UNION {R(i).d : i \in M}, f |-> UNION {R(i).f : i \in M}]
(* every pattern has to match something where it is applied                   *)
PatternsMatch(refs, keys) ==
  \A i \in 1..Len(refs) : Special(refs[i].p) \/ \E k \in keys : Match(refs[i].p, k)
(* tree: sequence of [c |-> layer name, views |-> sequence of [c |-> name]]   *)
LayerKeys(tree) == {tree[i].c : i \in 1..Len(tree)}
ViewKeys(lay) == {lay.views[j].c : j \in 1..Len(lay.views)}
AllMatch(tree, refs) ==
  /\ PatternsMatch(refs, LayerKeys(tree))
  /\ \A i \in 1..Len(tree) : \A e \in Speaking(refs, tree[i].c) :
       IsLeaf(refs[e]) \/ PatternsMatch(refs[e].sub, ViewKeys(tree[i]))
About(tree, refs, i, j) == Say(refs, <<tree[i].c, tree[i].views[j].c>>, {}, {})
(* the rule in force: explicit content before defaults                        *)
Chosen(r) == IF r.c # {} THEN r.c ELSE r.d
Ambiguous(r) == Cardinality(Chosen(r)) > 1 \/ Cardinality(r.f) > 1
Positions(tree) == UNION {{<<i, j>> : j \in 1..Len(tree[i].views)} : i \in 1..Len(tree)}
=============================================================================
