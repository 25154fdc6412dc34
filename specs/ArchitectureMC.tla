--------------------------- MODULE ArchitectureMC ---------------------------
(* Design check: edges are added one at a time; the round-based ordering of   *)
(* the code (repeatedly take every layer all of whose successors are taken)   *)
(* is compared with the declarative canonical order.                          *)
EXTENDS Architecture, Json
CONSTANTS LayerNames, MaxEdges, Emit
VARIABLES edges
AllNames == <<"Input">> \o LayerNames
MCInit == edges = {}
MCNext == /\ Cardinality(edges) < MaxEdges
          /\ \E a, b \in SeqSet(AllNames) : <<a, b>> \notin edges
                                         /\ edges' = edges \cup {<<a, b>>}
Arch == [i \in DOMAIN AllNames |->
          [n |-> AllNames[i], r |-> i, t |-> IF i = 1 THEN "Input" ELSE "VProbe",
           outs |-> SetToSeq({<<"default", e[2], "default">> : e \in {x \in edges : x[1] = AllNames[i]}})]]
RECURSIVE Rounds(_, _)
Rounds(done, order) ==
  LET new == {n \in Names(Arch) : n \notin done /\ Succ(Arch, n) \subseteq done}
  IN IF new = {} THEN order
     ELSE Rounds(done \cup new,
                 SetToSortSeq(new, LAMBDA a, b : Entry(Arch, a).r < Entry(Arch, b).r) \o order)
RoundOrder == Rounds({}, <<>>)
RoundsComplete == Acyclic(Arch) <=> Len(RoundOrder) = Len(Arch)
RoundsCanonical == Acyclic(Arch) => RoundOrder = Canonical(Arch) /\ Topological(RoundOrder, Arch)
EmitState == ~Emit \/ PrintT("@@" \o ToJson([e |-> edges]))
=============================================================================
