------------------------------ MODULE LayoutMC ------------------------------
(* Design check: sinks are added one after the other to N sources; at every   *)
(* point the backtracking search agrees with "some permutation works", and    *)
(* any order found yields disjoint sources and sinks that alias exactly the   *)
(* memory of their sources.                                                   *)
EXTENDS Layout, Json
CONSTANTS N, MaxSinks, Emit
VARIABLES sinks
Sources == 1..N
Size == [i \in Sources |-> 1 + (i % 3)]
MCInit == sinks = {}
MCNext == /\ Cardinality(sinks) < MaxSinks
          /\ \E s \in SUBSET Sources : s # {} /\ s \notin sinks
                                       /\ sinks' = sinks \cup {s}
Singles == {<<i>> : i \in Sources}
Perms == {p \in [1..N -> Sources] : \A i, j \in 1..N : i # j => p[i] # p[j]}
SearchAgrees == Feasible(Singles, sinks) <=> \E p \in Perms : Consecutive(p, sinks)
PackingSound ==
  \A p \in Perms : Consecutive(p, sinks) =>
    LET off == Offsets(p, Size, 0)
    IN /\ \A i, j \in Sources : i # j => off[i][2] <= off[j][1] \/ off[j][2] <= off[i][1]
       /\ \A s \in sinks :
            LET iv == SinkInterval(p, Size, s)
            IN /\ iv[2] - iv[1] = FoldSet(LAMBDA x, a : a + Size[x], 0, s)
               /\ \A i \in Sources : (i \in s) <=>
                    (off[i][1] >= iv[1] /\ off[i][2] <= iv[2])
EmitState == ~Emit \/ Cardinality(sinks) < 2
             \/ PrintT("@@" \o ToJson([s |-> sinks, f |-> Feasible(Singles, sinks)]))
=============================================================================
