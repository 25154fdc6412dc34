----------------------------- MODULE BatchingMC -----------------------------
(* An epoch over every small data set, batch by batch in any order.           *)
EXTENDS Batching, Json
CONSTANTS MaxN, MaxT, MaxBS
VARIABLES N, T, bs, lens, left, shown, cut
vars == <<N, T, bs, lens, left, shown, cut>>
Init == /\ N \in 1..MaxN /\ T \in 1..MaxT /\ bs \in 1..MaxBS
        /\ lens \in [1..N -> 0..T]
        /\ left = 1..NrBatches(N, bs) /\ shown = [n \in 1..N |-> 0] /\ cut = [n \in 1..N |-> T]
Next == \E i \in left :
          LET M == Members(i, bs, N)
          IN /\ left' = left \ {i}
             /\ shown' = [n \in 1..N |-> IF n \in M THEN shown[n] + 1 ELSE shown[n]]
             /\ cut' = [n \in 1..N |-> IF n \in M THEN Longest(lens, M) ELSE cut[n]]
             /\ UNCHANGED <<N, T, bs, lens>>
ExactlyOnce == left = {} => \A n \in 1..N : shown[n] = 1
NothingLost == \A n \in 1..N : cut[n] >= lens[n]
Sizes == \A i \in 1..NrBatches(N, bs) :
           LET c == Cardinality(Members(i, bs, N))
           IN c = bs \/ (i = NrBatches(N, bs) /\ c = N - bs * (i - 1) /\ c > 0)
EmitState == left # 1..NrBatches(N, bs) \/ PrintT("@@" \o ToJson([N |-> N, T |-> T, bs |-> bs, lens |-> lens]))
=============================================================================
