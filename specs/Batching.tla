------------------------------ MODULE Batching ------------------------------
(* Batches of a data set of N sequences of T steps; lens gives the length of  *)
(* every sequence.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NrBatches(N, bs) == (N + bs - 1) \div bs
First(i, bs) == (i - 1) * bs + 1
LastOf(i, bs, N) == IF i * bs < N THEN i * bs ELSE N
Members(i, bs, N) == First(i, bs)..LastOf(i, bs, N)
Longest(lens, M) == CHOOSE x \in {lens[n] : n \in M} : \A n \in M : lens[n] <= x
(* the length of a sequence by its mask: up to the last nonzero step          *)
MaskLen(col) == LET P == {t \in 1..Len(col) : col[t] # 0}
                IN IF P = {} THEN 0 ELSE CHOOSE t \in P : \A u \in P : u <= t
=============================================================================
