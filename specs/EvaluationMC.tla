---------------------------- MODULE EvaluationMC ----------------------------
(* The aggregation of batch results, for every way of cutting a data set into *)
(* batches: item losses and correctness are small numbers, masks any.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxV
VARIABLES v, m, pos, acc
vars == <<v, m, pos, acc>>
RECURSIVE SumF(_, _, _)
SumF(f, i, j) == IF i > j THEN 0 ELSE f[i] + SumF(f, i + 1, j)
N == Len(v)
Init == /\ \E n \in 1..MaxN : v \in [1..n -> 0..MaxV] /\ m \in [1..n -> 0..1]
        /\ pos = 0 /\ acc = <<>>
(* one more batch: items pos+1..e. The network reports the mean loss of the   *)
(* batch (as a pair sum, size) and the masked sum with its weight.            *)
Next == \E e \in (pos + 1)..N :
          /\ pos' = e
          /\ acc' = Append(acc, [size |-> e - pos, loss |-> SumF(v, pos + 1, e),
                                 w |-> SumF(m, pos + 1, e),
                                 sc |-> SumF([i \in 1..N |-> v[i] * m[i]], pos + 1, e)])
          /\ UNCHANGED <<v, m>>
Total(f) == SumF(f, 1, Len(acc))
(* sum over batches of mean*size / total size; exact in rationals             *)
LossIsMean == pos = N => /\ Total([i \in 1..Len(acc) |-> acc[i].size]) = N
                         /\ Total([i \in 1..Len(acc) |-> acc[i].loss]) = SumF(v, 1, N)
ScoreIsMaskedMean == pos = N => /\ Total([i \in 1..Len(acc) |-> acc[i].w]) = SumF(m, 1, N)
                                /\ Total([i \in 1..Len(acc) |-> acc[i].sc]) = SumF([i \in 1..N |-> v[i] * m[i]], 1, N)
Emit == pos # N \/ PrintT("@@" \o ToJson([n |-> N, m |-> m, sizes |-> [i \in 1..Len(acc) |-> acc[i].size]]))
=============================================================================
