------------------------------ MODULE Evaluation ------------------------------
(* Losses and scores of a linear network on a whole data set, independent of  *)
(* any batching. Data, parameters and masks are integers; results are in the  *)
(* fixed point of Fix.tla.                                                    *)
EXTENDS Fix, FiniteSets
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Sum(s) == SumSeq(s, Len(s))
(* num / den in fixed point                                                   *)
RatS(num, den) == (num \div den) * S + ((num % den) * S) \div den
(* D: [kind, x, t, m, masked]; P: [W, b]                                      *)
T(D) == Len(D.x)
N(D) == IF Len(D.x) = 0 THEN 0 ELSE Len(D.x[1])
C(P) == Len(P.b)
Logit(D, P, s, n, o) == P.b[o] + Sum([i \in 1..Len(D.x[s][n]) |-> P.W[o][i] * D.x[s][n][i]])
Logits(D, P, s, n) == [o \in 1..C(P) |-> Logit(D, P, s, n, o)]
MaxOf(v) == CHOOSE a \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : v[i] <= a
FExpInt(k) == IF k < -14 THEN 0 ELSE FExp(k * S)
Prob(v, o) == FDiv(FExpInt(v[o] - MaxOf(v)), Sum([k \in 1..Len(v) |-> FExpInt(v[k] - MaxOf(v))]))
(* what the output layer predicts, fixed point                                *)
Prediction(D, P, s, n, o) ==
  LET v == Logits(D, P, s, n)
  IN CASE D.kind = "reg" -> v[o] * S
       [] D.kind = "cls" -> Prob(v, o)
       [] D.kind = "multi" -> FSigmoid(v[o] * S)
(* loss of one item in fixed point (cls, multi), twice the loss for reg       *)
CellLoss(D, P, s, n) ==
  LET v == Logits(D, P, s, n)
  IN CASE D.kind = "reg" -> Sum([o \in 1..C(P) |-> (v[o] - D.t[s][n][o]) * (v[o] - D.t[s][n][o])])
       [] D.kind = "cls" -> (MaxOf(v) - v[D.t[s][n][1] + 1]) * S + FLn(Sum([k \in 1..Len(v) |-> FExpInt(v[k] - MaxOf(v))]))
       [] D.kind = "multi" -> Sum([o \in 1..C(P) |-> IF D.t[s][n][o] = 1 THEN FLn(S + FExpInt(-v[o])) ELSE FLn(S + FExpInt(v[o]))])
Over(D, F(_, _)) == Sum([s \in 1..T(D) |-> Sum([n \in 1..N(D) |-> F(s, n)])])
LossSum(D, P) == LET F(s, n) == (IF D.masked THEN D.m[s][n][1] ELSE 1) * CellLoss(D, P, s, n) IN Over(D, F)
(* importance in eighths                                                      *)
LossValue(D, P, imp8) ==
  IF D.kind = "reg" THEN RatS(imp8 * LossSum(D, P), 16 * N(D))
  ELSE ((LossSum(D, P) \div N(D)) \div 8) * imp8
(* what a scorer uses: its own output, targets and mask, if it has any, and    *)
(* those given for the evaluation otherwise                                   *)
Uses(sc, o) == sc @@ [mk |-> IF sc.own_m # "" THEN sc.own_m ELSE o.arg_m,
                      tg |-> IF sc.own_t # "" THEN sc.own_t ELSE o.arg_t]
Tgt(D, sc, s, n) == IF sc.tg = "t2" THEN D.t2[s][n] ELSE D.t[s][n]
(* weight of an item for a scorer: its mask, if the scorer uses one           *)
W1(D, sc, s, n) == IF sc.mk = "m" THEN D.m[s][n][1] ELSE IF sc.mk = "m2" THEN D.m2[s][n][1] ELSE 1
Weight(D, sc) == LET F(s, n) == W1(D, sc, s, n) IN Over(D, F)
ArgMax(v) == CHOOSE i \in 1..Len(v) : v[i] = MaxOf(v) /\ \A j \in 1..(i - 1) : v[j] < v[i]
Right(D, P, sc, s, n) == LET v == Logits(D, P, s, n) t == Tgt(D, sc, s, n)
                         IN IF Len(v) > 1 THEN IF ArgMax(v) - 1 = t[1] THEN 1 ELSE 0
                            ELSE IF v[1] = t[1] THEN 1 ELSE 0
(* threshold in halves for reg; 1/2 means logit 0 for multi                   *)
Below(D, v, thr2) == IF D.kind = "multi" THEN v < 0 ELSE 2 * v < thr2
Agree(D, P, sc, s, n) ==
  Cardinality({o \in 1..C(P) : Below(D, Logit(D, P, s, n, o), sc.thr2) # (Tgt(D, sc, s, n)[o] # 0)})
SqErr(D, P, sc, s, n) ==   \* reg: integer; multi: fixed point
  LET v == Logits(D, P, s, n) t == Tgt(D, sc, s, n)
  IN IF D.kind = "reg" THEN Sum([o \in 1..C(P) |-> (v[o] - t[o]) * (v[o] - t[o])])
     ELSE Sum([o \in 1..C(P) |-> LET d == Prediction(D, P, s, n, o) - t[o] * S IN FMul(d, d)])
ScoreValue(D, P, sc) ==
  CASE sc.k = "acc" -> LET F(s, n) == W1(D, sc, s, n) * Right(D, P, sc, s, n) IN RatS(Over(D, F), Weight(D, sc))
    [] sc.k = "ham" -> LET F(s, n) == W1(D, sc, s, n) * Agree(D, P, sc, s, n) IN RatS(Over(D, F), C(P) * Weight(D, sc))
    [] sc.k = "mse" -> LET F(s, n) == W1(D, sc, s, n) * SqErr(D, P, sc, s, n)
                       IN IF D.kind = "reg" THEN RatS(Over(D, F), 2 * Weight(D, sc)) ELSE Over(D, F) \div (2 * Weight(D, sc))
(* batches in order, cut to the longest sequence; bs = 0: everything at once  *)
BatchOf(n, bs) == IF bs = 0 THEN 1 ELSE ((n - 1) \div bs) + 1
SeqLen(D, n) == LET Q == {s \in 1..T(D) : D.m[s][n][1] # 0}
                IN IF Q = {} THEN 0 ELSE CHOOSE s \in Q : \A u \in Q : u <= s
CutLen(D, n, bs) ==
  IF bs = 0 \/ ~D.hasmask THEN T(D)
  ELSE LET L == {SeqLen(D, k) : k \in {j \in 1..N(D) : BatchOf(j, bs) = BatchOf(n, bs)}}
       IN CHOOSE a \in L : \A c \in L : c <= a
Longest(D, bs) == LET L == {CutLen(D, n, bs) : n \in 1..N(D)} IN CHOOSE a \in L : \A c \in L : c <= a
Buffer(D, P, name, s, n) ==
  CASE name = "pred" -> [o \in 1..C(P) |-> Prediction(D, P, s, n, o)]
    [] name = "proj" -> [o \in 1..C(P) |-> Logit(D, P, s, n, o) * S]
    [] name = "in" -> [i \in 1..Len(D.x[s][n]) |-> D.x[s][n][i] * S]
Zero(D, P, name) == IF name = "in" THEN [i \in 1..Len(D.x[1][1]) |-> 0] ELSE [o \in 1..C(P) |-> 0]
Extracted(D, P, name, bs) ==
  [s \in 1..Longest(D, bs) |-> [n \in 1..N(D) |->
     IF s <= CutLen(D, n, bs) THEN Buffer(D, P, name, s, n) ELSE Zero(D, P, name)]]
=============================================================================
