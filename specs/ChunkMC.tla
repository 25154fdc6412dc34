------------------------------ MODULE ChunkMC ------------------------------
(* Design check: on the recurrences of Nets, running a sequence in pieces     *)
(* with the state handed on equals running it in one piece, for every way of  *)
(* cutting it; without handing on, the second piece starts from zero.         *)
EXTENDS Nets, Json
CONSTANTS MaxT, N
VARIABLES T, cuts, pos, kind, clock, st, outs
vars == <<T, cuts, pos, kind, clock, st, outs>>
Val(a, b, c) == (((a * 7 + b * 5 + c * 3) % 11) - 5) * (S \div 8)
X(t) == <<[i \in 1..2 |-> <<Val(t, i, 1), 0>>]>>           \* one sequence, 2 features
Arr(k, n) == [i \in 1..n |-> <<Val(k, i, i + k), 0>>]
RecP == [W |-> Arr(1, 2 * N), R |-> Arr(2, N * N), bias |-> Arr(3, N),
         timing |-> [i \in 1..N |-> <<i * S, 0>>]]
LstmP == [Wz |-> Arr(1, 2 * N), Wi |-> Arr(2, 2 * N), Wf |-> Arr(3, 2 * N), Wo |-> Arr(4, 2 * N),
          Rz |-> Arr(5, N * N), Ri |-> Arr(6, N * N), Rf |-> Arr(7, N * N), Ro |-> Arr(8, N * N),
          bz |-> Arr(9, N), bi |-> Arr(10, N), bf |-> Arr(11, N), bo |-> Arr(12, N),
          pi |-> Arr(13, N), pf |-> Arr(14, N), po |-> Arr(15, N),
          timing |-> [i \in 1..N |-> <<i * S, 0>>]]
Zero == IF kind = "rec" THEN <<[i \in 1..N |-> DZ]>>
        ELSE <<[y |-> [i \in 1..N |-> DZ], c |-> [i \in 1..N |-> DZ]]>>
Scan(x, s, t0) ==
  LET L == [act |-> "tanh", clock |-> clock, t0 |-> t0]
  IN IF kind = "rec" THEN RecScan(L, RecP, x, 1, s) ELSE LstmScan(L, LstmP, x, 1, s)
Init == /\ T \in 1..MaxT /\ kind \in {"rec", "lstm"} /\ clock \in BOOLEAN
        /\ cuts = <<>> /\ pos = 0 /\ outs = <<>> /\ st = Zero
Next == /\ pos < T
        /\ \E n \in 1..(T - pos) :
             LET r == TLCEval(Scan([t \in 1..n |-> X(pos + t)], st, pos))
             IN /\ pos' = pos + n /\ cuts' = Append(cuts, n)
                /\ st' = Last1(r) /\ outs' = outs \o r
        /\ UNCHANGED <<T, kind, clock>>
Whole == TLCEval(Scan([t \in 1..T |-> X(t)], Zero, 0))
Seamless == pos = T => outs = Whole
NotTrivial == (pos = T /\ Len(cuts) > 1) =>
                 Scan([t \in 1..1 |-> X(cuts[1] + 1)], Zero, 0)[1] # Whole[cuts[1] + 1]
EmitState == pos < T \/ kind # "rec" \/ clock \/ PrintT("@@" \o ToJson(cuts))
=============================================================================
