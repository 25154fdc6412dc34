---------------------------- MODULE PassModeTrace ----------------------------
(* In which mode a stepper runs the network: the running mean of a            *)
(* normalization layer (kept negated, learning rate zero) moves with every    *)
(* training pass and with no other pass.                                      *)
EXTENDS Fix, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, mu
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ mu = Traces[tid].mu0
Training == Tr.stepper # "forward" \/ Tr.flag = "yes"
RECURSIVE Sum(_, _)
Sum(x, n) == IF n = 0 THEN 0 ELSE x[n] + Sum(x, n - 1)
Batch(k) == Tr.batches[((k - 1) % Len(Tr.batches)) + 1]
Moved(k, m) ==
  [c \in DOMAIN m |->
     LET col == [r \in DOMAIN Batch(k) |-> Batch(k)[r][c]]
     IN FMul(Tr.decay, m[c]) + FMul(S - Tr.decay, -(Sum(col, Len(col)) \div Len(col)))]
Want(k, m) == IF Training THEN Moved(k, m) ELSE m
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN /\ UNCHANGED <<l, mu>>
                            /\ Fin(IF Tr.done # l THEN "not one update per batch" ELSE "ok")
     ELSE LET w == Want(l + 1, mu)
          IN /\ l' = l + 1 /\ mu' = w
             /\ Fin(IF Len(Tr.ev[l + 1]) = Len(w) /\ \A c \in DOMAIN w : Near(Tr.ev[l + 1][c], w[c]) THEN "run"
                    ELSE IF Training THEN "an update is not one training pass: " \o Tr.stepper
                    ELSE "a pass without training has an effect: " \o Tr.stepper)
=============================================================================
