-------------------------------- MODULE Hooks --------------------------------
(* When the stopping and saving hooks act, as functions of what was logged.   *)
(* Values are integers; NaN and Inf are marks outside their range.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NaN == 100001
Inf == 100002
Finite(x) == x # NaN /\ x # Inf
Better(crit, a, b) == IF crit = "min" THEN a < b ELSE a > b
(* index of the first best value                                              *)
FirstBest(e, crit) ==
  CHOOSE i \in 1..Len(e) : /\ \A j \in 1..Len(e) : ~Better(crit, e[j], e[i])
                           /\ \A j \in 1..(i - 1) : Better(crit, e[i], e[j])
EarlyStops(e, crit, patience) == Len(e) - FirstBest(e, crit) >= patience
ThresholdStops(e, crit, thr) == \E i \in 1..Len(e) : e[i] = thr \/ Better(crit, e[i], thr)
AllFinite(e) == \A i \in 1..Len(e) : Finite(e[i])
=============================================================================
