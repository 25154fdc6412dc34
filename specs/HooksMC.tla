------------------------------ MODULE HooksMC ------------------------------
(* Design check over all histories of logged values: the stopping conditions  *)
(* agree with their documentation in words; the saver keeps the first best.   *)
EXTENDS Hooks, Json
CONSTANTS MaxLen, Vals
VARIABLES e, best, saved
vars == <<e, best, saved>>
Init == e = <<>> /\ best = [c \in {"min", "max"} |-> 0] /\ saved = [c \in {"min", "max"} |-> 0]
(* one more value is logged and looked at; parameters have version Len(e)     *)
Next == /\ Len(e) < MaxLen
        /\ \E v \in Vals :
             LET imp(c) == Len(e) = 0 \/ Better(c, v, best[c])
             IN /\ e' = Append(e, v)
                /\ best' = [c \in {"min", "max"} |-> IF imp(c) THEN v ELSE best[c]]
                /\ saved' = [c \in {"min", "max"} |-> IF imp(c) THEN Len(e) + 1 ELSE saved[c]]
SavesFirstBest == Len(e) > 0 => \A c \in {"min", "max"} : saved[c] = FirstBest(e, c) /\ best[c] = e[saved[c]]
(* "did not improve for p checks": none of the last p values beats the best   *)
(* of those before                                                            *)
EarlyInWords == Len(e) > 0 => \A c \in {"min", "max"}, p \in 1..3 :
   EarlyStops(e, c, p) <=> /\ Len(e) > p
                           /\ \A j \in (Len(e) - p + 1)..Len(e) : \E i \in 1..(Len(e) - p) : ~Better(c, e[j], e[i])
ThresholdStays == [][\A c \in {"min", "max"}, t \in Vals :
                       ThresholdStops(e, c, t) => ThresholdStops(e', c, t)]_vars
EmitState == Len(e) # MaxLen \/ PrintT("@@" \o ToJson(e))
Spec == Init /\ [][Next]_vars
=============================================================================
