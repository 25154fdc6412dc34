--------------------------- MODULE EvaluationTrace ---------------------------
(* Judges evaluations, extractions and monitoring of real networks.           *)
EXTENDS Evaluation, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, P
Tr == Traces[tid]
D == Tr.data
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ P = Traces[tid].P
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Close(a, b) == FAbs(a - b) <= 60 + FAbs(b) \div 8192
LossNames == IF Len(Tr.losses) = 1 THEN {"total_loss"} ELSE {"total_loss"} \cup {Tr.losses[i].n : i \in 1..Len(Tr.losses)}
Imp(n) == IF n = "total_loss" THEN Sum([i \in 1..Len(Tr.losses) |-> Tr.losses[i].imp8])
          ELSE LET i == CHOOSE j \in 1..Len(Tr.losses) : Tr.losses[j].n = n IN Tr.losses[i].imp8
Scorer(o, n) == LET i == CHOOSE j \in 1..Len(o.scorers) : o.scorers[j].n = n IN o.scorers[i]
ScNames(o) == {o.scorers[i].n : i \in 1..Len(o.scorers)}
BadOf(o, res) ==
  IF DOMAIN res # LossNames \cup ScNames(o) THEN "the reported names are wrong"
  ELSE IF \E n \in LossNames : ~Close(res[n], LossValue(D, P, Imp(n))) THEN "a loss is not that of the whole data set"
  ELSE IF \E n \in ScNames(o) : ~Close(res[n], ScoreValue(D, P, Uses(Scorer(o, n), o))) THEN "a score is not that of the whole data set"
  ELSE "run"
CloseV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i])
SameArr(a, b) == Len(a) = Len(b) /\ \A s \in 1..Len(b) : Len(a[s]) = Len(b[s]) /\ \A n \in 1..Len(b[s]) : CloseV(a[s][n], b[s][n])
Judge(o) ==
  IF o.err # "" THEN "a proper use is refused"
  ELSE CASE o.o \in {"evaluate", "monitor"} ->
              LET B == {i \in 1..Len(o.res) : BadOf(o, o.res[i]) # "run"}
              IN IF B = {} THEN "run" ELSE BadOf(o, o.res[CHOOSE i \in B : TRUE])
         [] o.o = "extract" ->
              IF DOMAIN o.res # {o.names[i] : i \in 1..Len(o.names)} THEN "not the requested buffers"
              ELSE IF \E n \in DOMAIN o.res : ~SameArr(o.res[n], Extracted(D, P, n, o.bs)) THEN "the extracted data do not line up"
              ELSE "run"
         [] OTHER -> "run"
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN UNCHANGED <<l, P>> /\ Fin("ok")
     ELSE LET o == Tr.ev[l + 1]
              v == Judge(o)
          IN /\ l' = l + 1
             /\ P' = IF o.o = "set" THEN o.P ELSE P
             /\ Fin(IF v # "run" THEN v
                    ELSE IF o.after # P' THEN "the parameters changed"
                    ELSE IF ~o.data THEN "the data changed" ELSE "run")
=============================================================================
