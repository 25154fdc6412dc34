--------------------------- MODULE SchedulesTrace ---------------------------
(* A schedule object asked in any order; every answer is its value.           *)
EXTENDS Schedules, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
Judge(q) ==
  IF Refuses(Tr.s, q.iv) THEN IF q.ok THEN "an unsupported interval is accepted" ELSE "run"
  ELSE IF ~q.ok THEN "the schedule fails"
  ELSE IF ~Close(q.v, Value(Tr.s, q.e, q.u, q.ts, q.iv)) THEN "wrong value: " \o Tr.s.k
  ELSE "run"
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
TNext == /\ verdict = "run" /\ UNCHANGED tid
         /\ IF l = Len(Tr.qs) THEN UNCHANGED l /\ Fin("ok")
            ELSE l' = l + 1 /\ Fin(Judge(Tr.qs[l + 1]))
=============================================================================
