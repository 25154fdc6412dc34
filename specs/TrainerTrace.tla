----------------------------- MODULE TrainerTrace -----------------------------
(* The recorded events of a real trainer must be exactly those of the machine;*)
(* at the end of every run its logs and results must be those of the machine. *)
EXTENDS Trainer, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ MInit(Traces[tid].cfg)
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Keys(lg) == {lg[k][1] : k \in 1..Len(lg)}
Vals(lg, key) == LET s == SelectSeq(lg, LAMBDA x : x[1] = key) IN [k \in 1..Len(s) |-> s[k][2]]
SameLog(o, lg) == /\ DOMAIN o = Keys(lg)
                  /\ \A key \in Keys(lg) :
                       LET v == Vals(lg, key)
                       IN Len(o[key]) = Len(v) /\ \A k \in 1..Len(v) : o[key][k] - v[k] \in {-1, 0, 1}
Exact == {"e", "h", "ep", "up", "b", "w"}
Match(o, x) == \A k \in DOMAIN x : k \in DOMAIN o /\ o[k] = x[k]
Judge(o, x) ==
  IF o.e # x.e THEN "expected " \o x.e \o " but saw " \o o.e
  ELSE IF ~Match(o, x) THEN "wrong details of " \o x.e
  ELSE IF x.e = "return" /\ ~SameLog(o.logs, logs') THEN "the logs are wrong"
  ELSE IF x.e = "return" /\ ~SameLog(o.results, results') THEN "the results are wrong"
  ELSE "run"
TNext == /\ verdict = "run" /\ UNCHANGED tid
         /\ IF pc = "idle" /\ run = Len(cfg.runs)
            THEN /\ UNCHANGED <<mvars, l>>
                 /\ Fin(IF l = Len(Tr.ev) THEN "ok" ELSE "more happens than prescribed")
            ELSE /\ MNext
                 /\ IF ev' = NoEv THEN l' = l /\ Fin("run")
                    ELSE IF l = Len(Tr.ev) THEN l' = l /\ Fin("less happens than prescribed")
                    ELSE l' = l + 1 /\ Fin(Judge(Tr.ev[l + 1], ev'))
=============================================================================
