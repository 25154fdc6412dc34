------------------------------ MODULE OpsTrace ------------------------------
EXTENDS Ops, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, M
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ M = Traces[tid].M
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Outs(o) == UNION {Cells(o.a[i]) : i \in {o.outs[k] : k \in 1..Len(o.outs)}}
NearS(a, b) == (IF a > b THEN a - b ELSE b - a) <= 24 + (FAbs(b) \div 65536)
Close(o, a, b) == IF o.op \in {"log_t", "sqrt_t", "softmax_m", "act", "act_func", "inplace", "divide_tt", "divide_mv", "modulo_tt"} \cup IMG THEN
                     (IF a > b THEN a - b ELSE b - a) <= 200 + (FAbs(b) \div 16384) ELSE NearS(a, b)
Judge(o) ==
  IF o.bad \/ ~Legal(M, o) THEN
     IF o.dbg = "ok" THEN "the checking handler accepts a wrong " \o o.op
     ELSE IF ~o.dbgsame THEN "a rejected operation changed an array" ELSE "ok"
  ELSE IF ~Finite(M, o) THEN
     IF o.dbg = "ok" THEN "the checking handler does not report non-finite results of " \o o.op ELSE "ok"
  ELSE IF o.err # "" THEN "a legal operation fails: " \o o.op
  ELSE IF o.op \in RND THEN
     IF \E j \in 1..Len(M) : j \notin Outs(o) /\ o.M[j] # M[j] THEN "something else than the output is changed by " \o o.op
     ELSE IF \E j \in Outs(o) : ~Possible(o, o.M[j]) THEN "the result is not a documented one: " \o o.op
     ELSE IF o.dbg # "ok" THEN "the checking handler rejects a legal " \o o.op
     ELSE IF ~o.dbgsame THEN "the checking handler gives another result: " \o o.op ELSE "run"
  ELSE LET R == TLCEval(Result(M, o))
       IN IF \E j \in 1..Len(M) : j \notin Outs(o) /\ o.M[j] # M[j] THEN "something else than the output is changed by " \o o.op
          ELSE IF \E j \in Outs(o) : ~Close(o, o.M[j], R[j]) THEN "the result is not the documented one: " \o o.op
          ELSE IF o.dbg # "ok" THEN "the checking handler rejects a legal " \o o.op
          ELSE IF ~o.dbgsame THEN "the checking handler gives another result: " \o o.op
          ELSE "run"
(* distribution of random numbers: counts out of 1000, six standard deviations *)
Within(n, pm) == (n - pm) * (n - pm) <= (36 * pm * (1000 - pm)) \div 1000 + 10
Stat == IF Tr.what = "mask" THEN
          IF ~Tr.binary THEN "a mask is not of zeros and ones"
          ELSE IF (Tr.pm = 0 /\ Tr.n # 0) \/ (Tr.pm = 1000 /\ Tr.n # 1000) \/ ~Within(Tr.n, Tr.pm) THEN "the frequency of ones is not the probability"
          ELSE IF ~Tr.same THEN "the checking handler gives another result" ELSE "ok"
        ELSE IF ~(Within(Tr.below, 500) /\ Within(Tr.one, 683) /\ Within(Tr.two, 954)) THEN "not the documented distribution"
        ELSE IF ~Tr.same THEN "the checking handler gives another result" ELSE "ok"
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF Tr.kind = "stat" THEN UNCHANGED <<l, M>> /\ Fin(Stat)
     ELSE IF l = Len(Tr.ev) THEN UNCHANGED <<l, M>> /\ Fin("ok")
     ELSE LET o == Tr.ev[l + 1] IN l' = l + 1 /\ M' = o.M /\ Fin(Judge(o))
=============================================================================
