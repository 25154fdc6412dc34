----------------------------- MODULE WatchTrace -----------------------------
(* A watched run of the real trainer next to the same run without watchers.  *)
EXTENDS Fix, FiniteSets, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, n, facts
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ n = 0 /\ facts = {}
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Lim == 16777216
NoNum == 1000000007
Close(a, b, tol) == a = b \/ FAbs(a - b) <= tol
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(w, i) == IF i = 0 THEN 0 ELSE SumTo(w, i - 1) + w[i]
Sum(w) == SumTo(w, Len(w))
MinOf(w) == CHOOSE x \in SetOf(w) : \A y \in SetOf(w) : x <= y
MaxOf(w) == CHOOSE x \in SetOf(w) : \A y \in SetOf(w) : x >= y
(* ---------------------------------------------------------- statistics --- *)
StatOk(w, st) ==
  IF w = <<>> THEN st.min = NoNum /\ st.avg = NoNum /\ st.max = NoNum
  ELSE IF \E i \in 1..Len(w) : FAbs(w[i]) > Lim THEN TRUE
  ELSE /\ Close(st.min, MinOf(w), 1) /\ Close(st.max, MaxOf(w), 1)
       /\ st.avg # NoNum /\ FAbs(st.avg) <= Lim
       /\ FAbs((st.avg \div 16) * Len(w) - Sum([i \in 1..Len(w) |-> w[i] \div 16])) <= 3 * Len(w)
Row(v, r) == SubSeq(v.w, (r - 1) * v.shape[2] + 1, r * v.shape[2])
Norm(w) == FSqrt(Sum([i \in 1..Len(w) |-> FMul(w[i], w[i])]))
(* of arrays of more dimensions only the order and an upper bound are asked   *)
Ordered(v, l2) == /\ Len(l2) = 3 /\ 0 <= l2[1] /\ l2[1] - 16 <= l2[2] /\ l2[2] - 16 <= l2[3]
                  /\ l2[3] - 2048 <= Norm(v.w)
NormOk(v, l2) ==
  IF Len(v.shape) < 2 \/ v.w = <<>> \/ \E i \in 1..Len(v.w) : FAbs(v.w[i]) > 4 * S THEN TRUE
  ELSE IF Len(v.shape) > 2 THEN Ordered(v, l2)
  ELSE LET ns == TLCEval([r \in 1..v.shape[1] |-> Norm(Row(v, r))]) IN
     /\ Len(l2) = 3 /\ Close(l2[1], MinOf(ns), 2048) /\ Close(l2[3], MaxOf(ns), 2048)
     /\ FAbs((l2[2] \div 16) * Len(ns) - Sum([r \in 1..Len(ns) |-> ns[r] \div 16])) <= 140 * Len(ns)
WatchVerdict(e) ==
  LET vs == e.views  lg == e.log IN
  IF e.err # "" THEN "a monitor fails: " \o e.h
  ELSE IF ~e.same THEN "a monitor alters the network"
  ELSE IF \E i \in 1..Len(vs) : ~\E j \in 1..Len(lg) : lg[j].path = vs[i].path THEN "a monitor leaves something out"
  ELSE IF e.h # "deltas" /\ \E j \in 1..Len(lg) : ~\E i \in 1..Len(vs) : lg[j].path = vs[i].path THEN "a monitor reports something that is not there"
  ELSE IF \E i \in 1..Len(vs) : \E j \in 1..Len(lg) : lg[j].path = vs[i].path /\ ~StatOk(vs[i].w, lg[j].st)
    THEN "a monitor reports wrong statistics"
  ELSE IF e.h = "params" /\ \E i \in 1..Len(vs) : \E j \in 1..Len(lg) : lg[j].path = vs[i].path /\ ~NormOk(vs[i], lg[j].l2)
    THEN "a monitor reports wrong norms"
  ELSE "run"
(* --------------------------------------------------------- evaluations --- *)
Keys(r) == {r[i][1] : i \in 1..Len(r)}
SameRes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ Close(a[i][2], b[i][2], 8)
Fact(e) == [data |-> e.data, par |-> e.par, res |-> e.res, scored |-> e.scored]
EvalVerdict(e) ==
  IF e.err # "" THEN "an evaluation fails"
  ELSE IF ~e.same THEN "an evaluation alters parameters or gradients"
  ELSE IF \E f \in facts : f.data = e.data /\ f.scored = e.scored /\ NearSeq(f.par, e.par, 0) /\ ~SameRes(f.res, e.res)
    THEN "an evaluation depends on something other than the parameters"
  ELSE "run"
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN UNCHANGED <<l, n, facts>>
        /\ Fin(IF n = Len(Tr.bare) THEN "ok" ELSE "watching changes the number of updates")
     ELSE LET e == Tr.ev[l + 1] IN
        /\ l' = l + 1
        /\ n' = IF e.k = "upd" THEN n + 1 ELSE n
        /\ facts' = IF e.k = "eval" THEN facts \cup {Fact(e)} ELSE facts
        /\ Fin(IF e.k = "fail" THEN "watched training fails"
               ELSE IF e.k = "upd" THEN
                  (IF n + 1 > Len(Tr.bare) THEN "watching changes the number of updates"
                   ELSE IF ~NearSeq(e.par, Tr.bare[n + 1], 8) THEN "watching changes the course of training"
                   ELSE "run")
               ELSE IF e.k = "watch" THEN WatchVerdict(e) ELSE EvalVerdict(e))
=============================================================================
