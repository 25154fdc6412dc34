--------------------------- MODULE OptimizersTrace ---------------------------
(* A training run of a linear layer with squared error, whose gradient is     *)
(* written out here.  State: parameters, velocity, counters, and the rates    *)
(* last set by the schedules.  Parameters: W row by row, then the bias.       *)
EXTENDS Optimizers, Schedules, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, par, vel, ep, up, bt, lr, mom
vars == <<tid, l, verdict, par, vel, ep, up, bt, lr, mom>>
Tr == Traces[tid]
O == Tr.opt
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
         /\ par = Tr.par /\ vel = <<>> /\ ep = 0 /\ up = 0 /\ bt = 0
         /\ lr = Tr.opt.lr0 /\ mom = Tr.opt.mom0
(* ------------------------------------------------------- the loss -------- *)
RECURSIVE Dot(_, _, _, _)
Dot(w, off, x, n) == IF n = 0 THEN 0 ELSE FMul(w[off + n], x[n]) + Dot(w, off, x, n - 1)
Err(d, p) ==   \* [row][i]: prediction minus target
  TLCEval([r \in 1..Len(d.x) |-> [i \in 1..Tr.no |->
     p[Tr.no * Tr.ni + i] + Dot(p, (i - 1) * Tr.ni, d.x[r], Tr.ni) - d.t[r][i]]])
RECURSIVE SumRows(_, _, _)
SumRows(F(_), n, k) == IF k > n THEN 0 ELSE F(k) + SumRows(F, n, k + 1)
Grad(d, p) ==
  LET e == Err(d, p)
  IN TLCEval([q \in 1..Len(p) |->
       LET i == IF q <= Tr.no * Tr.ni THEN ((q - 1) \div Tr.ni) + 1 ELSE q - Tr.no * Tr.ni
           j == ((q - 1) % Tr.ni) + 1
           f(r) == IF q <= Tr.no * Tr.ni THEN FMul(e[r][i], d.x[r][j]) ELSE e[r][i]
       IN SumRows(f, Len(d.x), 1) \div d.b])
LossAt(d, p) ==
  LET e == Err(d, p)
      row(r) == SumRows(LAMBDA i : FMul(e[r][i], e[r][i]), Tr.no, 1)
  IN (SumRows(row, Len(d.x), 1) \div 2) \div d.b
(* ------------------------------------------------------- the rates ------- *)
Fires(s, ts, c) == s.k # "none" /\ s.ts = ts /\ c % s.iv = 0
New(s, old, ts, e, u) == IF Fires(s, ts, IF ts = "epoch" THEN e ELSE u)
                         THEN Value(s, e, u, s.ts, s.iv) ELSE old
After(s, old, e, u, isEpochEnd) ==
  LET a == New(s, old, "update", e, u) IN IF isEpochEnd THEN New(s, a, "epoch", e, u) ELSE a
SameVec(o, v) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : Near(o[i], v[i])
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Start(e) == /\ vel' = [i \in 1..Len(par) |-> 0]
            /\ lr' = After(Tr.lrs, lr, ep, up, TRUE) /\ mom' = After(Tr.moms, mom, ep, up, TRUE)
            /\ Fin(IF SameVec(e.par, par) THEN "run" ELSE "starting a run changed the parameters")
            /\ UNCHANGED <<par, ep, up, bt>>
Update(e) ==
  LET k == (bt % Len(Tr.batches)) + 1
      d == Tr.batches[k]
      r == Step(O, lr, mom, par, vel, LAMBDA p : Grad(d, p))
      end == k = Len(Tr.batches)
      ep1 == IF k = 1 THEN ep + 1 ELSE ep
  IN /\ par' = r.p /\ vel' = r.v /\ bt' = k /\ up' = up + 1 /\ ep' = ep1
     /\ lr' = After(Tr.lrs, lr, ep1, up + 1, end) /\ mom' = After(Tr.moms, mom, ep1, up + 1, end)
     /\ Fin(IF ~SameVec(e.par, r.p) THEN "wrong parameters after an update: " \o O.kind
            ELSE IF ~Near(e.loss, LossAt(d, r.at)) THEN "wrong loss during an update: " \o O.kind
            ELSE IF e.u # up + 1 \/ e.ep # ep1 THEN "wrong counters"
            ELSE "run")
(* the rates are looked at after all hooks of the update or epoch              *)
Rates(e) == /\ Fin(IF O.kind \notin {"forward"} /\ ~Close(e.lr, lr) THEN "wrong learning rate"
                   ELSE IF O.kind \in {"momentum", "nesterov"} /\ ~Close(e.mom, mom) THEN "wrong momentum"
                   ELSE "run")
            /\ UNCHANGED <<par, vel, ep, up, bt, lr, mom>>
TNext == /\ verdict = "run" /\ UNCHANGED tid
         /\ IF l = Len(Tr.ev) THEN UNCHANGED <<l, par, vel, ep, up, bt, lr, mom>> /\ Fin("ok")
            ELSE LET e == Tr.ev[l + 1]
                 IN /\ l' = l + 1
                    /\ CASE e.e = "start" -> Start(e)
                         [] e.e = "upd" -> Update(e)
                         [] e.e = "rates" -> Rates(e)
=============================================================================
