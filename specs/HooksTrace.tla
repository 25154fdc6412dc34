----------------------------- MODULE HooksTrace -----------------------------
(* One hook through a history of logged values, parameter changes, signals    *)
(* and calls.  Every call is observed: whether it asked to stop, and what the *)
(* saving hooks hold.                                                         *)
EXTENDS Hooks, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, e, roll, pv, quit, best, saved, snap
vars == <<tid, l, verdict, e, roll, pv, quit, best, saved, snap>>
Tr == Traces[tid]
K == Tr.hook
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
         /\ e = <<>> /\ roll = <<>> /\ pv = 0 /\ quit = FALSE /\ best = 0 /\ saved = -1 /\ snap = <<<<>>, <<>>>>
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
MustStop(o) ==
  CASE K.k = "early" -> e # <<>> /\ EarlyStops(e, K.crit, K.patience)
    [] K.k = "thr" -> e # <<>> /\ ThresholdStops(e, K.crit, K.thr)
    [] K.k = "epoch" -> o.ep >= K.max
    [] K.k = "nan" -> \/ K.logs /\ ~AllFinite(e)
                      \/ K.params /\ ~Finite(pv)
                      \/ K.loss /\ ~AllFinite(roll)
    [] K.k = "sig" -> quit
    [] OTHER -> FALSE
Imp == e # <<>> /\ (saved = -1 \/ Better(K.crit, e[Len(e)], best))
Call(o) ==
  LET sv == CASE K.k = "best" -> IF Imp THEN pv ELSE saved
              [] K.k = "net" -> pv
              [] OTHER -> saved
  IN /\ saved' = sv
     /\ best' = (IF K.k = "best" /\ Imp THEN e[Len(e)] ELSE best)
     /\ snap' = (IF K.k = "logs" THEN <<e, roll>> ELSE snap)
     /\ Fin(IF o.r = "error" THEN "the hook fails: " \o K.k
            ELSE IF (o.r = "stop") # MustStop(o)
            THEN (IF o.r = "stop" THEN "stops too early: " ELSE "does not stop: ") \o K.k
            ELSE IF K.k \in {"best", "net"} /\ o.saved # sv THEN "holds the wrong network: " \o K.k
            ELSE IF K.k = "logs" /\ (o.e # e \/ o.roll # roll) THEN "holds the wrong logs"
            ELSE "run")
     /\ UNCHANGED <<e, roll, pv, quit>>
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN UNCHANGED <<l, e, roll, pv, quit, best, saved, snap>> /\ Fin("ok")
     ELSE LET o == Tr.ev[l + 1]
          IN /\ l' = l + 1
             /\ CASE o.o = "log" -> e' = Append(e, o.v) /\ Fin("run") /\ UNCHANGED <<roll, pv, quit, best, saved, snap>>
                  [] o.o = "roll" -> roll' = Append(roll, o.v) /\ Fin("run") /\ UNCHANGED <<e, pv, quit, best, saved, snap>>
                  [] o.o = "par" -> pv' = o.v /\ Fin("run") /\ UNCHANGED <<e, roll, quit, best, saved, snap>>
                  [] o.o = "sig" -> quit' = TRUE /\ Fin("run") /\ UNCHANGED <<e, roll, pv, best, saved, snap>>
                  [] o.o = "start" -> quit' = FALSE /\ Fin("run") /\ UNCHANGED <<e, roll, pv, best, saved, snap>>
                  (* what is held is looked at again without a call           *)
                  [] o.o = "look" -> /\ Fin(IF K.k \in {"best", "net"} /\ saved # -1 /\ o.saved # saved
                                            THEN "what was saved changed: " \o K.k
                                            ELSE IF K.k = "logs" /\ (o.e # snap[1] \/ o.roll # snap[2])
                                            THEN "what was saved changed: logs" ELSE "run")
                                     /\ UNCHANGED <<e, roll, pv, quit, best, saved, snap>>
                  [] o.o = "call" -> Call(o)
=============================================================================
