----------------------------- MODULE LayoutTrace -----------------------------
(* A trace: the sources (grouped), the sinks with the sources wired to them,  *)
(* and what was read back after a distinct number had been written into every *)
(* element of every source of a real network.                                 *)
EXTENDS Layout, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, perm
T == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ perm = <<>>

Groups == {T.groups[i] : i \in DOMAIN T.groups}
SinkSets == {SeqSet(T.sinks[i].req) : i \in DOMAIN T.sinks}

(* orders of the wired sources whose concatenation gives row                  *)
RECURSIVE Orders(_, _, _)
Orders(req, row, blk) ==
  IF req = {} THEN (IF row = <<>> THEN {<<>>} ELSE {})
  ELSE UNION {{<<s>> \o o : o \in Orders(req \ {s}, SubSeq(row, Len(blk[s]) + 1, Len(row)), blk)} :
                s \in {x \in req : Len(blk[x]) <= Len(row)
                                   /\ SubSeq(row, 1, Len(blk[x])) = blk[x]}}
(* written[k].rows[s]: block of source s in row k (row = one (t, b) pair)     *)
SinkOrders(ph, i) ==
  LET sk == T.sinks[i]
      req == SeqSet(sk.req)
      rows == ph.got[i]
      R == {Orders(req, rows[k], [s \in req |-> ph.wrote[s][k]]) : k \in DOMAIN rows}
  IN IF Len(rows) # Len(ph.wrote[sk.req[1]]) THEN {}
     ELSE IF R = {} THEN {} ELSE {o \in (CHOOSE x \in R : TRUE) : \A y \in R : o \in y}

PhaseClause(ph) ==
  IF ph.back # ph.wrote THEN "a source does not keep what was written to it"
  ELSE IF \E i \in DOMAIN T.sinks : SinkOrders(ph, i) = {}
       THEN "a sink is not exactly its sources"
  ELSE "ok"
FwdBwd(o) ==
  IF \E i \in DOMAIN T.sinks :
        SinkOrders(o.fwd, i) \cap SinkOrders(o.bwd, i) = {}
  THEN "deltas are laid out differently from activations" ELSE "ok"
VecClause(o) ==
  IF Len(o.pvec) # o.psize \/ Len(o.gvec) # o.psize THEN "parameter vector has the wrong size"
  ELSE IF {o.pvec[i] : i \in DOMAIN o.pvec} # SeqSet(o.pwrote) \/ Len(o.pwrote) # o.psize
    THEN "parameter vector is not the union of all parameters"
  ELSE IF o.gvec # o.pvec THEN "gradient vector is ordered differently"
  ELSE "ok"
ObsClause(o) ==
  IF ~Feasible(Groups, SinkSets)
  THEN IF o.err = "" THEN "accepted although no layout exists"
       ELSE IF o.err # "NetworkValidationError" THEN "infeasible layout: wrong error" ELSE "ok"
  ELSE IF o.err # "" THEN "layout exists but was rejected"
  ELSE IF PhaseClause(o.fwd) # "ok" THEN PhaseClause(o.fwd)
  ELSE IF PhaseClause(o.bwd) # "ok" THEN PhaseClause(o.bwd) \o " (deltas)"
  ELSE IF FwdBwd(o) # "ok" THEN FwdBwd(o)
  ELSE IF VecClause(o) # "ok" THEN VecClause(o)
  ELSE IF l > 0 /\ o.pvec # perm.p THEN "layout depends on more than the architecture"
  ELSE IF l > 0 /\ o.fwd.got # perm.g THEN "layout depends on more than the architecture"
  ELSE "ok"
TNext ==
  /\ verdict = "run"
  /\ IF l < Len(T.obs)
     THEN LET o == T.obs[l + 1]
          IN /\ l' = l + 1
             /\ verdict' = IF ObsClause(o) = "ok" THEN "run" ELSE ObsClause(o)
             /\ perm' = IF l = 0 /\ o.err = "" THEN [p |-> o.pvec, g |-> o.fwd.got] ELSE perm
     ELSE l' = l /\ verdict' = "ok" /\ UNCHANGED perm
  /\ UNCHANGED tid
  /\ (verdict' = "run" \/ PrintT("@V" \o ToJson([t |-> tid, v |-> verdict', l |-> l'])))
=============================================================================
