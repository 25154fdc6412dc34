-------------------------- MODULE ArchitectureTrace --------------------------
EXTENDS Architecture, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
T == Traces[tid]
\* positions at which a layer ran
At(log, n) == {i \in DOMAIN log : log[i] = n}
FwdOK(log, arch) ==
  /\ SeqSet(log) = Names(arch) \ {"Input"} /\ Len(log) = Len(arch) - 1
  /\ \A i, j \in DOMAIN log : <<log[i], log[j]>> \in Edges(arch) => i < j
BwdOK(log, arch) ==
  /\ SeqSet(log) = Names(arch) \ {"Input"} /\ Len(log) = Len(arch) - 1
  /\ \A i, j \in DOMAIN log : <<log[i], log[j]>> \in Edges(arch) => i > j
Clause(ob) ==
  LET p == Problem(T.arch)
  IN IF p # "none"
     THEN IF ob.err = "" THEN "accepted although: " \o p ELSE "ok"
     ELSE IF ob.err # "" THEN "valid architecture rejected"
     ELSE IF ~Topological(ob.order, T.arch) THEN "layer order is not topological"
     ELSE IF ob.order # Canonical(T.arch) THEN "layer order is not canonical"
     ELSE IF ~FwdOK(ob.fwd, T.arch) THEN "forward pass order"
     ELSE IF ~BwdOK(ob.bwd, T.arch) THEN "backward pass order"
     ELSE "ok"
TNext ==
  /\ verdict = "run"
  /\ IF l < Len(T.obs)
     THEN /\ l' = l + 1
          /\ verdict' = IF Clause(T.obs[l + 1]) = "ok" THEN "run" ELSE Clause(T.obs[l + 1])
     ELSE l' = l /\ verdict' = "ok"
  /\ UNCHANGED tid
  /\ (verdict' = "run" \/ PrintT("@V" \o ToJson([t |-> tid, v |-> verdict', l |-> l'])))
=============================================================================
