--------------------------- MODULE GeometryTrace ---------------------------
(* Judges which geometries the layers accept and the shapes they announce.    *)
EXTENDS Geometry, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
Judge(o) ==
  IF o.ok # Accepted(o.g)
  THEN (IF o.ok THEN "a geometry without output is accepted" ELSE "a valid geometry is rejected")
  ELSE IF o.ok /\ o.shape # OutShape(o.g) \o <<o.ch>> THEN "announced output shape is wrong"
  ELSE "run"
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
TNext == /\ verdict = "run" /\ UNCHANGED tid
         /\ IF l = Len(Tr.obs) THEN UNCHANGED l /\ Fin("ok")
            ELSE l' = l + 1 /\ Fin(Judge(Tr.obs[l + 1]))
=============================================================================
