----------------------------- MODULE NetLifeMC -----------------------------
(* Histories printed for the replay on real networks: those that start with   *)
(* parameters and end in an observation.                                      *)
EXTENDS NetLife, Json
CONSTANT Emit
MCNext == Next /\ (Len(h) > 0 \/ h' = <<<<"par">>>>)
EmitState == ~Emit \/ Len(h) < Len0 \/ h[Len(h)][1] \notin {"fwd", "bwd"}
             \/ PrintT("@@" \o ToJson(h))
=============================================================================
