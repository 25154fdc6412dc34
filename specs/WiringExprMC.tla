---------------------------- MODULE WiringExprMC ----------------------------
(* Wiring by expressions: labels and shifts in every order.                   *)
EXTENDS Wiring, Json
CONSTANTS Names, MaxLayers, MaxHandles, Emit
VARIABLES ops
MCInit == WInit /\ ops = <<>>
Room == Len(handles) < MaxHandles
MCNext ==
  /\ Room
  /\ \/ /\ Len(layers) < MaxLayers /\ Create("A", "FullyConnected", Len(layers) + 1)
        /\ ops' = Append(ops, <<"c", "A", "FullyConnected", Len(layers) + 1>>)
     \/ \E h \in DOMAIN handles : \E n \in Names :
          \/ LabelOut(h, n) /\ ops' = Append(ops, <<"o", h, n>>)
          \/ LabelIn(h, n) /\ ops' = Append(ops, <<"i", h, n>>)
     \/ \E h, g \in DOMAIN handles :
          /\ handles[h].k # handles[g].k
          /\ Shift(h, g) /\ ops' = Append(ops, <<"s", h, g>>)
(* the wiring follows from the expressions alone: every connection leaves an  *)
(* expression's layer at that expression's output                             *)
ConnsFromExprs ==
  \A c \in DOMAIN conns :
    /\ \E h \in DOMAIN handles : handles[h].k = conns[c].s /\ handles[h].o = conns[c].o
    /\ \E g \in DOMAIN handles : handles[g].k = conns[c].e /\ handles[g].i = conns[c].i
Complete == ~Room /\ conns # <<>>
EmitState == ~(Emit /\ Complete) \/ PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
