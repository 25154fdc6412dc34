------------------------------ MODULE WiringMC ------------------------------
EXTENDS Wiring, Json
CONSTANTS Bases, Ports, MaxLayers, MaxConns, Emit
MCInit == WInit
MCNext ==
  \/ /\ Len(layers) < MaxLayers
     /\ \E b \in Bases : Create(b, "FullyConnected", Len(layers) + 1)
  \/ /\ Len(conns) < MaxConns
     /\ \E s, e \in DOMAIN layers : s # e
        /\ \E o, i \in Ports : Connect(s, o, e, i)
EmitState ==
  ~Emit \/ Len(conns) < MaxConns \/ Len(layers) < MaxLayers
  \/ PrintT("@@" \o ToJson([b |-> [k \in DOMAIN layers |-> layers[k].base],
                            c |-> [k \in DOMAIN conns |->
                                     <<conns[k].s, conns[k].o, conns[k].e, conns[k].i>>]]))
=============================================================================
