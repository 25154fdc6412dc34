----------------------------- MODULE WiringTrace -----------------------------
(* Replays the recorded wiring statements through the actions of Wiring and   *)
(* compares the architectures the code generated from every layer.            *)
EXTENDS Wiring, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
tvars == <<layers, conns, scope, handles, tid, l, verdict>>
Ops == Traces[tid].ops
Obs == Traces[tid].obs      \* obs[k] = [err, arch: Seq([n, t, u, out: Seq([o, tg: Seq(Str)])])]

TInit == WInit /\ tid \in DOMAIN Traces /\ l = 1 /\ verdict = "run"

Step ==
  /\ verdict = "run" /\ l <= Len(Ops)
  /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
  /\ \/ Ops[l][1] = "c" /\ Create(Ops[l][2], Ops[l][3], Ops[l][4])
     \/ Ops[l][1] = "w" /\ Connect(Ops[l][2], Ops[l][3], Ops[l][4], Ops[l][5])
     \/ Ops[l][1] = "o" /\ LabelOut(Ops[l][2], Ops[l][3])
     \/ Ops[l][1] = "i" /\ LabelIn(Ops[l][2], Ops[l][3])
     \/ Ops[l][1] = "s" /\ Shift(Ops[l][2], Ops[l][3])

Count(seq, x) == Cardinality({c \in DOMAIN seq : seq[c] = x})

LayerClause(k, ent) ==
  IF ent.t # layers[k].type THEN "layer type changed"
  ELSE IF {ent.out[c].o : c \in DOMAIN ent.out} # OutPorts(k)
       THEN "set of wired outputs"
  ELSE IF \E c \in DOMAIN ent.out :
            \/ {ent.out[c].tg[x] : x \in DOMAIN ent.out[c].tg} # Targets(k, ent.out[c].o)
            \/ \E x \in DOMAIN ent.out[c].tg :
                 Count(ent.out[c].tg, ent.out[c].tg[x])
                   # ConnCount(k, ent.out[c].o, ent.out[c].tg[x])
       THEN "connections differ from the wiring"
  ELSE "ok"

ArchClause(k, ob) ==
  LET comp == Component(k)
      names == {ob.arch[c].n : c \in DOMAIN ob.arch}
  IN IF ob.err # "" THEN "generation failed"
     ELSE IF {ob.arch[c].u : c \in DOMAIN ob.arch} # {layers[m].uid : m \in comp}
       THEN "not exactly the connected layers"
     ELSE IF Cardinality(names) # Cardinality(comp) THEN "names not unique"
     ELSE IF \E c \in DOMAIN ob.arch : \E m \in comp :
               layers[m].uid = ob.arch[c].u /\ ob.arch[c].n # NameOf(m)
       THEN "layer has the wrong name"
     ELSE LET bad == {c \in DOMAIN ob.arch :
                 LET m == CHOOSE m \in comp : layers[m].uid = ob.arch[c].u
                 IN LayerClause(m, ob.arch[c]) # "ok"}
          IN IF bad = {} THEN "ok"
             ELSE LET c == CHOOSE c \in bad : TRUE
                      m == CHOOSE m \in comp : layers[m].uid = ob.arch[c].u
                  IN LayerClause(m, ob.arch[c])

Finish ==
  /\ verdict = "run" /\ l > Len(Ops)
  /\ LET bad == {k \in DOMAIN Obs : ArchClause(k, Obs[k]) # "ok"}
     IN verdict' = IF Len(Obs) # Len(layers) THEN "missing observation"
                   ELSE IF bad = {} THEN "ok"
                   ELSE ArchClause(CHOOSE k \in bad : TRUE, Obs[CHOOSE k \in bad : TRUE])
  /\ PrintT("@V" \o ToJson([t |-> tid, v |-> verdict', l |-> l]))
  /\ UNCHANGED <<layers, conns, scope, handles, tid, l>>

TNext == Step \/ Finish
=============================================================================
