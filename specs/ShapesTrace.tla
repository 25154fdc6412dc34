----------------------------- MODULE ShapesTrace -----------------------------
EXTENDS Shapes, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
T == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
Arch == [i \in DOMAIN T.arch |-> [T.arch[i] EXCEPT !.kw = SeqSet(T.arch[i].kw)]]
\* observed: Seq of <<name, shape>>
Obs(pairs) == {<<pairs[i][1], pairs[i][2]>> : i \in DOMAIN pairs}
Want(f) == {<<x, f[x]>> : x \in DOMAIN f}
LayerClause(ob, L, kn) ==
  LET outs == [x \in DOMAIN kn.outs |-> Written(L, kn.outs[x], ob.t, ob.b)]
      ins  == [x \in DOMAIN kn.ins |-> Array(kn.ins[x], ob.t, ob.b)]
      o == ob.layers[CHOOSE i \in DOMAIN ob.layers : ob.layers[i].n = L.n]
  IN IF Obs(o.outs) # Want(outs) THEN "an output has the wrong shape"
     ELSE IF Obs(o.odelta) # Want(outs) THEN "an output delta has the wrong shape"
     ELSE IF Obs(o.ins) # Want(ins) THEN "an input has the wrong shape"
     ELSE IF Obs(o.idelta) # Want(ins) THEN "an input delta has the wrong shape"
     ELSE IF Obs(o.pars) # Want(kn.pars) THEN "parameters have the wrong shape"
     ELSE IF Obs(o.grads) # Want(kn.pars) THEN "gradients have the wrong shape"
     ELSE "ok"
Clause(ob, r) ==
  IF {ob.layers[i].n : i \in DOMAIN ob.layers} # {Arch[i].n : i \in DOMAIN Arch}
  THEN "not the layers of the architecture"
  ELSE LET bad == {i \in DOMAIN Arch : LayerClause(ob, Arch[i], r.known[Arch[i].n]) # "ok"}
       IN IF bad # {} THEN LayerClause(ob, Arch[Min(bad)], r.known[Arch[Min(bad)].n])
          ELSE IF ob.total # NrParams(Arch, r.known) THEN "the parameter vector has the wrong size"
          ELSE IF ob.err # "" THEN "a pass over data of the announced shapes fails"
          ELSE "ok"
Verdict ==
  LET r == Inferred(Arch)
      good == r.bad = "" /\ Arrangeable(Arch, r.known)
  IN IF T.err # ""
     THEN IF good THEN "layers that fit are rejected" ELSE "ok"
     ELSE IF ~good THEN "layers that do not fit are accepted"
     ELSE LET bad == {i \in DOMAIN T.obs : Clause(T.obs[i], r) # "ok"}
          IN IF bad = {} THEN "ok" ELSE Clause(T.obs[Min(bad)], r)
TNext ==
  /\ verdict = "run" /\ verdict' = Verdict /\ l' = 1 /\ UNCHANGED tid
  /\ PrintT("@V" \o ToJson([t |-> tid, v |-> verdict', l |-> l']))
=============================================================================
