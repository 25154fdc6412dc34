----------------------------- MODULE ToolsTrace -----------------------------
EXTENDS Tools, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, memo
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ memo = <<>>
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))

(* ------------------------------------------------------------- networks --- *)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Scale2(act) == CASE act = "rel" -> 12 [] act = "tanh" -> 6 [] act = "sigmoid" -> 96 [] OTHER -> 1
(* weights of layers with an activation are drawn by the rule of that        *)
(* activation: max is the largest magnitude in 1/1024                        *)
ParOk(p, act) ==
  IF act # "" /\ Len(p.shape) >= 2
  THEN LET n == p.shape[1] + Prod(Tail(p.shape))
           lim == (Scale2(act) * 1048576) \div n
       IN /\ p.max * p.max <= lim + lim \div 64 + 64
          /\ Prod(p.shape) >= 100 => p.max * p.max * 100 >= (lim \div 100) * 6000
  ELSE p.max <= 800 /\ (Prod(p.shape) >= 4 => p.max >= 1)
NetVerdict(o, B) ==
  IF o.ok = B.ok /\ ~o.ok THEN "ok"
  ELSE IF B.ok /\ ~o.ok THEN "a documented request is rejected"
  ELSE IF ~B.ok THEN "a request that means nothing gives a network"
  ELSE LET ls == SetOf(o.layers) IN
    IF SetOf(o.names) # B.names THEN "the network has other layers than written"
    ELSE IF SetOf(o.conns) # B.conns \/ Len(o.conns) # Cardinality(B.conns) THEN "the layers are connected differently"
    ELSE IF {[name |-> x.name, type |-> x.type] : x \in ls} # {[name |-> x.name, type |-> x.type] : x \in B.layers}
      THEN "a layer is of another type than written"
    ELSE IF {<<x.name, x.in, x.out>> : x \in ls} # {<<x.name, x.in, x.out>> : x \in B.layers} THEN "a layer has another size than written"
    ELSE IF {<<x.name, x.item>> : x \in ls} # {<<x.name, x.item>> : x \in B.layers} THEN "a layer has other arguments than written"
    ELSE IF {<<x.name, x.pars>> : x \in ls} # {<<x.name, x.pars>> : x \in B.layers} \/ o.total # B.total \/ o.info # B.total
      THEN "the number of parameters is wrong"
    ELSE IF o.loss # B.loss THEN "the loss is not the one of the task"
    ELSE IF SetOf(o.inputs) # B.inputs THEN "the network needs other data than documented"
    ELSE IF o.losses # <<"total_loss">> /\ o.losses # <<"Loss">> THEN "the network has other losses"
    ELSE IF o.how = "create" /\ o.pred # Tr.q.out THEN "the output of the network is not found under output_name"
    ELSE IF o.how = "create" /\ \E x \in ls : \E i \in 1..Len(x.init) : ~ParOk(x.init[i], x.item.act)
      THEN "the network is not initialized as documented"
    ELSE "ok"

(* ----------------------------------------------------------------- data --- *)
None(A) == A.none
SrcOk(e) == e.after = e.src
(* the columns of all arrays are cut at the same places *)
SplitVerdict(e) ==
  LET N == Width(e.src[1].a)
      k == Len(e.ratios)
      w == [p \in 1..Len(e.res) |-> e.res[p][1].w]
  IN IF ~e.ok THEN "data cannot be split"
     ELSE IF Len(e.res) # k \/ \E p \in 1..k : Len(e.res[p]) # Len(e.src) THEN "wrong number of parts"
     ELSE IF \E i \in 1..k : ~CutOk(Cum(w, i), N, e.ratios, i) THEN "the parts do not have the given ratio"
     ELSE IF \E p \in 1..k : \E a \in 1..Len(e.src) : None(e.src[a]) # None(e.res[p][a]) THEN "an array that is not given appears"
     ELSE IF \E p \in 1..k : \E a \in 1..Len(e.src) : ~None(e.src[a])
             /\ e.res[p][a].a # Take(e.src[a].a, [i \in 1..w[p] |-> Cum(w, p - 1) + i])
       THEN "splitting loses, duplicates or mixes samples"
     ELSE IF ~SrcOk(e) THEN "splitting alters the data" ELSE "run"
ShuffleVerdict(e) ==
  LET N == Width(e.src[1].a)
      pm == e.perm          (* where each sample of the first array came from; hint *)
  IN IF ~e.ok THEN "data cannot be shuffled"
     ELSE IF Len(e.res) # Len(e.src) \/ \E a \in 1..Len(e.src) : None(e.src[a]) # None(e.res[a]) THEN "shuffling returns other arrays"
     ELSE IF ~IsShuffle(pm, N) THEN "shuffling loses or duplicates samples"
     ELSE IF \E a \in 1..Len(e.src) : ~None(e.src[a]) /\ e.res[a].a # Take(e.src[a].a, pm)
       THEN "shuffling loses, duplicates or mixes samples"
     ELSE IF ~SrcOk(e) THEN "shuffling alters the data"
     ELSE IF e.seed >= 0 /\ \E i \in 1..Len(memo) : memo[i].seed = e.seed /\ Len(memo[i].perm) = N /\ memo[i].perm # pm
       THEN "equal seeds shuffle differently"
     ELSE IF N >= 12 /\ \E i \in 1..Len(memo) : memo[i].seed # e.seed /\ memo[i].perm = pm THEN "different seeds shuffle alike"
     ELSE IF N >= 12 /\ pm = [i \in 1..N |-> i] THEN "shuffling does nothing"
     ELSE "run"
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF Tr.kind \in {"spec", "inout"} THEN
        /\ UNCHANGED <<l, memo>>
        /\ Fin(NetVerdict(Tr.o, TLCEval(Build(Tr.q, TLCEval(Items(Tr.toks))))))
     ELSE IF l = Len(Tr.ev) THEN UNCHANGED <<l, memo>> /\ Fin("ok")
     ELSE LET e == Tr.ev[l + 1] IN
        /\ l' = l + 1
        /\ memo' = IF e.op = "shuffle" /\ e.ok THEN Append(memo, [seed |-> e.seed, perm |-> e.perm]) ELSE memo
        /\ Fin(IF e.op = "split" THEN SplitVerdict(e) ELSE ShuffleVerdict(e))
=============================================================================
