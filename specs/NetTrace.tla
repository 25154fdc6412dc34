------------------------------ MODULE NetTrace ------------------------------
(* A network as a state machine: parameters, current data, context; the       *)
(* operations are providing data, setting parameters, changing the handler,   *)
(* forward and backward passes.  A trace lists the operations performed on a  *)
(* real network with everything observed; each forward pass is recomputed     *)
(* layer by layer and each observed derivative by forward differentiation.    *)
EXTENDS Nets, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, k, vi, mode, par, par0, data, vals, st, ctx0, verdict, hist
vars == <<tid, l, k, vi, mode, par, par0, data, vals, st, ctx0, verdict, hist>>
(* constant operators of one trace are read through tid                       *)
Tr == Traces[tid]
NL == Len(Tr.layers)
NoVar == [k |-> "none", n |-> "", p |-> "", i |-> 0]

TInit == /\ tid \in DOMAIN Traces
         /\ l = 0 /\ k = 0 /\ vi = 0 /\ mode = "op" /\ verdict = "run"
         /\ par = <<>> /\ par0 = <<>> /\ data = <<>> /\ vals = <<>>
         /\ st = <<>> /\ ctx0 = <<>> /\ hist = <<>>

(* ------------------------------------------------------------- helpers -- *)
DualArr(v, ok) == TLCEval([i \in 1..Len(v) |-> <<v[i], IF ok = i THEN S ELSE 0>>])
Params(pp, L, var) ==
  IF L.n \notin DOMAIN pp THEN <<>>
  ELSE TLCEval([p \in DOMAIN pp[L.n] |->
         DualArr(pp[L.n][p], IF var.k = "p" /\ var.n = L.n /\ var.p = p THEN var.i ELSE 0)])
(* data as duals; the flat index of an input variable runs over t, b, f       *)
InputVals(var) ==
  TLCEval([p \in DOMAIN data |->
     [t \in 1..Len(data[p]) |-> [b \in 1..Len(data[p][t]) |->
        [f \in 1..Len(data[p][t][b]) |->
           <<data[p][t][b][f],
             IF var.k = "i" /\ var.p = p
                /\ var.i = ((t - 1) * Len(data[p][t]) + b - 1) * Len(data[p][t][b]) + f
             THEN S ELSE 0>>]]]])
RECURSIVE Cat(_, _, _, _)
Cat(srcs, j, t, b) ==
  IF j > Len(srcs) THEN <<>> ELSE vals[srcs[j].l][srcs[j].p][t][b] \o Cat(srcs, j + 1, t, b)
RECURSIVE CatPar(_, _, _, _)
CatPar(pp, srcs, j, var) ==
  IF j > Len(srcs) THEN <<>>
  ELSE DualArr(pp[srcs[j].l][srcs[j].p],
               IF var.k = "p" /\ var.n = srcs[j].l /\ var.p = srcs[j].p THEN var.i ELSE 0)
       \o CatPar(pp, srcs, j + 1, var)
Ins(L, pp, var) ==
  [p \in DOMAIN L.ins |->
     LET ss == L.ins[p]
     IN IF ss[1].par THEN <<<<CatPar(pp, ss, 1, var)>>>>
        ELSE LET o == vals[ss[1].l][ss[1].p]
             IN TLCEval([t \in 1..Len(o) |-> [b \in 1..Len(o[t]) |-> Cat(ss, 1, t, b)]])]
B == LET p == CHOOSE p \in DOMAIN data : \A q \in DOMAIN data : Len(data[q][1]) <= Len(data[p][1]) IN Len(data[p][1])
ZeroState(L) ==
  CASE L.type = "Recurrent" -> [b \in 1..B |-> [i \in 1..L.size |-> DZ]]
    [] L.type = "Lstm" -> [b \in 1..B |-> [y |-> [i \in 1..L.size |-> DZ], c |-> [i \in 1..L.size |-> DZ]]]
    [] OTHER -> <<>>
CutState(L, s) ==
  CASE L.type = "Recurrent" -> TLCEval([b \in 1..Len(s) |-> Each(DCut, s[b])])
    [] L.type = "Lstm" -> TLCEval([b \in 1..Len(s) |-> [y |-> Each(DCut, s[b].y), c |-> Each(DCut, s[b].c)]])
    [] OTHER -> <<>>
SameArr(o, v) == /\ Len(o) = Len(v)
                 /\ \A t \in 1..Len(v) : /\ Len(o[t]) = Len(v[t])
                      /\ \A b \in 1..Len(v[t]) : /\ Len(o[t][b]) = Len(v[t][b])
                            /\ \A i \in 1..Len(v[t][b]) : Near(o[t][b][i], v[t][b][i][1])
SameFlat(o, v) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : Near(o[i], v[i])
SamePars(obs, pp) ==
  /\ DOMAIN obs = DOMAIN pp
  /\ \A n \in DOMAIN pp : /\ DOMAIN obs[n] = DOMAIN pp[n]
                          /\ \A p \in DOMAIN pp[n] : SameFlat(obs[n][p], pp[n][p])
Op == Tr.ops[l]
T0(o) == IF "t0" \in DOMAIN o THEN o.t0 ELSE 0
Losses == {i \in 1..NL : Tr.layers[i].type = "Loss"}
RECURSIVE SumLoss(_)
SumLoss(I) == IF I = {} THEN DZ
              ELSE LET i == CHOOSE i \in I : TRUE
                   IN DAdd(vals[Tr.layers[i].n].loss[1][1][1], SumLoss(I \ {i}))
LossOk(lo) ==      \* what the network reports as its losses
  LET tot == SumLoss(Losses)[1]
      names == {Tr.layers[i].n : i \in Losses}
  IN /\ DOMAIN lo = (IF Cardinality(Losses) = 1 THEN {} ELSE names) \cup {"total_loss"}
     /\ Near(lo.total_loss, tot)
     /\ \A n \in names : Cardinality(Losses) = 1 \/ Near(lo[n], vals[n].loss[1][1][1][1])
(* random masks of enough units: the right share is dropped (six sigma), and   *)
(* every step, sequence, layer and pass has a mask of its own                 *)
RowsOf(x) == [i \in 1..(Len(x) * Len(x[1])) |-> x[((i - 1) \div Len(x[1])) + 1][((i - 1) % Len(x[1])) + 1]]
Mask(r) == {i \in 1..Len(r) : r[i] = 0}
RECURSIVE Dropped(_, _)
Dropped(x, i) == IF i = 0 THEN 0 ELSE Cardinality(Mask(x[i])) + Dropped(x, i - 1)
OtherMasks(L) ==
  {Op.out[n].default : n \in {m \in DOMAIN Op.out : m # L.n}}
  \cup (IF l > 1 /\ "out" \in DOMAIN Tr.ops[l - 1]
         THEN {Tr.ops[l - 1].out[n].default : n \in DOMAIN Tr.ops[l - 1].out} ELSE {})
DropOk(L, x) ==
  IF L.type # "Dropout" \/ ~Op.train THEN TRUE
  ELSE IF Len(x[1][1]) < 50 \/ L.prob = 0 THEN TRUE
  ELSE LET rs == TLCEval(RowsOf(x))
           n == Len(rs) * Len(rs[1])
           e == Dropped(rs, Len(rs)) * 8 - n * (L.prob \div (S \div 8))
       IN /\ e * e <= 36 * 16 * n
          /\ \A i, j \in 1..Len(rs) : i = j \/ Mask(rs[i]) # Mask(rs[j])
          /\ \A o \in OtherMasks(L) : LET q == RowsOf(o) IN \E i \in 1..Len(rs) : Mask(q[i]) # Mask(rs[i])
ParClause(o, pp, msg) == IF "pobs" \in DOMAIN o /\ ~SamePars(o.pobs, pp) THEN msg ELSE "run"

(* what the network holds after being given d: inputs left out keep their      *)
(* values; after a change of size (or of handler) they are zero                *)
Size(d) == LET p == CHOOSE p \in DOMAIN d : TRUE IN <<Len(d[p]), Len(d[p][1])>>
Held(d) ==
  TLCEval([p \in DOMAIN Tr.inputs |->
    IF p \in DOMAIN d THEN d[p]
    ELSE IF data # <<>> /\ Size(data) = Size(d) THEN data[p]
    ELSE [t \in 1..Size(d)[1] |-> [b \in 1..Size(d)[2] |-> [f \in 1..Tr.inputs[p] |-> 0]]]])

(* --------------------------------------------------------------- steps -- *)
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
NextOp ==
  /\ mode = "op"
  /\ IF l = Len(Tr.ops)
     THEN UNCHANGED <<l, k, vi, mode, par, par0, data, vals, st, ctx0, hist>> /\ Fin("ok")
     ELSE LET o == Tr.ops[l + 1]
          IN /\ l' = l + 1
             /\ CASE o.o = "par" ->
                      /\ par' = o.par /\ Fin(ParClause(o, o.par, "parameters differ from what was set"))
                      /\ UNCHANGED <<k, vi, mode, par0, data, vals, st, ctx0, hist>>
                  [] o.o = "data" ->
                      /\ data' = Held(o.data)
                      /\ Fin(IF "dobs" \in DOMAIN o /\ o.dobs # data' THEN "provided data is not what the network holds"
                             ELSE ParClause(o, par, "providing data changed the parameters"))
                      /\ UNCHANGED <<k, vi, mode, par, par0, vals, st, ctx0, hist>>
                  [] o.o = "handler" ->
                      /\ data' = <<>>
                      /\ Fin(ParClause(o, par, "changing the handler changed the parameters"))
                      /\ UNCHANGED <<k, vi, mode, par, par0, vals, st, ctx0, hist>>
                  [] o.o = "fwd" ->
                      /\ mode' = "fwd" /\ k' = 1 /\ vals' = ("Input" :> InputVals(NoVar))
                      /\ ctx0' = TLCEval([i \in 1..NL |-> IF ~o.ctx THEN ZeroState(Tr.layers[i]) ELSE IF "cx" \in DOMAIN o THEN hist[o.cx][i] ELSE st[i]])
                      /\ st' = ctx0' /\ par0' = par /\ Fin("run")
                      /\ UNCHANGED <<vi, par, data, hist>>
                  [] o.o = "bwd" ->
                      /\ mode' = "bwd" /\ vi' = 1 /\ k' = 1
                      /\ vals' = (IF o.vars = <<>> THEN vals ELSE ("Input" :> InputVals(o.vars[1])))
                      /\ Fin("run")
                      /\ UNCHANGED <<par, par0, data, st, ctx0, hist>>
FwdStep ==
  /\ mode = "fwd"
  /\ IF k > NL
     THEN /\ mode' = "op" /\ hist' = Append(hist, st)
          /\ Fin(IF "loss" \in DOMAIN Op /\ ~LossOk(Op.loss) THEN "reported losses are wrong"
                 ELSE ParClause(Op, par, "parameters after the pass are wrong"))
          /\ UNCHANGED <<l, k, vi, par, par0, data, vals, st, ctx0>>
     ELSE LET L == Tr.layers[k]
              ob == IF L.n \in DOMAIN Op.out THEN Op.out[L.n] ELSE <<>>
              r == TLCEval(Layer(L @@ [t0 |-> T0(Op)], Ins(L, par0, NoVar), Params(par0, L, NoVar), ctx0[k], Op.train, ob))
          IN /\ k' = k + 1
             /\ vals' = vals @@ (L.n :> r.o)
             /\ st' = [st EXCEPT ![k] = CutState(L, r.st)]
             /\ par' = IF r.par = <<>> THEN par
                       ELSE [par EXCEPT ![L.n] = [p \in DOMAIN par[L.n] |->
                               IF p \in DOMAIN r.par THEN r.par[p] ELSE par[L.n][p]]]
             /\ Fin(IF Undecided(L, Ins(L, par0, NoVar)) THEN "skip"
                    ELSE IF L.n \notin DOMAIN Op.out THEN "run"
                    ELSE IF \A p \in DOMAIN ob : SameArr(ob[p], r.o[p])
                         THEN IF DropOk(L, ob.default) THEN "run" ELSE "units are not dropped as documented"
                    ELSE "output of a layer is wrong: " \o L.type)
             /\ UNCHANGED <<l, vi, mode, par0, data, ctx0, hist>>
(* a unit whose input is (nearly) zero gives zero whether it was dropped or     *)
(* not: the outputs cannot tell, so no derivative through it can be decided     *)
Hidden(L, f, I, ob) ==
  IF L.type # "Dropout" \/ ~f.train THEN FALSE
  ELSE L.prob # 0 /\ \E t \in 1..Len(I.default) : \E b \in 1..Len(I.default[t]) :
         \E i \in 1..Len(I.default[t][b]) :
           LET x == I.default[t][b][i] IN x[2] # 0 /\ FAbs(x[1]) <= 400 /\ ob.default[t][b][i] = 0
BwdStep ==
  /\ mode = "bwd"
  /\ IF vi > Len(Op.vars)
     THEN /\ mode' = "op"
          /\ Fin(ParClause(Op, par, "a backward pass changed the parameters"))
          /\ UNCHANGED <<l, k, vi, par, par0, data, vals, st, ctx0, hist>>
     ELSE LET v == Op.vars[vi]
          IN IF k <= NL
             THEN LET L == Tr.layers[k]
                      f == Tr.ops[l - Op.back]     \* the forward pass it belongs to
                      ob == IF L.n \in DOMAIN f.out THEN f.out[L.n] ELSE <<>>
                      r == TLCEval(Layer(L @@ [t0 |-> T0(f)], Ins(L, par0, v), Params(par0, L, v), ctx0[k], f.train, ob))
                  IN /\ k' = k + 1
                     /\ vals' = IF Hidden(L, f, Ins(L, par0, v), ob) THEN vals @@ (L.n :> r.o) @@ ("?" :> r.o)
                                ELSE vals @@ (L.n :> r.o)
                     /\ Fin("run")
                     /\ UNCHANGED <<l, vi, mode, par, par0, data, st, ctx0, hist>>
             ELSE LET d == SumLoss(Losses)[2]
                  IN /\ Fin(IF Near(v.g, d) \/ "?" \in DOMAIN vals THEN "run"
                            ELSE IF v.k = "p" THEN "gradient is wrong: " \o v.t \o "." \o v.p
                            ELSE "input delta is wrong")
                     /\ vi' = vi + 1 /\ k' = 1
                     /\ vals' = (IF vi < Len(Op.vars) THEN ("Input" :> InputVals(Op.vars[vi + 1])) ELSE vals)
                     /\ UNCHANGED <<l, mode, par, par0, data, st, ctx0, hist>>
TNext == verdict = "run" /\ UNCHANGED tid /\ (NextOp \/ FwdStep \/ BwdStep)
=============================================================================
