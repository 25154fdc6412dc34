---------------------------- MODULE Optimizers ----------------------------
(* The update rules, on any loss given by its gradient operator G(par).       *)
EXTENDS Fix
Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
AddTo(p, v) == Vec(Len(p), LAMBDA i : p[i] + v[i])
(* p + c * v                                                                  *)
Axpy(c, v, p) == Vec(Len(p), LAMBDA i : p[i] + FMul(c, v[i]))
Scaled(c, v) == Vec(Len(v), LAMBDA i : FMul(c, v[i]))
Rate(o, lr, mom) == IF o.kind \in {"momentum", "nesterov"} /\ o.scale THEN FMul(lr, S - mom) ELSE lr
(* result: new parameters, new velocity, the point at which the loss and its  *)
(* gradient were taken                                                        *)
Step(o, lr, mom, p, v, G(_)) ==
  CASE o.kind = "forward" -> [p |-> p, v |-> v, at |-> p]
    [] o.kind = "sgd" -> [p |-> Axpy(-lr, G(p), p), v |-> v, at |-> p]
    [] o.kind = "momentum" ->
         LET w == Axpy(-Rate(o, lr, mom), G(p), Scaled(mom, v))
         IN [p |-> AddTo(p, w), v |-> w, at |-> p]
    [] o.kind = "nesterov" ->
         LET w == Scaled(mom, v)
             q == AddTo(p, w)          \* look-ahead
             g == G(q)
         IN [p |-> Axpy(-Rate(o, lr, mom), g, q),
             v |-> Axpy(-Rate(o, lr, mom), g, w), at |-> q]
=============================================================================
