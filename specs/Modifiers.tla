------------------------------ MODULE Modifiers ------------------------------
(* Value and gradient modifiers: each rule on one view (values row by row in  *)
(* fixed point), lists of modifiers, and the memory of FreezeValues.          *)
EXTENDS References, Fix
(* first dimension and size of the rows of a view                             *)
RowLen(sh, v) == IF Len(v) = 0 THEN 0 ELSE Len(v) \div sh[1]
RECURSIVE SqSum(_, _, _)
SqSum(v, i, j) == IF i > j THEN 0 ELSE FMul(v[i], v[i]) + SqSum(v, i + 1, j)
Norm(v, sh, r) == FSqrt(SqSum(v, (r - 1) * RowLen(sh, v) + 1, r * RowLen(sh, v)))
Clip(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
(* result of one modifier on view v; p is the parameter of the same view;     *)
(* mem is the remembered value of this copy (<<>>: none yet)                  *)
Do(m, sh, v, p, mem) ==
  CASE m.k = "clip" -> [i \in 1..Len(v) |-> Clip(v[i], m.lo, m.hi)]
    [] m.k = "mask" -> [i \in 1..Len(v) |-> FMul(v[i], m.vals[i])]
    [] m.k = "freeze" -> IF m.vals # <<>> THEN m.vals ELSE IF mem # <<>> THEN mem ELSE v
    [] m.k = "norm" -> IF Len(sh) < 2 THEN v
                       ELSE [i \in 1..Len(v) |->
                              LET n == Norm(v, sh, ((i - 1) \div RowLen(sh, v)) + 1)
                              IN IF n <= m.limit THEN v[i] ELSE FDiv(FMul(v[i], m.limit), n)]
    [] m.k = "l1" -> [i \in 1..Len(v) |-> v[i] + m.f * Sign(p[i])]
    [] m.k = "l2" -> [i \in 1..Len(v) |-> v[i] + FMul(m.f, p[i])]
    [] m.k = "add" -> [i \in 1..Len(v) |-> v[i] + m.c]
    [] m.k = "dbl" -> [i \in 1..Len(v) |-> 2 * v[i]]
Remember(m, v, mem) == IF m.k = "freeze" /\ m.vals = <<>> /\ mem = <<>> THEN v ELSE mem
(* a list of modifiers on one view; self: the view is the parameter itself    *)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(ms, i, sh, v, p, self, mems) ==
  IF i > Len(ms) THEN [v |-> v, mems |-> mems]
  ELSE LET w == Do(ms[i], sh, v, IF self THEN v ELSE p, mems[i])
       IN Run(ms, i + 1, sh, w, p, self, [mems EXCEPT ![i] = Remember(ms[i], v, @)])
NoMem(ms) == [i \in 1..Len(ms) |-> <<>>]
=============================================================================
