------------------------------ MODULE Geometry ------------------------------
(* Which output positions a two-dimensional window operation has: g gives     *)
(* image h x w, kernel k, stride s, padding pad.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Out(n, k, s, pad) == ((n + 2 * pad - k) \div s) + 1
Positive(g) == g.s[1] > 0 /\ g.s[2] > 0 /\ g.pad >= 0
Accepted(g) == /\ Positive(g)
               /\ Out(g.h, g.k[1], g.s[1], g.pad) > 0
               /\ Out(g.w, g.k[2], g.s[2], g.pad) > 0
OutShape(g) == <<Out(g.h, g.k[1], g.s[1], g.pad), Out(g.w, g.k[2], g.s[2], g.pad)>>
(* positions whose window lies inside the padded image                        *)
Positions(n, k, s, pad) == {y \in 0..(n + 2 * pad) : y * s + k <= n + 2 * pad}
=============================================================================
