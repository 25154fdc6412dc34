----------------------------- MODULE GeometryMC -----------------------------
(* Enumerates geometries; the size formula counts exactly the window          *)
(* positions inside the padded image.                                         *)
EXTENDS Geometry, Json
CONSTANTS MaxN, MaxK, MaxS, MaxP
VARIABLE g
Init == g \in [h : 1..MaxN, w : 1..MaxN, k : (1..MaxK) \X (1..MaxK),
               s : (0..MaxS) \X (0..MaxS), pad : 0..MaxP]
Next == UNCHANGED g
Counts == Accepted(g) =>
            /\ Cardinality(Positions(g.h, g.k[1], g.s[1], g.pad)) = OutShape(g)[1]
            /\ Cardinality(Positions(g.w, g.k[2], g.s[2], g.pad)) = OutShape(g)[2]
Rejects == (Positive(g) /\ ~Accepted(g)) =>
             \/ Positions(g.h, g.k[1], g.s[1], g.pad) = {}
             \/ Positions(g.w, g.k[2], g.s[2], g.pad) = {}
EmitState == PrintT("@@" \o ToJson(g))
=============================================================================
