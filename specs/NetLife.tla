------------------------------ MODULE NetLife ------------------------------
(* Life cycle of the shared buffers of a network: one flat memory holding the *)
(* parameters P, their gradients G, the input data X and U (U may be left out *)
(* when data is provided: kept, or zero after a change of size), a recurrent  *)
(* hub H with one extra time slice for the context, the deltas D.  It is only *)
(* ever grown; on a change of size the slices move and old contents become    *)
(* garbage, which no pass may read.  Every cell carries the origin of its     *)
(* value; `bad' records reads of anything else than the intended value.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxT, MaxB, Len0
VARIABLES T, B, cap, mem, pv, dv, uv, fv, ctxs, fresh, bad, h
vars == <<T, B, cap, mem, pv, dv, uv, fv, ctxs, fresh, bad, h>>

Offs(t, b) == LET n == t * b IN
              [P |-> 0, G |-> 1, X |-> 2, U |-> 2 + n, H |-> 2 + 2 * n,
               D |-> 2 + 2 * n + (t + 1) * b, end |-> 2 + 3 * n + (t + 1) * b]
O == Offs(T, B)
Junk == <<"junk">>
Rd(i) == mem[i + 1]
(* write f[j] to cells i .. i + n - 1                                          *)
Wr(m, i, n, f(_)) == [c \in 1..Len(m) |-> IF c - 1 >= i /\ c - 1 < i + n THEN f(c - 1 - i) ELSE m[c]]

Init == /\ T = 0 /\ B = 0 /\ cap = 2 /\ mem = <<Junk, Junk>>
        /\ pv = 0 /\ dv = 0 /\ uv = 0 /\ fv = 0 /\ ctxs = <<>> /\ fresh = FALSE
        /\ bad = FALSE /\ h = <<>>
Log(op) == h' = Append(h, op)

SetPar == /\ pv' = pv + 1 /\ mem' = Wr(mem, O.P, 1, LAMBDA j : <<"par", pv + 1>>)
          /\ fresh' = FALSE /\ Log(<<"par">>)
          /\ UNCHANGED <<T, B, cap, dv, uv, fv, ctxs, bad>>
(* the parameters are copied over; everything else is left as it falls         *)
Resized(t, b, c) ==
  LET n == Offs(t, b).end
      m0 == IF n > c THEN [k \in 1..n |-> Junk] ELSE mem
  IN Wr(m0, 0, 1, LAMBDA j : Rd(O.P))
Provide(t, b, part) ==
  LET same == t = T /\ b = B
      m == IF same THEN mem ELSE Resized(t, b, cap)
      n == Offs(t, b)
      m1 == Wr(m, n.X, t * b, LAMBDA j : <<"dat", dv + 1, j>>)
  IN /\ T' = t /\ B' = b /\ cap' = (IF n.end > cap THEN n.end ELSE cap)
     /\ dv' = dv + 1
     /\ IF ~part THEN mem' = Wr(m1, n.U, t * b, LAMBDA j : <<"dat", dv + 1, j>>) /\ uv' = dv + 1
        ELSE IF same THEN mem' = m1 /\ UNCHANGED uv
        ELSE mem' = Wr(m1, n.U, t * b, LAMBDA j : <<"zero">>) /\ uv' = 0
     /\ fresh' = FALSE /\ Log(<<IF part THEN "part" ELSE "data", t, b>>)
     /\ UNCHANGED <<pv, fv, ctxs, bad>>
Handler == /\ T' = 0 /\ B' = 0 /\ cap' = 2
           /\ mem' = <<Rd(O.P), Junk>>
           /\ ctxs' = <<>> /\ fresh' = FALSE /\ Log(<<"handler">>)
           /\ UNCHANGED <<pv, dv, uv, fv, bad>>
(* context c = 0: none.  Output at time t is written over what was there.      *)
Forward(c, tr) ==
  LET start(j) == IF c = 0 THEN <<"zero">> ELSE ctxs[c].v[j + 1]
      m1 == Wr(mem, O.H + T * B, B, start)
      out(j) == <<"out", fv + 1, j>>
      m2 == Wr(m1, O.H, T * B, out)
  IN /\ T > 0 /\ pv > 0
     /\ c # 0 => ctxs[c].b = B
     /\ mem' = m2 /\ fv' = fv + 1
     /\ bad' = (bad \/ Rd(O.P) # <<"par", pv>>
                \/ (\E j \in 0..(T * B - 1) : Rd(O.X + j) # <<"dat", dv, j>>)
                \/ (\E j \in 0..(T * B - 1) : Rd(O.U + j) # IF uv = 0 THEN <<"zero">> ELSE <<"dat", uv, j>>)
                \/ (\E j \in 0..(B - 1) : m1[O.H + T * B + j + 1][1] \notin {"zero", "out"})
                \/ (c # 0 /\ \E j \in 0..(B - 1) :
                      m1[O.H + T * B + j + 1] # <<"out", ctxs[c].f, (ctxs[c].t - 1) * B + j>>))
     /\ ctxs' = Append(ctxs, [b |-> B, t |-> T, f |-> fv + 1,
                              v |-> [j \in 1..B |-> <<"out", fv + 1, (T - 1) * B + j - 1>>]])
     /\ fresh' = TRUE /\ Log(<<"fwd", tr, c>>)
     /\ UNCHANGED <<T, B, cap, pv, dv, uv>>
(* cleared, then accumulated                                                   *)
Backward ==
  LET m1 == Wr(Wr(mem, O.G, 1, LAMBDA j : <<"zero">>), O.D, T * B, LAMBDA j : <<"zero">>)
      add(old, new) == IF old = <<"zero">> THEN new ELSE <<"mix", old, new>>
      m2 == Wr(m1, O.G, 1, LAMBDA j : add(m1[O.G + 1], <<"grad", fv>>))
      m3 == Wr(m2, O.D, T * B, LAMBDA j : add(m1[O.D + j + 1], <<"delta", fv, j>>))
  IN /\ fresh /\ mem' = m3
     /\ bad' = (bad \/ Rd(O.P) # <<"par", pv>> \/ m3[O.G + 1] # <<"grad", fv>>
                \/ \E j \in 0..(T * B - 1) : Rd(O.H + j) # <<"out", fv, j>>)
     /\ Log(<<"bwd">>)
     /\ UNCHANGED <<T, B, cap, pv, dv, uv, fv, ctxs, fresh>>
Next == /\ Len(h) < Len0
        /\ \/ SetPar \/ Handler \/ Backward
           \/ \E t \in 1..MaxT, b \in 1..MaxB, part \in BOOLEAN : Provide(t, b, part)
           \/ \E c \in 0..Len(ctxs), tr \in BOOLEAN : Forward(c, tr)
NoStaleReads == ~bad
ParametersSurvive == pv > 0 => Rd(O.P) = <<"par", pv>>
MemoryFits == Len(mem) = cap /\ cap >= O.end
=============================================================================
