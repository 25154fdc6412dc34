------------------------------ MODULE OpsImgMC ------------------------------
(* The gradient operations for images are the adjoints of the forward          *)
(* operations: for every small image, geometry and (one-hot) output delta,     *)
(* <forward(x), d> = <x, backward(d)>, and the gradient of the kernel is       *)
(* <forward(x), d> = <w, gradient> likewise.                                   *)
EXTENDS Ops, Json
CONSTANT Big
VARIABLES g, x, d
Geo == {<<p, sy, sx, kh, kw>> : p \in 0..1, sy \in 1..2, sx \in {1, 2}, kh \in 1..2, kw \in 1..2}
H == 2
W == 2
Vals == {-S, S \div 2} \cup (IF Big THEN {0} ELSE {})
Oh == (H + 2 * g[1] - g[4]) \div g[2] + 1
Ow == (W + 2 * g[1] - g[5]) \div g[3] + 1
NX == H * W
NY == Oh * Ow
NW == g[4] * g[5]
Seq_(a, n) == [i \in 1..n |-> a + i]
(* memory: x, y, argmax, dx, dy, w, dw, b, db                                  *)
RX == Reg(<<1, H, W, 1>>, Seq_(0, NX))
RY == Reg(<<1, Oh, Ow, 1>>, Seq_(NX, NY))
RA == Reg(<<1, Oh, Ow, 1>>, Seq_(NX + NY, NY))
RDX == Reg(<<1, H, W, 1>>, Seq_(NX + 2 * NY, NX))
RDY == Reg(<<1, Oh, Ow, 1>>, Seq_(2 * NX + 2 * NY, NY))
RW == Reg(<<1, g[4], g[5], 1>>, Seq_(2 * NX + 3 * NY, NW))
RDW == Reg(<<1, g[4], g[5], 1>>, Seq_(2 * NX + 3 * NY + NW, NW))
RB == Reg(<<1>>, <<2 * NX + 3 * NY + 2 * NW + 1>>)
RDB == Reg(<<1>>, <<2 * NX + 3 * NY + 2 * NW + 2>>)
Size == 2 * NX + 3 * NY + 2 * NW + 2
WV == <<S, -(S \div 2), 2 * S, S \div 4>>
Mem == Put(Put(Put([i \in 1..Size |-> 0], RX, x), RDY, [i \in 1..NY |-> IF i = d THEN S ELSE 0]), RW, WV)
O(op, a) == [op |-> op, a |-> a, s |-> <<0>>, n |-> g, f |-> "", k |-> <<"nat", "pair", "pair">>]
Init == g \in Geo /\ x = <<>> /\ d = 0
Next == x = <<>> /\ x' \in [1..NX -> Vals] /\ d' \in 1..NY /\ UNCHANGED g
Inner(M, p, q) == Total([i \in 1..Len(p.c) |-> FMul(M[p.c[i]], M[q.c[i]])], Len(p.c))
Conv == x = <<>> \/ LET M1 == Result(Mem, O("conv2d_forward_batch", <<RX, RW, RB, RY>>))
                        M2 == Result(M1, O("conv2d_backward_batch", <<RX, RW, RDX, RDY, RDW, RDB>>))
                    IN /\ Inner(M1, RY, RDY) = Inner(M2, RX, RDX)
                       /\ Inner(M1, RY, RDY) = Inner(M2, RW, RDW)
                       /\ M2[RDB.c[1]] = S
MaxP == x = <<>> \/ LET M1 == Result(Mem, O("maxpool2d_forward_batch", <<RX, RY, RA>>))
                        M2 == Result(M1, O("maxpool2d_backward_batch", <<RX, RY, RA, RDX, RDY>>))
                    IN Inner(M1, RY, RDY) = Inner(M2, RX, RDX)
AvgP == x = <<>> \/ LET M1 == Result(Mem, O("avgpool2d_forward_batch", <<RX, RY>>))
                        M2 == Result(M1, O("avgpool2d_backward_batch", <<RX, RY, RDX, RDY>>))
                        e == Inner(M1, RY, RDY) - Inner(M2, RX, RDX)
                    IN FAbs(e) <= 8
(* the window never leaves the image, and a window of one pixel is the pixel   *)
One == x = <<>> \/ (g = <<0, 1, 1, 1, 1>> => \A op \in {"maxpool2d_forward_batch", "avgpool2d_forward_batch"} :
          Val(Result(Mem, O(op, <<RX, RY, RA>>)), RY) = x)
=============================================================================
