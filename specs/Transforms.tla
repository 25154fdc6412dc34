------------------------------ MODULE Transforms ------------------------------
(* What the wrapping iterators may do to a batch. Arrays are nested sequences *)
(* over time, sequence and features (rows, columns, channels for images); all *)
(* numbers are in thousandths. Random transformations are relations: some     *)
(* allowed random choice must explain the result.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
One == 1000
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
FlipImg(im) == [h \in 1..Len(im) |-> Rev(im[h])]
PadImg(im, s, val, C) ==
  LET H == Len(im)
      W == IF H = 0 THEN 0 ELSE Len(im[1])
  IN [h \in 1..(H + 2 * s) |-> [w \in 1..(W + 2 * s) |->
       IF h > s /\ h <= s + H /\ w > s /\ w <= s + W THEN im[h - s][w - s] ELSE [c \in 1..C |-> val]]]
CropImg(im, ch, cw, r, c) == [h \in 1..ch |-> [w \in 1..cw |-> im[r + h][c + w]]]
CropChoices(im, ch, cw) == (0..(Len(im) - ch)) \X (0..(Len(im[1]) - cw))
OneHotVec(i, v) == [k \in 1..v |-> IF k = i + 1 THEN One ELSE 0]
MultiHotVec(is, v) == [k \in 1..v |-> IF \E j \in 1..Len(is) : is[j] = (k - 1) * One THEN One ELSE 0]

SameShape3(x, y) == Len(x) = Len(y) /\ \A t \in 1..Len(x) : Len(x[t]) = Len(y[t])
(* applies the relation P(in, out) to every cell of a (flattened) array       *)
Shapes(x, y) == SameShape3(x, y)
Abs(a) == IF a < 0 THEN -a ELSE a

(* p: parameters of the stage for this name; x, y: arrays before and after    *)
FlipRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A n \in 1..Len(x[1]) :
       \/ p.prob < One /\ \A t \in 1..Len(x) : y[t][n] = x[t][n]
       \/ p.prob > 0 /\ \A t \in 1..Len(x) : y[t][n] = FlipImg(x[t][n])
PadRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A t \in 1..Len(x) : \A n \in 1..Len(x[t]) : y[t][n] = PadImg(x[t][n], p.size, p.val, p.C)
CropRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A n \in 1..Len(x[1]) :
       \E rc \in CropChoices(x[1][n], p.h, p.w) :
          \A t \in 1..Len(x) : y[t][n] = CropImg(x[t][n], p.h, p.w, rc[1], rc[2])
OneHotRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A t \in 1..Len(x) : \A n \in 1..Len(x[t]) : y[t][n] = OneHotVec(x[t][n][1] \div One, p.v)
MultiHotRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A t \in 1..Len(x) : \A n \in 1..Len(x[t]) : y[t][n] = MultiHotVec(x[t][n], p.v)
(* cell-wise relations; images are read as one long row of cells              *)
Row(im) == LET W == Len(im[1])
               C == Len(im[1][1])
           IN [i \in 1..(Len(im) * W * C) |-> im[((i - 1) \div (W * C)) + 1][(((i - 1) \div C) % W) + 1][((i - 1) % C) + 1]]
Rows(x) == [t \in 1..Len(x) |-> [n \in 1..Len(x[t]) |-> Row(x[t][n])]]
GaussRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A t \in 1..Len(x) : \A n \in 1..Len(x[t]) :
       /\ Len(x[t][n]) = Len(y[t][n])
       /\ \A f \in 1..Len(x[t][n]) :
            LET z == y[t][n][f] - x[t][n][f] - p.mean
            IN Abs(z) <= 8 * p.std + 1
SnpRel(p, x, y) ==
  /\ SameShape3(x, y)
  /\ \A t \in 1..Len(x) : \A n \in 1..Len(x[t]) :
       /\ Len(x[t][n]) = Len(y[t][n])
       /\ \A f \in 1..Len(x[t][n]) :
            LET v == y[t][n][f]
            IN \/ v = x[t][n][f] /\ p.prob < One
               \/ v = One /\ p.prob > 0 /\ p.ratio > 0
               \/ v = 0 /\ p.prob > 0 /\ p.ratio < One
Rel(k, p, x, y) ==
  CASE k = "flip" -> FlipRel(p, x, y)
    [] k = "pad" -> PadRel(p, x, y)
    [] k = "crop" -> CropRel(p, x, y)
    [] k = "onehot" -> OneHotRel(p, x, y)
    [] k = "multihot" -> MultiHotRel(p, x, y)
    [] k = "gauss" -> IF p.rank = 5 THEN GaussRel(p, Rows(x), Rows(y)) ELSE GaussRel(p, x, y)
    [] k = "snp" -> IF p.rank = 5 THEN SnpRel(p, Rows(x), Rows(y)) ELSE SnpRel(p, x, y)
(* a whole stage: named data transformed, everything else passed through      *)
Stage(st, d, e) ==
  /\ DOMAIN d = DOMAIN e
  /\ \A n \in DOMAIN d : IF n \in DOMAIN st.p THEN Rel(st.k, st.p[n], d[n], e[n]) ELSE e[n] = d[n]

(* ------------------------------------------------------------- statistics  *)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))
Sum3(a) == Sum([t \in 1..Len(a) |-> Sum([n \in 1..Len(a[t]) |-> Sum(a[t][n])])])
Map3(x, y, Op(_, _)) == [t \in 1..Len(x) |-> [n \in 1..Len(x[t]) |-> [f \in 1..Len(x[t][n]) |-> Op(x[t][n][f], y[t][n][f])]]]
RECURSIVE Isqrt(_, _)
Isqrt(v, g) == IF g * g <= v THEN g ELSE Isqrt(v, g - 1)
(* sum of n values of the given variance stays within 7 standard deviations   *)
Within(sum, mean, var) == (sum - mean) * (sum - mean) <= 49 * var + 100
=============================================================================
