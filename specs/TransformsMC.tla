---------------------------- MODULE TransformsMC ----------------------------
(* One image (the pixels are their own names) sent through every pipeline of  *)
(* flips, pads and crops with every random choice.                            *)
EXTENDS Transforms, Json
CONSTANTS MaxLen, H0, W0
VARIABLES im, hist
vars == <<im, hist>>
Src == [h \in 1..H0 |-> [w \in 1..W0 |-> <<10 * h + w>>]]
Init == im = Src /\ hist = <<>>
H == Len(im)
W == Len(im[1])
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E p \in {0, 500, 1000} :
          /\ hist' = Append(hist, [k |-> "flip", prob |-> p])
          /\ \/ p < One /\ im' = im
             \/ p > 0 /\ im' = FlipImg(im)
     \/ \E s \in 0..1 : H < 4 /\ im' = PadImg(im, s, -1, 1) /\ hist' = Append(hist, [k |-> "pad", size |-> s])
     \/ \E h \in 1..H, w \in 1..W : \E rc \in CropChoices(im, h, w) :
          /\ im' = CropImg(im, h, w, rc[1], rc[2])
          /\ hist' = Append(hist, [k |-> "crop", h |-> h, w |-> w])
Pos(v) == {<<h, w>> \in (1..H) \X (1..W) : im[h][w] = v}
SrcCells == {Src[h][w] : h \in 1..H0, w \in 1..W0}
OnlyKnownPixels == \A h \in 1..H, w \in 1..W : im[h][w] \in SrcCells \cup {<<-1>>}
Rectangular == \A h \in 1..H : Len(im[h]) = W
AtMostOnce == \A v \in SrcCells : Cardinality(Pos(v)) <= 1
(* pixels keep their row neighbours (possibly mirrored) and their columns     *)
Neighbours == \A h \in 1..H0, w \in 1..(W0 - 1) :
  LET a == Pos(Src[h][w]) b == Pos(Src[h][w + 1])
  IN \A x \in a, y \in b : x[1] = y[1] /\ Abs(x[2] - y[2]) = 1
Upright == \A h \in 1..(H0 - 1), w \in 1..W0 :
  LET a == Pos(Src[h][w]) b == Pos(Src[h + 1][w])
  IN \A x \in a, y \in b : y[1] = x[1] + 1 /\ x[2] = y[2]
FlipTwice == FlipImg(FlipImg(im)) = im
CropUndoesPad == CropImg(PadImg(im, 1, -1, 1), H, W, 1, 1) = im
Emit == Len(hist) = 0 \/ PrintT("@@" \o ToJson(hist))
=============================================================================
