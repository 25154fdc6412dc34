-------------------------------- MODULE Fix --------------------------------
(* Fixed point arithmetic with 20 fractional bits inside TLC's 32 bit         *)
(* integers, and dual numbers <<value, derivative>> on top of it.             *)
EXTENDS Integers, Sequences, TLC
S == 1048576
FAbs(a) == IF a < 0 THEN -a ELSE a
FMul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF b = S THEN a ELSE IF a = S THEN b
  ELSE (a \div 1024) * (b \div 1024)
       + ((a \div 1024) * (b % 1024) + (a % 1024) * (b \div 1024)
          + (((a % 1024) * (b % 1024)) \div 1024)) \div 1024
(* long division, 4 bits at a time: |b| < 2^27                                *)
RECURSIVE FDivDigits(_, _, _, _)
FDivDigits(q, r, b, k) ==
  IF k = 0 THEN q
  ELSE FDivDigits(q * 16 + ((r * 16) \div b), (r * 16) % b, b, k - 1)
FDiv(a, b) ==
  IF a = 0 THEN 0
  ELSE IF b = S THEN a
  ELSE LET x == FAbs(a) y == FAbs(b)
           q == FDivDigits(x \div y, x % y, y, 5)
       IN IF (a < 0) = (b < 0) THEN q ELSE -q
LN2 == 726817
RECURSIVE FTaylor(_, _)
FTaylor(r, k) == IF k > 9 THEN S ELSE S + (FMul(r, FTaylor(r, k + 1)) \div k)
RECURSIVE FShift(_, _)
FShift(v, k) == IF k = 0 THEN v ELSE IF k > 0 THEN FShift(v * 2, k - 1) ELSE FShift(v \div 2, k + 1)
(* exp for x < 6                                                              *)
FExp(x) == IF x < -14 * S THEN 0
           ELSE IF x = 0 THEN S
           ELSE LET k == x \div LN2 IN FShift(FTaylor(x - k * LN2, 1), k)
(* natural logarithm for 0 < x < 500 (and a very small number at x <= 0)       *)
RECURSIVE FLnNorm(_, _)
FLnNorm(x, k) == IF x >= 2 * S THEN FLnNorm(x \div 2, k + 1)
                 ELSE IF x < S THEN FLnNorm(x * 2, k - 1)
                 ELSE <<x, k>>
FLn(x) ==
  IF x <= 0 THEN -20 * S ELSE
  LET n == FLnNorm(x, 0)
      z == FDiv(n[1] - S, n[1] + S)
      z2 == FMul(z, z)
      p == FMul(z2, FMul(z2, FMul(z2, FMul(z2, FMul(z2, S \div 11) + S \div 9) + S \div 7) + S \div 5) + S \div 3) + S
  IN 2 * FMul(z, p) + n[2] * LN2
RECURSIVE FSqrtIter(_, _, _)
FSqrtIter(a, y, k) == IF k = 0 THEN y ELSE FSqrtIter(a, (y + FDiv(a, y)) \div 2, k - 1)
FSqrt(a) == IF a = 0 THEN 0 ELSE FSqrtIter(a, (a + S) \div 2, 12)
FSigmoid(x) == IF x >= 0 THEN FDiv(S, S + FExp(-x))
               ELSE LET e == FExp(x) IN FDiv(e, S + e)
FTanh(x) == 2 * FSigmoid(2 * x) - S

(* ---------------------------------------------------------------- duals *)
D0(v) == <<v, 0>>
DZ == <<0, 0>>
DOne == <<S, 0>>
DVal(a) == a[1]
DCut(a) == <<a[1], 0>>
DAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
DSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
DNeg(a) == <<-a[1], -a[2]>>
DMul(a, b) == <<FMul(a[1], b[1]), FMul(a[1], b[2]) + FMul(a[2], b[1])>>
DScale(c, a) == <<FMul(c, a[1]), FMul(c, a[2])>>
DDivInt(a, n) == <<a[1] \div n, a[2] \div n>>
DDiv(a, b) == LET q == FDiv(a[1], b[1])
              IN <<q, IF a[2] = 0 /\ b[2] = 0 THEN 0 ELSE FDiv(a[2] - FMul(q, b[2]), b[1])>>
DExp(a) == LET e == FExp(a[1]) IN <<e, FMul(e, a[2])>>
DLn(a) == <<FLn(a[1]), IF a[2] = 0 THEN 0 ELSE FDiv(a[2], a[1])>>
DSqrt(a) == LET r == FSqrt(a[1]) IN <<r, IF a[2] = 0 THEN 0 ELSE FDiv(a[2] \div 2, r)>>
DSigmoid(a) == LET y == FSigmoid(a[1])
               IN <<y, IF a[2] = 0 THEN 0 ELSE FMul(FMul(y, S - y), a[2])>>
DTanh(a) == LET y == FTanh(a[1])
            IN <<y, IF a[2] = 0 THEN 0 ELSE FMul(S - FMul(y, y), a[2])>>
DAct(f, a) ==
  CASE f = "linear" -> a
    [] f = "rel" -> IF a[1] > 0 THEN a ELSE DZ
    [] f = "sigmoid" -> DSigmoid(a)
    [] f = "tanh" -> DTanh(a)
    [] f = "el" -> IF a[1] >= 0 THEN a
                   ELSE LET e == FExp(a[1]) IN <<e - S, FMul(e, a[2])>>
(* sum of f[1..n]                                                             *)
RECURSIVE DSum(_, _)
DSum(f, n) == IF n = 0 THEN DZ ELSE DAdd(DSum(f, n - 1), f[n])
(* sum over j of w[off + j] * x[j]                                            *)
RECURSIVE DDot(_, _, _, _)
DDot(w, off, x, n) ==
  IF n = 0 THEN DZ ELSE DAdd(DDot(w, off, x, n - 1), DMul(w[off + n], x[n]))
Near(a, b) == LET e == FAbs(a - b) IN e <= 400 + (FAbs(b) \div 2048)
=============================================================================
