------------------------------ MODULE Schedules ------------------------------
(* Values of the schedules after c epochs or updates at interval iv; all      *)
(* quantities in fixed point (Fix).  A schedule is a record with field k.     *)
EXTENDS Fix
Steps(c, iv) == c \div iv
RECURSIVE FPow(_, _)
FPow(f, n) == IF n = 0 THEN S ELSE FMul(f, FPow(f, n - 1))
FMin(a, b) == IF a < b THEN a ELSE b
FMax(a, b) == IF a > b THEN a ELSE b
(* a + (b - a) * m / n without leaving 32 bits                                *)
Lerp(a, b, m, n) == a + ((b - a) \div n) * m + (((b - a) % n) * m) \div n
RECURSIVE LastStep(_, _, _)
LastStep(steps, c, i) == IF i = 0 THEN 0 ELSE IF steps[i] <= c THEN i ELSE LastStep(steps, c, i - 1)
Value(s, epoch, update, ts, iv) ==
  LET c == IF ts = "epoch" THEN epoch ELSE update
  IN CASE s.k = "const" -> s.a
       [] s.k = "lin" -> IF Steps(c, iv) >= s.n THEN s.b ELSE Lerp(s.a, s.b, Steps(c, iv), s.n)
       [] s.k = "exp" -> FMin(s.max, FMax(s.min, FMul(s.a, FPow(s.f, Steps(c, iv)))))
       [] s.k = "multi" -> LET i == LastStep(s.steps, c, Len(s.steps))
                           IN IF i = 0 THEN s.a ELSE s.values[i]
       [] s.k = "dae" -> IF epoch + 1 <= s.T THEN s.a
                         ELSE LET p == s.a * s.T IN p \div (epoch + 1)
Refuses(s, iv) == s.k = "multi" /\ iv # 1
Close(x, v) == FAbs(x - v) <= 16 + (FAbs(v) \div 16384)
=============================================================================
