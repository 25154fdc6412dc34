---------------------------- MODULE SchedulesMC ----------------------------
(* Design check of the schedules over all small parameters and counters.      *)
EXTENDS Schedules, Json
CONSTANTS MaxC, Emit
VARIABLES s, iv, c
vars == <<s, iv, c>>
V == {S \div 2, S, 3 * S}
Lin == [k : {"lin"}, a : V, b : V, n : {1, 2, 3, 5}]
Exp == [k : {"exp"}, a : V, f : {S \div 2, 3 * (S \div 4), S, 5 * (S \div 4)},
        min : {0, S \div 4, S}, max : {2 * S, 400 * S}]
Multi == {[k |-> "multi", a |-> a, steps |-> st, values |-> vs] :
            a \in V, st \in {<<1>>, <<2, 4>>, <<1, 2, 5>>, <<>>}, vs \in {<<S, 2 * S, 5 * S>>}}
MultiOk == {[m EXCEPT !.values = SubSeq(m.values, 1, Len(m.steps))] : m \in Multi}
Dae == [k : {"dae"}, a : V, T : {1, 2, 4}]
Init == s \in Lin \cup Exp \cup MultiOk \cup Dae /\ iv \in 1..3 /\ c = 0
Next == c < MaxC /\ c' = c + 1 /\ UNCHANGED <<s, iv>>
X == Value(s, c, c, "epoch", iv)
Between(v, a, b) == FMin(a, b) <= v /\ v <= FMax(a, b)
Range == CASE s.k = "lin" -> Between(X, s.a, s.b)
           [] s.k = "exp" -> X <= s.max /\ (X >= s.min \/ s.min > s.max)
           [] s.k = "multi" -> X = s.a \/ \E i \in 1..Len(s.values) : X = s.values[i]
           [] s.k = "dae" -> 0 < X /\ X <= s.a
Ends == /\ c = 0 /\ s.k \in {"lin", "multi", "dae"} => X = s.a
        /\ s.k = "lin" /\ c >= s.n * iv => X = s.b
        /\ s.k = "multi" /\ s.steps # <<>> /\ c >= s.steps[Len(s.steps)] => X = s.values[Len(s.values)]
OnlyAtIntervals ==   \* no change between multiples of the interval
  s.k \in {"lin", "exp"} /\ c % iv # 0 => X = Value(s, c - 1, c - 1, "epoch", iv)
EmitState == ~Emit \/ c > 0 \/ PrintT("@@" \o ToJson([s |-> s, iv |-> iv]))
=============================================================================
