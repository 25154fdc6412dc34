----------------------------- MODULE DescribeMC -----------------------------
(* All small hierarchies of two classes and objects of them.                   *)
EXTENDS Describe, Json
VARIABLES C, x
A(s) == [a |-> s]
Mem(k, v) == [k |-> k, v |-> v]
UndB == {{}, {Mem("a", A("n:"))}, {Mem("a", A("i:7"))}}
DefB == {{}, {Mem("b", A("i:1"))}}
UndD == {{}, {Mem("a", A("i:2"))}, {Mem("c", [l |-> <<A("i:1")>>])}}
DefD == {{}, {Mem("b", A("i:0"))}, {Mem("c", A("i:1"))}}
Tables == {("B" :> <<[und |-> u, def |-> e]>>) @@ ("D" :> <<[und |-> u, def |-> e], [und |-> v, def |-> f]>>) :
           u \in UndB, e \in DefB, v \in UndD, f \in DefD}
Small == {A("i:0"), A("i:1"), [l |-> <<A("i:1")>>], [d |-> {}]}
Inner == {[o |-> "B", m |-> {Mem("a", A("i:0")), Mem("b", v)}] : v \in {A("i:0"), A("i:1")}}
Vals == Small \cup Inner \cup {[l |-> <<i>>] : i \in Inner} \cup {[d |-> {Mem("x", i)}] : i \in Inner}
Init == /\ C \in Tables
        /\ \E a \in {A("i:0"), A("i:1")}, b \in Small, c \in Vals :
             x = [o |-> "D", m |-> {Mem("a", a), Mem("b", b), Mem("c", c)}]
Next == UNCHANGED <<C, x>>
D == Descr(C, x)
IsPlain == Plain(D)
Lossless == Create(C, D) = Fresh(C, x)
Stable == Descr(C, Create(C, D)) = D
FreshStable == Fresh(C, Fresh(C, x)) = Fresh(C, x)
Kept == \A p \in x.m : p.k \in Keys(Und(C, "D")) \/ p \in Def(C, "D") \/ p.k \in Keys(D.d)
RECURSIVE Rec(_)
SetToSeq1(S) == LET RECURSIVE go(_)
                    go(T) == IF T = {} THEN <<>> ELSE LET e == CHOOSE e \in T : TRUE IN <<e>> \o go(T \ {e})
                IN go(S)
Rec(v) == IF "l" \in DOMAIN v THEN [l |-> [i \in 1..Len(v.l) |-> Rec(v.l[i])]]
          ELSE IF "d" \in DOMAIN v THEN [d |-> SetToSeq1({Mem(p.k, Rec(p.v)) : p \in v.d})]
          ELSE IF "o" \in DOMAIN v THEN [o |-> v.o, m |-> SetToSeq1({Mem(p.k, Rec(p.v)) : p \in v.m})]
          ELSE v
RecC == [c \in DOMAIN C |-> [i \in 1..Len(C[c]) |->
           [und |-> SetToSeq1({Mem(p.k, Rec(p.v)) : p \in C[c][i].und}),
            def |-> SetToSeq1({Mem(p.k, Rec(p.v)) : p \in C[c][i].def})]]]
Emit == PrintT("@@" \o ToJson([C |-> RecC, x |-> Rec(x)]))
=============================================================================
