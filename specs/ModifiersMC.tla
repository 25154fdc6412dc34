---------------------------- MODULE ModifiersMC ----------------------------
(* Two parameters with lists of modifiers, changed from outside and modified  *)
(* again and again.                                                           *)
EXTENDS Modifiers, Json
CONSTANTS MaxOps, MaxList
VARIABLES ms, v, mem, ops, prev
U == S
Cat == { [k |-> "clip", lo |-> -U, hi |-> U], [k |-> "mask", vals |-> <<0, U>>],
         [k |-> "freeze", vals |-> <<>>], [k |-> "add", c |-> U], [k |-> "dbl"] }
Lists == UNION {[1..n -> Cat] : n \in 0..MaxList}
sh == <<2>>
Init == /\ ms \in [1..2 -> Lists] /\ v = << <<2 * U, -U>>, <<U, 0>> >>
        /\ mem = [w \in 1..2 |-> NoMem(ms[w])] /\ ops = <<>> /\ prev = v
Bump(d) == /\ v' = [w \in 1..2 |-> [i \in 1..2 |-> v[w][i] + d]]
           /\ UNCHANGED <<mem, ms>>
Apply == LET R(w) == Run(ms[w], 1, sh, v[w], v[w], TRUE, mem[w])
         IN /\ v' = [w \in 1..2 |-> R(w).v] /\ mem' = [w \in 1..2 |-> R(w).mems] /\ UNCHANGED ms
Next == /\ Len(ops) < MaxOps /\ prev' = v
        /\ \/ Bump(U) /\ ops' = Append(ops, "bump")
           \/ Apply /\ ops' = Append(ops, "apply")
Applied == Len(ops) > 0 /\ ops[Len(ops)] = "apply"
Last(w) == ms[w][Len(ms[w])]
UnmodifiedStay == Applied => \A w \in 1..2 : ms[w] = <<>> => v[w] = prev[w]
ClippedLast == Applied => \A w \in 1..2 : Len(ms[w]) > 0 /\ Last(w).k = "clip" => \A i \in 1..2 : v[w][i] >= -U /\ v[w][i] <= U
MaskedLast == Applied => \A w \in 1..2 : Len(ms[w]) > 0 /\ Last(w).k = "mask" => v[w][1] = 0
FrozenLast == \A w \in 1..2 : (Applied /\ Len(ms[w]) = 1 /\ ms[w][1].k = "freeze") => v[w] = mem[w][1]
FrozenForever == [][\A w \in 1..2 : \A i \in 1..Len(ms[w]) : mem[w][i] # <<>> => mem'[w][i] = mem[w][i]]_<<ms, v, mem, ops, prev>>
Emit == Len(ops) < MaxOps \/ PrintT("@@" \o ToJson([ms |-> ms, ops |-> ops]))
Spec == Init /\ [][Next]_<<ms, v, mem, ops, prev>>
=============================================================================
