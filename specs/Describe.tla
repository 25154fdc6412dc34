------------------------------ MODULE Describe ------------------------------
(* Describing and re-creating objects.  Values: [a |-> text] (plain atoms),   *)
(* [l |-> sequence], [d |-> set of members], [o |-> class, m |-> members],     *)
(* where a member is [k |-> key, v |-> value].  Recorded values list their     *)
(* members in sequences; Canon makes sets of them.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Canon(_)
Members(s) == {[k |-> s[i].k, v |-> Canon(s[i].v)] : i \in 1..Len(s)}
Canon(v) == IF "a" \in DOMAIN v THEN v
            ELSE IF "l" \in DOMAIN v THEN [l |-> [i \in 1..Len(v.l) |-> Canon(v.l[i])]]
            ELSE IF "d" \in DOMAIN v THEN [d |-> Members(v.d)]
            ELSE IF "o" \in DOMAIN v THEN [o |-> v.o, m |-> Members(v.m)]
            ELSE v
Keys(M) == {p.k : p \in M}
Override(A, B) == {p \in A : p.k \notin Keys(B)} \cup B
(* C: class name -> sequence (from the most general ancestor to the class) of  *)
(* [und |-> members not described with their initial values, def |-> members   *)
(* with their default values], in canonical form                               *)
RECURSIVE Merged(_, _, _)
Merged(chain, n, f) == IF n = 0 THEN {} ELSE Override(Merged(chain, n - 1, f), chain[n][f])
Und(C, c) == Merged(C[c], Len(C[c]), "und")
Def(C, c) == Merged(C[c], Len(C[c]), "def")
RECURSIVE Descr(_, _)
Descr(C, v) ==
  IF "a" \in DOMAIN v THEN v
  ELSE IF "l" \in DOMAIN v THEN [l |-> [i \in 1..Len(v.l) |-> Descr(C, v.l[i])]]
  ELSE IF "d" \in DOMAIN v THEN [d |-> {[k |-> p.k, v |-> Descr(C, p.v)] : p \in v.d}]
  ELSE [d |-> {[k |-> "@type", v |-> [a |-> "s:" \o v.o]]}
               \cup {[k |-> p.k, v |-> Descr(C, p.v)] :
                       p \in {q \in v.m : q.k \notin Keys(Und(C, v.o)) /\ q \notin Def(C, v.o)}}]
TypeOf(M) == LET T == {p \in M : p.k = "@type"} IN IF T = {} THEN "" ELSE (CHOOSE p \in T : TRUE).v.a
RECURSIVE Create(_, _)
Create(C, d) ==
  IF "a" \in DOMAIN d THEN d
  ELSE IF "l" \in DOMAIN d THEN [l |-> [i \in 1..Len(d.l) |-> Create(C, d.l[i])]]
  ELSE LET made == {[k |-> p.k, v |-> Create(C, p.v)] : p \in {q \in d.d : q.k # "@type"}}
           c == {x \in DOMAIN C : TypeOf(d.d) = "s:" \o x}
       IN IF c = {} THEN [d |-> made]
          ELSE LET x == CHOOSE x \in c : TRUE
               IN [o |-> x, m |-> Override(Override(Und(C, x), Def(C, x)), made)]
(* what an object is expected to be after describing and re-creating it: the   *)
(* same, with everything undescribed in its initial state                      *)
RECURSIVE Fresh(_, _)
Fresh(C, v) ==
  IF "a" \in DOMAIN v THEN v
  ELSE IF "l" \in DOMAIN v THEN [l |-> [i \in 1..Len(v.l) |-> Fresh(C, v.l[i])]]
  ELSE IF "d" \in DOMAIN v THEN [d |-> {[k |-> p.k, v |-> Fresh(C, p.v)] : p \in v.d}]
  ELSE [o |-> v.o,
        m |-> Override(Override(Und(C, v.o), Def(C, v.o)),
                       {[k |-> p.k, v |-> Fresh(C, p.v)] : p \in {q \in v.m : q.k \notin Keys(Und(C, v.o))}})]
RECURSIVE Plain(_)
Plain(v) == IF "a" \in DOMAIN v THEN TRUE
            ELSE IF "l" \in DOMAIN v THEN \A i \in 1..Len(v.l) : Plain(v.l[i])
            ELSE "d" \in DOMAIN v /\ \A p \in v.d : Plain(p.v)
=============================================================================
