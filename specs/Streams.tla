------------------------------- MODULE Streams -------------------------------
(* Everything that uses randomness is a machine with a stream of random        *)
(* numbers: the seed it was given (or drew from the global stream), the origin *)
(* of its stream, and the requests made since then.  What a request returns    *)
(* depends on nothing else.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [kind |-> "", cfg |-> "", seed |-> "", org |-> "", hist |-> <<>>]
Machine(kind, cfg, v) == [kind |-> kind, cfg |-> cfg, seed |-> v, org |-> v, hist |-> <<>>]
Requested(m, r) == [m EXCEPT !.hist = Append(@, r)]
Reset(m) == [m EXCEPT !.org = m.seed, !.hist = <<>>]
Seeded(m, s) == [m EXCEPT !.seed = s, !.org = s, !.hist = <<>>]
Point(m) == [org |-> m.org, hist |-> m.hist]
At(m, p) == [m EXCEPT !.org = p.org, !.hist = p.hist]
Key(m, r) == <<m.kind, m.cfg, m.org>> \o m.hist \o <<r>>
(* W: the machines, S: saved points; o: the operation; v: the seed of a new    *)
(* machine; "g" is the global stream                                           *)
NextW(W, S, o, v) ==
  CASE o.o = "new" -> LET N == [W EXCEPT ![o.h] = Machine(o.kind, o.cfg, v)]
                      IN IF o.s = "" THEN [N EXCEPT !["g"] = Requested(@, "new" \o o.kind \o o.cfg)] ELSE N
    [] o.o = "spawn" -> IF o.s = "" THEN [W EXCEPT ![o.h] = Requested(@, "gs"), ![o.to] = Machine("rs", "", v)]
                        ELSE [W EXCEPT ![o.to] = Machine("rs", "", v)]
    [] o.o = "seed" -> [W EXCEPT ![o.h] = Seeded(@, o.s)]
    [] o.o = "reset" -> [W EXCEPT ![o.h] = Reset(@)]
    [] o.o = "copy" -> [W EXCEPT ![o.to] = W[o.h]]
    [] o.o = "restore" -> [W EXCEPT ![o.h] = At(@, S[o.k])]
    [] o.o = "use" -> [W EXCEPT ![o.h] = Requested(@, o.r)]
    [] o.o = "run" -> [W EXCEPT !["g"] = Requested(Seeded(@, o.s), "run" \o o.cfg)]
    [] OTHER -> W        \* save, noise, train
NextS(W, S, o) == IF o.o = "save" THEN [S EXCEPT ![o.k] = Point(W[o.h])] ELSE S
Touched(o) == CASE o.o \in {"new"} -> {o.h} \cup (IF o.s = "" THEN {"g"} ELSE {})
                [] o.o = "spawn" -> {o.to} \cup (IF o.s = "" THEN {o.h} ELSE {})
                [] o.o = "copy" -> {o.to}
                [] o.o = "run" -> {"g"}
                [] o.o \in {"save", "noise", "train"} -> {}
                [] OTHER -> {o.h}
=============================================================================
