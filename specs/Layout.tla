------------------------------- MODULE Layout -------------------------------
(* Packing the buffers of a network into memory.                             *)
(* A *source* is a buffer somebody writes (an output, a parameter, ...); a    *)
(* *sink* is an input that must be one contiguous block made of exactly the   *)
(* sources connected to it.  Sources come in groups whose inner order is      *)
(* fixed (the parameters of one layer); groups may be permuted.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

SeqSet(s) == {s[i] : i \in DOMAIN s}

(* ones of every sink form one consecutive run in the order seq               *)
RunOK(seq, sink) ==
  LET pos == {i \in DOMAIN seq : seq[i] \in sink}
  IN pos = {} \/ Cardinality(pos) = Max(pos) - Min(pos) + 1
Consecutive(seq, sinks) == \A s \in sinks : RunOK(seq, s)

(* a prefix that can still be completed: nothing of a sink comes after a gap  *)
PrefixOK(seq, sinks) ==
  \A s \in sinks :
    LET pos == {i \in DOMAIN seq : seq[i] \in s}
    IN pos = {} \/ (RunOK(seq, s) /\ (Max(pos) = Len(seq) \/ s \subseteq SeqSet(seq)))

RECURSIVE CanExtend(_, _, _)
CanExtend(prefix, rest, sinks) ==
  /\ PrefixOK(prefix, sinks)
  /\ \/ rest = {}
     \/ \E g \in rest : CanExtend(prefix \o g, rest \ {g}, sinks)

(* The groups that have to share one buffer with group g.                     *)
RECURSIVE HubClosure(_, _, _)
HubClosure(H, groups, sinks) ==
  LET members == UNION {SeqSet(g) : g \in H}
      touched == UNION {s \in sinks : s \cap members # {}}
      N == {g \in groups : SeqSet(g) \cap (touched \cup members) # {}}
  IN IF N = H THEN H ELSE HubClosure(N, groups, sinks)
Hubs(groups, sinks) == {HubClosure({g}, groups, sinks) : g \in groups}

(* groups: set of sequences of sources; sinks: set of sets of sources         *)
Feasible(groups, sinks) ==
  \A h \in Hubs(groups, sinks) : CanExtend(<<>>, h, sinks)

(* The packing itself: place the sources of an order one after the other.     *)
RECURSIVE Offsets(_, _, _)
Offsets(seq, size, at) ==
  IF seq = <<>> THEN <<>>
  ELSE [x \in {Head(seq)} |-> <<at, at + size[Head(seq)]>>]
       @@ Offsets(Tail(seq), size, at + size[Head(seq)])
SinkInterval(seq, size, sink) ==
  LET off == Offsets(seq, size, 0)
      pos == {i \in DOMAIN seq : seq[i] \in sink}
  IN <<off[seq[Min(pos)]][1], off[seq[Max(pos)]][2]>>
=============================================================================
