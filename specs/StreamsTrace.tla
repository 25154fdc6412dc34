---------------------------- MODULE StreamsTrace ----------------------------
EXTENDS Streams, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, W, S, facts
Tr == Traces[tid]
HandlesT == {"g", "1", "2", "3", "4", "5", "6"}
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ facts = {}
         /\ W = [h \in HandlesT |-> IF h = "g" THEN Machine("rs", "", Traces[tid].g) ELSE None]
         /\ S = [k \in 1..3 |-> [org |-> "", hist |-> <<>>]]
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Fact(key, v, req) == [key |-> key, v |-> v, req |-> req]
Wide(r) == r \in {"rand", "randn", "gs", "ints"}
(* what an event tells: facts about the streams *)
Told(o, N) ==
  (IF o.o = "use" THEN {Fact(Key(W[o.h], o.r), o.x, o.r)} ELSE {})
  \cup (IF o.o = "new" /\ o.s = "" THEN {Fact(Key(W["g"], "new" \o o.kind \o o.cfg), o.v, "seed")} ELSE {})
  \cup (IF o.o = "spawn" /\ o.s = "" THEN {Fact(Key(W[o.h], "gs"), o.v, "gs")} ELSE {})
  \cup (IF o.o = "train" THEN {Fact(<<"train", o.cfg, o.s>>, o.x, "train")} ELSE {})
  \cup (IF o.o = "run" THEN {Fact(<<"run", o.cfg, o.s>>, o.x, "run")} ELSE {})
  \cup {Fact(Key(N[o.peek[i].h], "peek"), o.peek[i].x, "peek") : i \in 1..Len(o.peek)}
Clash(fs) == {f \in fs : \E g \in facts \cup fs : g.key = f.key /\ g.v # f.v}
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(a) - 1)
(* different seeds, or later requests to the same stream, give other numbers *)
Same(fs) == {f \in fs : Wide(f.req) /\ f.key[1] = "rs" /\ \E g \in facts : g.req = f.req /\ g.key[1] = "rs" /\ g.v = f.v
               /\ (g.key[3] # f.key[3] \/ Prefix(g.key, f.key) \/ Prefix(f.key, g.key))}
SeedsOk(o, N) == \A i \in 1..Len(o.seeds) : o.seeds[i].v = N[o.seeds[i].h].seed
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN UNCHANGED <<l, W, S, facts>> /\ Fin("ok")
     ELSE LET o == Tr.ev[l + 1]
              N == TLCEval(NextW(W, S, o, o.v))
              fs == TLCEval(Told(o, N))
          IN /\ l' = l + 1 /\ W' = N /\ S' = NextS(W, S, o) /\ facts' = facts \cup fs
             /\ Fin(IF o.err # "" THEN "an operation on a random state fails: " \o o.o
                    ELSE IF o.o \in {"new", "spawn"} /\ o.s # "" /\ o.v # o.s THEN "an explicit seed is not the seed"
                    ELSE IF ~SeedsOk(o, N) THEN "the seed of an object is not the one it was given"
                    ELSE IF Clash(fs) # {} THEN
                       (CASE \E f \in Clash(fs) : f.req \in {"train", "run"} -> "equally seeded training gives different results"
                          [] \E f \in Clash(fs) : f.req \in {"seed", "gs"} -> "generated seeds depend on something else"
                          [] \E f \in Clash(fs) : f.req = "peek" -> "a random state was changed by something else"
                          [] OTHER -> "equal seeds give different random values")
                    ELSE IF Same(fs) # {} THEN "different seeds or requests give the same random values"
                    ELSE "run")
=============================================================================
