------------------------------ MODULE StreamsMC ------------------------------
EXTENDS Streams, Json
CONSTANT Depth
VARIABLES W, S, hist, drawn
HS == {"1", "2"}
Handles == HS \cup {"g"}
Seeds == {"1", "2"}
NoPoint == [org |-> "", hist |-> <<>>]
Init == /\ W = [h \in Handles |-> IF h = "g" THEN Machine("rs", "", "1") ELSE None]
        /\ S = NoPoint /\ hist = <<>> /\ drawn = {}
Live == {h \in Handles : W[h] # None}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o "," \o Cat(Tail(s))
Term(m, r) == "(" \o Cat(Key(m, r)) \o ")"
SS == [k \in {1} |-> S]
Do(o, v, d) == /\ W' = NextW(W, SS, o, v) /\ S' = NextS(W, SS, o)[1]
               /\ hist' = Append(hist, o) /\ drawn' = drawn \cup d
New(h) == \E s \in Seeds \cup {""} :
  Do([o |-> "new", h |-> h, kind |-> "rs", cfg |-> "", s |-> s], IF s = "" THEN Term(W["g"], "newrs") ELSE s, {})
Spawn(h, g) == \E s \in {"1", ""} :
  Do([o |-> "spawn", h |-> h, to |-> g, s |-> s], IF s = "" THEN Term(W[h], "gs") ELSE s, {})
Use(h) == \E r \in {"a", "gs"} : Do([o |-> "use", h |-> h, r |-> r], "", {[h |-> h, key |-> Key(W[h], r)]})
Next == /\ Len(hist) < Depth
        /\ \/ \E h \in HS : New(h)
           \/ \E h \in Live : \/ Use(h)
                              \/ Do([o |-> "reset", h |-> h], "", {})
                              \/ Do([o |-> "seed", h |-> h, s |-> "2"], "", {})
                              \/ Do([o |-> "save", h |-> h, k |-> 1], "", {})
                              \/ S # NoPoint /\ Do([o |-> "restore", h |-> h, k |-> 1], "", {})
                              \/ \E g \in HS \ {h} : Spawn(h, g) \/ (h # "g" /\ Do([o |-> "copy", h |-> h, to |-> g], "", {}))
Spec == Init /\ [][Next]_<<W, S, hist, drawn>>
Last == hist'[Len(hist')]
(* nothing but the operation's own objects changes                             *)
Isolation == [][\A h \in Handles : W'[h] # W[h] => h \in Touched(Last)]_<<W, S, hist, drawn>>
ResetIsNew == [][Last.o = "reset" => W'[Last.h] = Machine("rs", "", W[Last.h].seed)]_<<W, S, hist, drawn>>
CopiesAgree == [][Last.o = "copy" => W'[Last.to] = W[Last.h]]_<<W, S, hist, drawn>>
RestoreRepeats == [][Last.o = "restore" => Point(W'[Last.h]) = S]_<<W, S, hist, drawn>>
ExplicitAgree == [][Last.o \in {"new", "spawn"} /\ Last.s # "" =>
                      W'[IF Last.o = "new" THEN Last.h ELSE Last.to] = Machine("rs", "", Last.s)]_<<W, S, hist, drawn>>
NeverTwice == \A h \in Live : W[h].hist # <<>> => \A i \in 0..(Len(W[h].hist) - 1) :
                Key([W[h] EXCEPT !.hist = SubSeq(@, 1, i)], "a") # Key(W[h], "a")
Interesting == Len(hist) = Depth /\ Cardinality({i \in 1..Depth : hist[i].o = "use"}) >= 2
               /\ Cardinality({hist[i].o : i \in 1..Depth}) >= 3
Emit == Interesting => PrintT("@@" \o ToJson(hist))
=============================================================================
