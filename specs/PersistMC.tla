------------------------------ MODULE PersistMC ------------------------------
(* Networks, files and descriptions: a network is its parameters (a term: how *)
(* they came about), modifiers and settings; a file holds what was saved.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Depth
VARIABLES nets, files, hist, k
H == 1..2
F == 1..2
None == [P |-> <<>>, M |-> "", out |-> ""]
Zero == [P |-> <<"zero">>, M |-> "m0", out |-> "o0"]
Init == /\ nets = [h \in H |-> IF h = 1 THEN Zero ELSE None]
        /\ files = [f \in F |-> None] /\ hist = <<>> /\ k = 0
Live == {h \in H : nets[h] # None}
Full == {f \in F : files[f] # None}
Log(e) == hist' = Append(hist, e) /\ k' = k + 1
Train(h) == /\ nets' = [nets EXCEPT ![h].P = Append(@, "t" \o ToString(k % 2) \o nets[h].M)]
            /\ UNCHANGED files /\ Log([o |-> "train", h |-> h, k |-> k % 2])
Write(h) == /\ nets' = [nets EXCEPT ![h].P = <<"w" \o ToString(k)>>]
            /\ UNCHANGED files /\ Log([o |-> "write", h |-> h, k |-> k])
Mods(h) == \E m \in 0..1 : /\ nets' = [nets EXCEPT ![h].M = "m" \o ToString(m)]
                           /\ UNCHANGED files /\ Log([o |-> "mods", h |-> h, k |-> m])
Out(h) == /\ nets' = [nets EXCEPT ![h].out = "o1"] /\ UNCHANGED files /\ Log([o |-> "out", h |-> h, k |-> 1])
Save(h, f) == files' = [files EXCEPT ![f] = nets[h]] /\ UNCHANGED nets /\ Log([o |-> "save", h |-> h, k |-> f])
Load(f, h) == nets' = [nets EXCEPT ![h] = files[f]] /\ UNCHANGED files /\ Log([o |-> "load", h |-> h, k |-> f])
Next == /\ k < Depth
        /\ \/ \E h \in Live : Train(h) \/ Write(h) \/ Mods(h) \/ Out(h) \/ \E f \in F : Save(h, f)
           \/ \E f \in Full, h \in H : Load(f, h)
Spec == Init /\ [][Next]_<<nets, files, hist, k>>
(* a file changes only by saving, a network only by operations on it           *)
FilesStay == [][\A f \in F : files'[f] # files[f] => \E h \in Live : hist'[k + 1] = [o |-> "save", h |-> h, k |-> f]]_<<nets, files, hist, k>>
NetsStay == [][\A h \in H : nets'[h] # nets[h] => hist'[k + 1].h = h /\ hist'[k + 1].o # "save"]_<<nets, files, hist, k>>
LoadedIsSaved == [][\A h \in H : k' > k /\ hist'[k + 1].o = "load" /\ hist'[k + 1].h = h => nets'[h] = files[hist'[k + 1].k]]_<<nets, files, hist, k>>
Twins == \A h, g \in Live : nets[h] = nets[g] => nets[h].P = nets[g].P
Interesting == Len(hist) = Depth /\ \E i \in 1..Len(hist) : hist[i].o = "load"
Emit == Interesting => PrintT("@@" \o ToJson(hist))
=============================================================================
