---------------------------- MODULE ModifiersTrace ----------------------------
(* Judges histories of setting and applying modifiers on a real network.      *)
EXTENDS Modifiers, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, P, G, wm, gm
(* wm, gm: [refs |-> references in force, mem |-> per view the possible       *)
(* memories (per leaf and position); the order among entries is open]         *)
vars == <<P, G, wm, gm>>
Tr == Traces[tid]
Tree == Tr.tree
Pos == Positions(Tree)
Shape(q) == Tree[q[1]].views[q[2]].shape
About2(refs, q) == About(Tree, refs, q[1], q[2])
Ids(refs, q) == Chosen(About2(refs, q))
Legal(refs) == /\ AllMatch(Tree, refs)
               /\ \A q \in Pos : LET r == About2(refs, q) IN r.f = {} /\ (r.c # {} \/ Cardinality(r.d) <= 1)
Fresh(refs) == [refs |-> refs,
                mem |-> [q \in Pos |-> {[id \in Ids(refs, q) |-> NoMem(Tr.leaves[id])]}]]
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
         /\ P = Traces[tid].P /\ G = Traces[tid].G
         /\ wm = [refs |-> <<>>, mem |-> <<>>] /\ gm = [refs |-> <<>>, mem |-> <<>>]
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Close(a, b) == FAbs(a - b) <= 12 + FAbs(b) \div 16384
CloseV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i])
Perms(I) == {f \in [1..Cardinality(I) -> I] : \A a, b \in 1..Cardinality(I) : a # b => f[a] # f[b]}
(* the lists of the referring entries run one after the other, in any order   *)
RECURSIVE RunIds(_, _, _, _, _, _, _)
RunIds(f, i, sh, v, p, self, mems) ==
  IF i > Len(f) THEN [v |-> v, mems |-> mems]
  ELSE LET r == Run(Tr.leaves[f[i]], 1, sh, v, p, self, mems[f[i]])
       IN RunIds(f, i + 1, sh, r.v, p, self, [mems EXCEPT ![f[i]] = r.mems])
Outcomes(M, q, v, p, self) ==
  IF M.refs = <<>> THEN {[v |-> v, mems |-> <<>>]}
  ELSE {RunIds(f, 1, Shape(q), v, p, self, m) : f \in Perms(Ids(M.refs, q)), m \in M.mem[q]}
At(a, q) == a[q[1]][q[2]]
Vals(M, V, self) == [q \in Pos |-> Outcomes(M, q, At(V, q), At(P, q), self)]
Pick(out, after) == [q \in Pos |-> {x \in out[q] : CloseV(At(after, q), x.v)}]
MemOf(M, pick) == IF M.refs = <<>> THEN M ELSE [M EXCEPT !.mem = [q \in Pos |-> {x.mems : x \in pick[q]}]]
Judge(M, V, after, self) == LET k == Pick(Vals(M, V, self), after) IN \A q \in Pos : k[q] # {}
SameAll(A, B) == \A q \in Pos : CloseV(At(A, q), At(B, q))
Zero == [i \in 1..Len(Tree) |-> [j \in 1..Len(Tree[i].views) |-> [k \in 1..Len(At(P, <<i, j>>)) |-> 0]]]
Step(q, lr, g) == [k \in 1..Len(At(P, q)) |-> At(P, q)[k] - FMul(lr, At(g, q)[k])]
Stepped(lr, g) == [i \in 1..Len(Tree) |-> [j \in 1..Len(Tree[i].views) |-> Step(<<i, j>>, lr, g)]]
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN UNCHANGED <<l, vars>> /\ Fin("ok")
     ELSE LET o == Tr.ev[l + 1] IN
       /\ l' = l + 1 /\ P' = o.P /\ G' = o.G
       /\ CASE o.o \in {"set_w", "set_g"} ->
                 LET ok == Legal(o.refs) IN
                 /\ wm' = IF o.o = "set_w" /\ ok THEN Fresh(o.refs) ELSE wm
                 /\ gm' = IF o.o = "set_g" /\ ok THEN Fresh(o.refs) ELSE gm
                 /\ Fin(IF o.rejected = ok THEN IF ok THEN "proper references are rejected" ELSE "improper references are accepted"
                        ELSE IF o.altered THEN "the references passed are altered"
                        ELSE IF ~SameAll(o.P, P) \/ ~SameAll(o.G, G) THEN "setting modifiers changed values" ELSE "run")
            [] o.o = "apply_w" ->
                 LET good == Judge(wm, P, o.P, TRUE) IN
                 /\ UNCHANGED gm /\ wm' = IF good THEN MemOf(wm, Pick(Vals(wm, P, TRUE), o.P)) ELSE wm
                 /\ Fin(IF ~good THEN "parameters are not modified by their rules"
                        ELSE IF ~SameAll(o.G, G) THEN "weight modifiers changed gradients" ELSE "run")
            [] o.o = "apply_g" ->
                 LET good == Judge(gm, G, o.G, FALSE) IN
                 /\ UNCHANGED wm /\ gm' = IF good THEN MemOf(gm, Pick(Vals(gm, G, FALSE), o.G)) ELSE gm
                 /\ Fin(IF ~good THEN "gradients are not modified by their rules"
                        ELSE IF ~SameAll(o.P, P) THEN "gradient modifiers changed parameters" ELSE "run")
            [] o.o = "backward" ->     \* of a loss that does not depend on the parameters
                 LET good == Judge(gm, Zero, o.G, FALSE) IN
                 /\ UNCHANGED wm /\ gm' = IF good THEN MemOf(gm, Pick(Vals(gm, Zero, FALSE), o.G)) ELSE gm
                 /\ Fin(IF ~good THEN "a backward pass does not apply the gradient modifiers once"
                        ELSE IF ~SameAll(o.P, P) THEN "a backward pass changed parameters" ELSE "run")
            [] o.o = "update" ->       \* one update of the trainer with plain gradient descent
                 LET good1 == Judge(gm, Zero, o.G, FALSE)
                     Q == Stepped(o.lr, o.G)
                     good2 == Judge(wm, Q, o.P, TRUE) IN
                 /\ gm' = IF good1 THEN MemOf(gm, Pick(Vals(gm, Zero, FALSE), o.G)) ELSE gm
                 /\ wm' = IF good2 THEN MemOf(wm, Pick(Vals(wm, Q, TRUE), o.P)) ELSE wm
                 /\ Fin(IF ~good1 THEN "an update does not apply the gradient modifiers once"
                        ELSE IF ~good2 THEN "an update does not apply the weight modifiers once afterwards" ELSE "run")
            [] o.o = "move" ->         \* to another handler; the gradients are written anew
                 /\ UNCHANGED <<wm, gm>>
                 /\ Fin(IF ~SameAll(o.P, P) THEN "another handler changed parameters" ELSE "run")
            [] o.o = "forward" ->
                 /\ UNCHANGED <<wm, gm>>
                 /\ Fin(IF ~SameAll(o.P, P) THEN "a forward pass changed parameters" ELSE "run")
            [] o.o = "write" -> UNCHANGED <<wm, gm>> /\ Fin("run")
=============================================================================
