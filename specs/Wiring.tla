------------------------------- MODULE Wiring -------------------------------
(* Construction-time wiring of layers (the ">>" and "-" DSL).                *)
(* State: the layers created so far, in creation order, the connections made *)
(* so far, and for every layer the naming scope it currently belongs to.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLES layers,   \* Seq([base, type, uid])
          conns,    \* Seq([s, o, e, i]): layer s, port o  >>  port i of layer e
          scope,    \* Seq(SUBSET index): scope[k] = layers sharing names with k
          handles   \* Seq([k, i, o]): the expressions written so far: layer k,
                    \* entered at input i and left at output o
wvars == <<layers, conns, scope, handles>>

WInit == layers = <<>> /\ conns = <<>> /\ scope = <<>> /\ handles = <<>>

Create(base, type, uid) ==
  /\ layers' = Append(layers, [base |-> base, type |-> type, uid |-> uid])
  /\ scope' = Append(scope, {Len(layers) + 1})
  /\ conns' = conns
  /\ handles' = Append(handles, [k |-> Len(layers) + 1, i |-> "default", o |-> "default"])

(* h - "name" and "name" - h are new expressions; h itself stays as it was    *)
LabelOut(h, name) == /\ handles' = Append(handles, [handles[h] EXCEPT !.o = name])
                     /\ UNCHANGED <<layers, conns, scope>>
LabelIn(h, name) == /\ handles' = Append(handles, [handles[h] EXCEPT !.i = name])
                    /\ UNCHANGED <<layers, conns, scope>>

Connected(s, o, e, i) ==
  /\ conns' = Append(conns, [s |-> s, o |-> o, e |-> e, i |-> i])
  /\ LET merged == scope[s] \cup scope[e]
     IN scope' = [k \in DOMAIN scope |->
                    IF k \in merged THEN merged ELSE scope[k]]
  /\ layers' = layers
Connect(s, o, e, i) == Connected(s, o, e, i) /\ handles' = handles
(* h >> g leaves h at its output and enters g at its input; the value of the  *)
(* whole expression is g, so that chains read from left to right              *)
Shift(h, g) ==
  /\ Connected(handles[h].k, handles[h].o, handles[g].k, handles[g].i)
  /\ handles' = Append(handles, handles[g])

-----------------------------------------------------------------------------
(* Naming rule: a layer whose base name is alone in its scope keeps it;      *)
(* otherwise members of the group get base_1, base_2, ... in creation order, *)
(* skipping every index whose name is the (sole) base name of another layer. *)
Group(sc, b) == {k \in sc : layers[k].base = b}
Sole(sc, n) == Cardinality(Group(sc, n)) = 1
RECURSIVE NextFree(_, _, _)
NextFree(sc, b, i) ==
  IF Sole(sc, b \o "_" \o ToString(i)) THEN NextFree(sc, b, i + 1) ELSE i
RECURSIVE IndexOf(_, _, _, _, _)
IndexOf(sc, b, seq, k, i) ==
  LET j == NextFree(sc, b, i)
  IN IF Head(seq) = k THEN j ELSE IndexOf(sc, b, Tail(seq), k, j + 1)
NameOf(k) ==
  LET sc == scope[k]
      b  == layers[k].base
      g  == SetToSortSeq(Group(sc, b), LAMBDA x, y : x < y)
  IN IF Len(g) = 1 THEN b ELSE b \o "_" \o ToString(IndexOf(sc, b, g, k, 1))

(* The architecture that generating from layer k yields.                     *)
RECURSIVE Closure(_)
Closure(S) ==
  LET N == S \cup {conns[c].e : c \in {x \in DOMAIN conns : conns[x].s \in S}}
             \cup {conns[c].s : c \in {x \in DOMAIN conns : conns[x].e \in S}}
  IN IF N = S THEN S ELSE Closure(N)
Component(k) == Closure({k})

ConnCount(k, o, tgt) ==
  Cardinality({c \in DOMAIN conns :
     conns[c].s = k /\ conns[c].o = o
     /\ NameOf(conns[c].e) \o "." \o conns[c].i = tgt})
Targets(k, o) == {NameOf(conns[c].e) \o "." \o conns[c].i :
                    c \in {x \in DOMAIN conns : conns[x].s = k /\ conns[x].o = o}}
OutPorts(k) == {conns[c].o : c \in {x \in DOMAIN conns : conns[x].s = k}}
-----------------------------------------------------------------------------
(* Properties of the design.                                                 *)
ScopeIsComponent == \A k \in DOMAIN layers : scope[k] = Component(k)
(* expressions denote existing layers and never change afterwards             *)
HandlesProper == \A h \in DOMAIN handles : handles[h].k \in DOMAIN layers
NamesUnique == \A k \in DOMAIN layers : \A m \in scope[k] :
                  k # m => NameOf(k) # NameOf(m)
SoleKeepsName == \A k \in DOMAIN layers :
                    Sole(scope[k], layers[k].base) => NameOf(k) = layers[k].base
=============================================================================
