---------------------------- MODULE PersistTrace ----------------------------
(* Judges descriptions of objects, and histories of networks being trained,   *)
(* changed, saved, loaded and re-created.  The parameters of a network are a  *)
(* term (how they came about); equal terms must mean equal observations,      *)
(* whatever happened to other networks or to files in between.                *)
EXTENDS Describe, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, nets, files, seen
Tr == Traces[tid]
Dead == [live |-> FALSE, P |-> <<>>, M |-> "", I |-> "", out |-> "", dt |-> ""]
NoFile == [live |-> FALSE, s |-> Dead, ph |-> ""]
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
         /\ nets = [h \in 1..4 |-> Dead] /\ files = [f \in 1..3 |-> NoFile] /\ seen = {}
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
(* ------------------------------------------------------------- objects -- *)
Table == [c \in DOMAIN Tr.C |-> [i \in 1..Len(Tr.C[c]) |->
            [und |-> Members(Tr.C[c][i].und), def |-> Members(Tr.C[c][i].def)]]]
Obj == LET C == TLCEval(Table)
           x == Canon(Tr.x)
           d == Canon(Tr.d)
       IN IF Tr.err # "" THEN "an object cannot be described or re-created"
          ELSE IF ~Plain(d) \/ ~Tr.json THEN "a description is not plain data"
          ELSE IF d # Descr(C, x) THEN "a description is not what the class prescribes"
          ELSE IF Canon(Tr.y) # Fresh(C, x) THEN "a re-created object differs"
          ELSE IF Canon(Tr.d2) # d THEN "the description of a re-created object differs"
          ELSE IF Canon(Tr.y2) # Fresh(C, x) THEN "re-created objects share state"
          ELSE IF Canon(Tr.d3) # d THEN "a description changed with the object"
          ELSE "ok"
Lib == IF Tr.err # "" THEN "an object cannot be described or re-created"
       ELSE IF ~Plain(Canon(Tr.d)) \/ ~Tr.json THEN "a description is not plain data"
       ELSE IF Canon(Tr.d2) # Canon(Tr.d) THEN "the description of a re-created object differs"
       ELSE IF Canon(Tr.a1) # Canon(Tr.a2) THEN "an argument of a re-created object differs"
       ELSE IF Tr.b1 # Tr.b2 THEN "a re-created object behaves differently"
       ELSE IF Canon(Tr.d3) # Canon(Tr.d) THEN "the description contains dynamic information"
       ELSE "ok"
(* ------------------------------------------------------------ networks -- *)
Pat(k, j, i) == 1 + ((k * 7 + j * 5 + i * 3) % 9) - 4
PatPos(k, i) == 4 * (1 + ((k + i) % 3))
Apply(n, o) ==
  CASE o.o = "new" -> [Dead EXCEPT !.live = TRUE, !.P = <<"u" \o ToString(l)>>, !.M = "none", !.I = "none", !.out = "none", !.dt = o.dt]
    [] o.o = "write" -> [n EXCEPT !.P = <<"w" \o ToString(o.k)>>]
    [] o.o = "init" -> [n EXCEPT !.P = <<"i" \o o.r \o n.dt, IF o.det THEN "" ELSE ToString(o.k)>>, !.I = o.r]
    [] o.o = "mods" -> [n EXCEPT !.M = o.m]
    [] o.o = "out" -> [n EXCEPT !.out = o.s]
    [] o.o = "handler" -> [n EXCEPT !.dt = o.dt, !.P = Append(@, "h" \o o.dt)]
    [] o.o = "train" -> [n EXCEPT !.P = Append(@, "t" \o ToString(o.k) \o n.M \o n.dt)]
    [] o.o = "load" -> files[o.k].s
    [] o.o = "desc" -> [nets[o.k] EXCEPT !.P = IF o.det /\ nets[o.k].I # "none" THEN <<"i" \o nets[o.k].I \o nets[o.k].dt, "">>
                                                ELSE <<"u" \o ToString(l)>>]
    [] o.o = "arch" -> [Dead EXCEPT !.live = TRUE, !.P = <<"u" \o ToString(l)>>, !.M = "none", !.I = "none", !.out = "none", !.dt = o.dt]
    [] OTHER -> n
Close(a, b) == (IF a > b THEN a - b ELSE b - a) <= 96 + (IF b < 0 THEN -b ELSE b) \div 16384
CloseV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i])
Facts(n, b) ==       \* what one observation of a network tells
  {[key |-> <<"p">> \o n.P, v |-> b.p, s |-> ""],
   [key |-> <<"f", n.dt>> \o n.P, v |-> b.f, s |-> ""],
   [key |-> <<"g", n.dt, n.M>> \o n.P, v |-> b.g, s |-> ""],
   [key |-> <<"d", n.dt, n.M, n.I, n.out>>, v |-> <<>>, s |-> b.d],
   [key |-> <<"o", n.out>>, v |-> <<>>, s |-> b.out]}
Contradicted(fs) == {x \in fs : \E y \in seen : y.key = x.key /\ (y.s # x.s \/ ~CloseV(x.v, y.v))}
NewFacts(fs) == {x \in fs : ~\E y \in seen : y.key = x.key}
Word(k) == CASE k = "p" -> "the parameters of a network are not those of its history"
             [] k = "f" -> "a network computes something else than its equal"
             [] k = "g" -> "the gradients of a network differ from those of its equal"
             [] k = "d" -> "the description of a network does not tell its state"
             [] k = "o" -> "the output name is lost"
PatOk(n, b) ==
  Len(n.P) # 1 \/ n.P[1] # "w" \o ToString(b.wk) \/
    \A j \in 1..Len(b.w) : \A i \in 1..Len(b.w[j].v) :
       b.w[j].v[i] = IF b.w[j].pos THEN PatPos(b.wk, i) ELSE Pat(b.wk, j, i)
RECURSIVE Sweep(_, _, _)
Sweep(obs, i, nn) ==     \* observations of all live networks after an event
  IF i > Len(obs) THEN "run"
  ELSE LET n == nn[obs[i].h]
           bad == Contradicted(Facts(n, obs[i]))
       IN IF ~n.live THEN "trace"
          ELSE IF ~obs[i].alias THEN "the parameters are not shared between the layers and the whole"
          ELSE IF ~PatOk(n, obs[i]) THEN "written parameters do not come back by name"
          ELSE IF bad # {} THEN Word((CHOOSE x \in bad : TRUE).key[1])
          ELSE Sweep(obs, i + 1, nn)
NetStep ==
  IF l = Len(Tr.ev) THEN UNCHANGED <<l, nets, files, seen>> /\ Fin("ok")
  ELSE LET o == Tr.ev[l + 1]
           target == o.h
           nn == IF o.o = "save" THEN nets ELSE [nets EXCEPT ![target] = Apply(@, o)]
           twice == \E a, b \in 1..Len(o.obs) : a # b /\ nn[o.obs[a].h] = nn[o.obs[b].h]
                       /\ \E x \in Facts(nn[o.obs[a].h], o.obs[a]) : \E y \in Facts(nn[o.obs[b].h], o.obs[b]) :
                            x.key = y.key /\ (x.s # y.s \/ ~CloseV(x.v, y.v))
       IN /\ l' = l + 1 /\ nets' = nn
          /\ files' = IF o.o = "save" THEN [files EXCEPT ![o.k] = [live |-> TRUE, s |-> nets[o.h], ph |-> o.ph]] ELSE files
          /\ seen' = seen \cup UNION {NewFacts(Facts(nn[o.obs[i].h], o.obs[i])) : i \in 1..Len(o.obs)}
          /\ Fin(IF o.err # "" THEN "an operation on a network fails: " \o o.o
                 ELSE IF o.o = "load" /\ files[o.k].ph # o.ph THEN "loaded parameters are not exactly those saved"
                 ELSE IF Sweep(o.obs, 1, nn) # "run" THEN Sweep(o.obs, 1, nn)
                 ELSE IF twice THEN "equal networks are observed to differ" ELSE "run")
TNext == /\ verdict = "run" /\ UNCHANGED tid
         /\ CASE Tr.kind = "obj" -> UNCHANGED <<l, nets, files, seen>> /\ Fin(Obj)
              [] Tr.kind = "lib" -> UNCHANGED <<l, nets, files, seen>> /\ Fin(Lib)
              [] OTHER -> NetStep
=============================================================================
