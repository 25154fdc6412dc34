---------------------------- MODULE Architecture ----------------------------
(* Architecture dictionaries: which are accepted and the canonical order.     *)
(* arch: Seq of [n: name, r: rank of the name in string order, t: type,       *)
(*               outs: Seq of <<output, end layer, input>>]                   *)
EXTENDS Layout

BadNames == {"default", "fallback", "1a", "a-b", "a.b", "", "a b", "a*"}
Names(arch) == {arch[i].n : i \in DOMAIN arch}
Edges(arch) == UNION {{<<arch[i].n, arch[i].outs[c][2]>> : c \in DOMAIN arch[i].outs} : i \in DOMAIN arch}
Succ(arch, n) == {e[2] : e \in {x \in Edges(arch) : x[1] = n}}
Pred(arch, n) == {e[1] : e \in {x \in Edges(arch) : x[2] = n}}
Entry(arch, n) == arch[CHOOSE i \in DOMAIN arch : arch[i].n = n]

RECURSIVE ReachN(_, _, _)
ReachN(E, S, k) == IF k = 0 THEN S
                   ELSE ReachN(E, S \cup {e[2] : e \in {x \in E : x[1] \in S}}, k - 1)
Acyclic(arch) == \A n \in Names(arch) :
  n \notin ReachN(Edges(arch), Succ(arch, n), Len(arch))

(* longest path to a layer without outgoing connections                       *)
RECURSIVE Depth(_, _)
Depth(arch, n) == IF Succ(arch, n) = {} THEN 0
                  ELSE 1 + Max({Depth(arch, m) : m \in Succ(arch, n)})

(* Canonical order: by topological depth, then by name.                       *)
Canonical(arch) ==
  SetToSortSeq(Names(arch),
     LAMBDA a, b : \/ Depth(arch, a) > Depth(arch, b)
                   \/ Depth(arch, a) = Depth(arch, b)
                      /\ Entry(arch, a).r < Entry(arch, b).r)

Topological(seq, arch) ==
  /\ SeqSet(seq) = Names(arch) /\ Len(seq) = Len(arch)
  /\ \A i, j \in DOMAIN seq : <<seq[i], seq[j]>> \in Edges(arch) => i < j

(* all sources of a layer input, as <<layer, output>>                         *)
InSet(arch, n, inp) ==
  UNION {{<<arch[i].n, arch[i].outs[c][1]>> :
            c \in {x \in DOMAIN arch[i].outs : arch[i].outs[x][2] = n /\ arch[i].outs[x][3] = inp}}
         : i \in DOMAIN arch}
InNames(arch, n) == UNION {{arch[i].outs[c][3] :
            c \in {x \in DOMAIN arch[i].outs : arch[i].outs[x][2] = n}} : i \in DOMAIN arch}

(* Probe layers have one input "default" and outputs "default" and "aux".     *)
OutNames(t) == IF t = "Input" THEN {"default"} ELSE {"default", "aux"}

Problem(arch) ==
  IF \E i \in DOMAIN arch : arch[i].t = "" THEN "missing type"
  ELSE IF Names(arch) \cap BadNames # {} THEN "invalid name"
  ELSE IF \E e \in Edges(arch) : e[2] \notin Names(arch) THEN "undefined end layer"
  ELSE IF "Input" \notin Names(arch) \/ Entry(arch, "Input").t # "Input" THEN "no Input"
  ELSE IF Cardinality({i \in DOMAIN arch : arch[i].t = "Input"}) # 1 THEN "two Inputs"
  ELSE IF \E e \in Edges(arch) : e[2] = "Input" THEN "connection into Input"
  ELSE IF ~Acyclic(arch) THEN "cycle"
  ELSE IF \E i \in DOMAIN arch : arch[i].t # "Input" /\ arch[i].t # "VProbe" THEN "unknown type"
  ELSE IF \E i \in DOMAIN arch : \E c \in DOMAIN arch[i].outs :
            arch[i].outs[c][1] \notin OutNames(arch[i].t) THEN "no such output"
  ELSE IF \E i \in DOMAIN arch : arch[i].t # "Input" /\ InNames(arch, arch[i].n) # {"default"}
       THEN "inputs not connected"
  ELSE IF ~Feasible({<<<<arch[i].n, o>>>> : i \in DOMAIN arch, o \in {"default"}}
                    \cup {<<<<arch[i].n, o>>>> : i \in {x \in DOMAIN arch : arch[x].t # "Input"}, o \in {"aux"}},
                    {InSet(arch, arch[i].n, "default") : i \in {x \in DOMAIN arch : arch[x].t # "Input"}})
       THEN "no layout"
  ELSE "none"
=============================================================================
