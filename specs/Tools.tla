------------------------------- MODULE Tools --------------------------------
(* The tools that build networks from a line of text and the tools that      *)
(* prepare data (brainstorm/tools.py).                                       *)
(*                                                                           *)
(* A line is a sequence of tokens: layer letters [k |-> "L", v |-> "F"],     *)
(* argument letters [k |-> "a", v |-> "t"], whole numbers [k |-> "n",        *)
(* n |-> 12] and fractions [k |-> "f", n |-> 200] (thousandths).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rejected == [ok |-> FALSE]
Acts == [s |-> "sigmoid", t |-> "tanh", r |-> "rel", l |-> "linear"]
IsAct(t) == t.k = "a" /\ t.v \in DOMAIN Acts
IsNum(t) == t.k = "n"

(* ------------------------------------------------------------- parsing --- *)
RECURSIVE Groups(_)
Groups(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET stop == {i \in 2..Len(ts) : ts[i].k = "L"}
           e == IF stop = {} THEN Len(ts) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
       IN <<[letter |-> ts[1].v, args |-> SubSeq(ts, 2, e)]>> \o Groups(SubSeq(ts, e + 1, Len(ts)))

Base == [ok |-> TRUE, type |-> "", act |-> "", size |-> 0, drop |-> 0, k |-> 0, s |-> 1, p |-> 0, pool |-> ""]
ActOf(as, d) == IF as # <<>> /\ IsAct(as[1]) THEN Acts[as[1].v] ELSE d
Rest(as) == IF as # <<>> /\ IsAct(as[1]) THEN Tail(as) ELSE as
Sized(type, as, d) ==
  LET r == Rest(as) IN
  IF Len(r) = 1 /\ IsNum(r[1]) THEN [Base EXCEPT !.type = type, !.act = ActOf(as, d), !.size = r[1].n]
  ELSE Rejected
(* trailing 'p1' and 's2' in any order *)
RECURSIVE Geometry(_, _)
Geometry(item, as) ==
  IF as = <<>> THEN item
  ELSE IF Len(as) >= 2 /\ as[1].k = "a" /\ as[1].v \in {"p", "s"} /\ IsNum(as[2])
       THEN Geometry(IF as[1].v = "p" THEN [item EXCEPT !.p = as[2].n] ELSE [item EXCEPT !.s = as[2].n],
                     SubSeq(as, 3, Len(as)))
       ELSE Rejected
Item(g) ==
  LET as == g.args IN
  CASE g.letter = "F" -> Sized("FullyConnected", as, "rel")
    [] g.letter = "R" -> Sized("Recurrent", as, "tanh")
    [] g.letter = "L" -> Sized("Lstm", as, "tanh")
    [] g.letter = "B" -> IF as = <<>> THEN [Base EXCEPT !.type = "BatchNorm"] ELSE Rejected
    [] g.letter = "D" -> IF as = <<>> THEN [Base EXCEPT !.type = "Dropout", !.drop = 500]
                         ELSE IF Len(as) = 1 /\ as[1].k = "f" THEN [Base EXCEPT !.type = "Dropout", !.drop = as[1].n]
                         ELSE Rejected
    [] g.letter = "C" -> LET r == Rest(as) IN
                         IF Len(r) >= 2 /\ IsNum(r[1]) /\ IsNum(r[2])
                         THEN Geometry([Base EXCEPT !.type = "Convolution2D", !.act = ActOf(as, "rel"),
                                                    !.size = r[1].n, !.k = r[2].n], SubSeq(r, 3, Len(r)))
                         ELSE Rejected
    [] g.letter = "P" -> LET t == as # <<>> /\ as[1].k = "a" /\ as[1].v \in {"m", "a"}
                             r == IF t THEN Tail(as) ELSE as
                         IN IF Len(r) >= 1 /\ IsNum(r[1])
                            THEN Geometry([Base EXCEPT !.type = "Pooling2D", !.k = r[1].n,
                                             !.pool = IF t /\ as[1].v = "a" THEN "avg" ELSE "max"], Tail(r))
                            ELSE Rejected
    [] OTHER -> Rejected
Items(ts) == LET gs == Groups(ts) IN [i \in 1..Len(gs) |-> Item(gs[i])]

(* ------------------------------------------------------------ building --- *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Sp(n, it) == (n + 2 * it.p - it.k) \div it.s + 1
(* the shape a layer gives, or <<>> if it cannot be used on that input *)
OutShape(it, sh) ==
  CASE it.type \in {"FullyConnected", "Recurrent", "Lstm"} -> <<it.size>>
    [] it.type = "Convolution2D" ->
         IF Len(sh) = 3 /\ sh[1] + 2 * it.p >= it.k /\ sh[2] + 2 * it.p >= it.k
         THEN <<Sp(sh[1], it), Sp(sh[2], it), it.size>> ELSE <<>>
    [] it.type = "Pooling2D" ->
         IF Len(sh) = 3 /\ sh[1] + 2 * it.p >= it.k /\ sh[2] + 2 * it.p >= it.k
         THEN <<Sp(sh[1], it), Sp(sh[2], it), sh[3]>> ELSE <<>>
    [] OTHER -> sh
NumPars(it, sh) ==
  LET n == Prod(sh) IN
  CASE it.type = "FullyConnected" -> it.size * n + it.size
    [] it.type = "Recurrent" -> it.size * n + it.size * it.size + it.size
    [] it.type = "Lstm" -> 4 * (it.size * n + it.size * it.size + it.size) + 3 * it.size
    [] it.type = "Convolution2D" -> it.size * it.k * it.k * sh[3] + it.size
    [] it.type = "BatchNorm" -> 4 * sh[Len(sh)]
    [] OTHER -> 0
(* every layer of a type has that name; several are numbered in order *)
Name(is, i) ==
  LET same == {j \in 1..Len(is) : is[j].type = is[i].type} IN
  IF Cardinality(same) = 1 THEN is[i].type
  ELSE is[i].type \o "_" \o ToString(Cardinality({j \in same : j <= i}))
RECURSIVE Shapes(_, _)
Shapes(is, sh) == IF is = <<>> THEN <<sh>>
                  ELSE LET o == OutShape(Head(is), sh) IN
                       IF o = <<>> THEN <<sh, <<>>>> ELSE <<sh>> \o Shapes(Tail(is), o)
Conn(a, x, b, y) == <<a, x, b, y>>
(* q: the request; a record [task, inn, out, data, targets, mask, conv,      *)
(* proj, outl] with mask "" for none and conv in {"auto", "yes", "no"}       *)
UsesConv(q) == Len(q.out) # 1 /\ q.conv # "no"
Known(q) == q.task \in {"classification", "multi-label", "regression"}
            /\ (~UsesConv(q) \/ Len(q.out) = 3)
LossLayer(task) == CASE task = "classification" -> "SoftmaxCE"
                     [] task = "multi-label" -> "SigmoidCE"
                     [] OTHER -> "SquaredError"
PredView(task) == "predictions"
Projection(q) == IF UsesConv(q) THEN [Base EXCEPT !.type = "Convolution2D", !.act = "linear", !.size = q.out[3], !.k = 1]
                 ELSE [Base EXCEPT !.type = "FullyConnected", !.act = "linear", !.size = Prod(q.out)]
TargetShape(q) == IF q.task = "classification" THEN [q.out EXCEPT ![Len(q.out)] = 1] ELSE q.out
ProjName(q) == IF q.proj # "" THEN q.proj ELSE (IF q.outl # "" THEN q.outl ELSE "Output") \o "_projection"
OutName(q) == IF q.outl # "" THEN q.outl ELSE "Output"
Layer(n, t, i, o, c, it) == [name |-> n, type |-> t, in |-> i, out |-> o, pars |-> c, item |-> it]
Build(q, is) ==
  LET sh == Shapes(is, q.inn)
      ok == Known(q) /\ (\A i \in 1..Len(is) : is[i].ok)
            /\ sh[Len(sh)] # <<>>
      last == sh[Len(sh)]
      pr == Projection(q)
      po == IF UsesConv(q) THEN OutShape(pr, last) ELSE q.out
      names == [i \in 1..Len(is) |-> Name(is, i)]
      chain == <<"Input">> \o names \o <<ProjName(q)>>
      lossin == IF q.mask = "" THEN "Loss" ELSE "Mask"
  IN IF ~ok THEN Rejected
     ELSE IF po # q.out THEN Rejected
     ELSE [ok |-> TRUE,
       layers |->
         {[name |-> names[i], type |-> is[i].type, in |-> sh[i], out |-> sh[i + 1],
           pars |-> NumPars(is[i], sh[i]), item |-> is[i]] : i \in 1..Len(is)}
         \cup {[name |-> ProjName(q), type |-> pr.type, in |-> last, out |-> q.out,
                pars |-> NumPars(pr, last), item |-> pr]},
       loss |-> LossLayer(q.task),
       inputs |-> {<<q.data, q.inn>>, <<q.targets, TargetShape(q)>>}
                  \cup (IF q.mask = "" THEN {} ELSE {<<q.mask, <<1>>>>}),
       names |-> {"Input", "Loss", OutName(q), ProjName(q)} \cup {names[i] : i \in 1..Len(is)}
                  \cup (IF q.mask = "" THEN {} ELSE {"Mask"}),
       conns |-> {Conn(chain[i], IF i = 1 THEN q.data ELSE "default", chain[i + 1], "default") : i \in 1..(Len(chain) - 1)}
                 \cup {Conn(ProjName(q), "default", OutName(q), "default"),
                       Conn("Input", q.targets, OutName(q), "targets"),
                       Conn(OutName(q), "loss", lossin, "default")}
                 \cup (IF q.mask = "" THEN {} ELSE {Conn("Input", q.mask, "Mask", "mask"),
                                                    Conn("Mask", "default", "Loss", "default")}),
       total |-> LET RECURSIVE Sum(_)
                     Sum(i) == IF i = 0 THEN NumPars(pr, last) ELSE Sum(i - 1) + NumPars(is[i], sh[i])
                 IN Sum(Len(is))]

(* ---------------------------------------------------------------- data --- *)
(* arrays are sequences of time steps, each a sequence of samples            *)
Col(A, b) == [t \in 1..Len(A) |-> A[t][b]]
Width(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Cum(rs, i) == LET RECURSIVE S(_)
                  S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + rs[j] IN S(i)
(* the cuts are the cumulative ratios rounded to the nearest sample *)
CutOk(c, N, rs, i) == LET T == Cum(rs, Len(rs)) d == 2 * c * T - 2 * Cum(rs, i) * N IN d <= T /\ -d <= T
IsShuffle(perm, N) == {perm[i] : i \in 1..Len(perm)} = 1..N /\ Len(perm) = N
Take(A, idx) == [t \in 1..Len(A) |-> [i \in 1..Len(idx) |-> A[t][idx[i]]]]
=============================================================================
