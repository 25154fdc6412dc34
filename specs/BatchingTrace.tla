---------------------------- MODULE BatchingTrace ----------------------------
(* Judges the batches a real iterator yields over several epochs.             *)
EXTENDS Batching, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict, left, ids
Tr == Traces[tid]
NB == IF Tr.whole THEN 1 ELSE NrBatches(Tr.N, Tr.bs)
BS == IF Tr.whole THEN Tr.N ELSE Tr.bs
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run" /\ left = {} /\ ids = <<>>
Lens == CASE Tr.by = "mask" -> [n \in 1..Tr.N |-> MaskLen([t \in 1..Tr.T |-> Tr.data[Tr.cutname][t][n][1]])]
          [] Tr.by = "list" -> Tr.lens
          [] OTHER -> [n \in 1..Tr.N |-> Tr.T]
Expected(i, name) ==
  LET M == Members(i, BS, Tr.N)
      len == IF Tr.whole THEN Tr.T ELSE Longest(Lens, M)
  IN [t \in 1..len |-> [b \in 1..Cardinality(M) |-> Tr.data[name][t][First(i, BS) + b - 1]]]
Is(i, d) == DOMAIN d = DOMAIN Tr.data /\ \A n \in DOMAIN d : d[n] = Expected(i, n)
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
(* identities of the batches per epoch, in the order presented                *)
Epochs == Len(ids) \div NB
Ord(k) == SubSeq(ids, (k - 1) * NB + 1, k * NB)
ShufflesAtAll ==   \* 4 epochs of at least 6 batches: all equal has probability < 10^-8
  Tr.shuffle /\ NB >= 6 /\ Epochs >= 4 => \E k \in 2..Epochs : Ord(k) # Ord(1)
Fact(n) == CASE n = 2 -> 2 [] n = 3 -> 6 [] OTHER -> 1
AllOrders ==       \* failure probability < 10^-11 for either number of batches
  Tr.shuffle /\ ((NB = 2 /\ Epochs >= 60) \/ (NB = 3 /\ Epochs >= 200)) =>
    Cardinality({Ord(k) : k \in 1..Epochs}) = Fact(NB)
End == IF left # {} THEN "a sequence is missing in an epoch"
       ELSE IF ~ShufflesAtAll THEN "the order is never shuffled"
       ELSE IF ~AllOrders THEN "some orders never occur"
       ELSE "ok"
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF Tr.refused # Tr.bad
     THEN UNCHANGED <<l, left, ids>> /\ Fin(IF Tr.refused THEN "well-formed data is refused" ELSE "malformed data is accepted")
     ELSE IF l = Len(Tr.ev) THEN UNCHANGED <<l, left, ids>> /\ Fin(IF Tr.bad THEN "ok" ELSE End)
     ELSE LET o == Tr.ev[l + 1]
          IN /\ l' = l + 1
             /\ CASE o.o = "epoch" ->
                       /\ left' = 1..NB /\ ids' = ids
                       /\ Fin(IF left # {} THEN "a sequence is missing in an epoch"
                              ELSE IF o.len # NB THEN "announced number of batches is wrong" ELSE "run")
                  [] o.o = "again" ->      \* a second iterator with the same seed
                       /\ UNCHANGED <<left, ids>>
                       /\ Fin(IF o.same THEN "run" ELSE "the same seed gives another order")
                  [] o.o = "batch" ->
                       LET I == {i \in left : Is(i, o.d)}
                           k == CHOOSE i \in I : \A j \in I : i <= j
                       IN IF I = {} THEN UNCHANGED <<left, ids>> /\ Fin("not a batch of the data that is due")
                          ELSE /\ left' = left \ {k} /\ ids' = Append(ids, k)
                               /\ Fin(IF ~Tr.shuffle /\ \E j \in left : j < k THEN "batches out of order" ELSE "run")
=============================================================================
