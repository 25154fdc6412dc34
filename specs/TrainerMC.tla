------------------------------ MODULE TrainerMC ------------------------------
(* Design check of the training loop over all small configurations.           *)
EXTENDS Trainer, Json
CONSTANTS MaxBatches, Emit0
VARIABLES hist, base
vars == <<mvars, hist, base>>
Free == [n : {"A"}, ts : {"epoch", "update"}, iv : 1..3, at : {<<>>, <<1>>, <<2>>, <<4>>}, from : {0}, ret : {"num", "dict"}]
Free2 == [n : {"B"}, ts : {"epoch", "update"}, iv : 1..2, at : {<<>>, <<3>>}, from : {0}, ret : {"none", "zero"}]
Limit(k) == [n |-> "Z", ts |-> "epoch", iv |-> 1, at |-> <<>>, from |-> k, ret |-> "num"]
Orders(x, y, z) == {<<x, y, z>>, <<z, y, x>>, <<y, x, z>>}
Configs == {[hooks |-> hs, batches |-> [j \in 1..n |-> 1 + (j % 2)], runs |-> r] :
              hs \in UNION {Orders(f, g, Limit(k)) : f \in Free, g \in Free2, k \in {3}},
              n \in 1..MaxBatches, r \in {<<"train">>, <<"train", "train">>, <<"train", "eval", "train">>, <<"eval">>}}
Init == \E c \in Configs : MInit(c) /\ hist = <<>> /\ base = [ep |-> 0, up |-> 0]
Next == /\ MNext
        /\ hist' = (IF ev'.e \in {"sstart"} THEN <<ev'>> ELSE IF ev' = NoEv THEN hist ELSE Append(hist, ev'))
        /\ base' = (IF ev'.e = "sstart" THEN [ep |-> ep, up |-> up] ELSE base)
Count(P(_)) == Cardinality({k \in 1..Len(hist) : P(hist[k])})
Ended == pc = "idle" /\ run > 0 /\ Kind = "train"
InitialStop == \A k \in 1..Len(hist) : hist[k].e # "iter"
Multiples(from, to, iv) == Cardinality({x \in from..to : x % iv = 0})
(* every hook is called exactly at the multiples of its interval              *)
CalledWhenDue ==
  Ended /\ ~InitialStop => \A k \in 1..NH :
     Count(LAMBDA x : x.e = "call" /\ x.h = H[k].n)
       = IF H[k].ts = "epoch" THEN Multiples(base.ep, ep, H[k].iv) ELSE Multiples(base.up, up, H[k].iv)
CalledOnTime == ev.e = "call" => \E k \in 1..NH : H[k].n = ev.h /\ Due(k, H[k].ts) /\ ev.ep = ep /\ ev.up = up
(* batches in order, complete except possibly in the last epoch               *)
Runs == SelectSeq(hist, LAMBDA x : x.e = "run")
BatchesInOrder == \A k \in 1..Len(Runs) : Runs[k].b = ((k - 1) % Len(cfg.batches)) + 1
OneUpdatePerBatch == Ended => up - base.up = Len(Runs)
ModifiedAfterEach == Ended => Count(LAMBDA x : x.e = "wm") = Len(Runs)
(* after a request to stop no further batch is presented                      *)
Halts == [][pc = "batch" /\ pc' = "wm" => ~stop]_vars
Ends == <>(pc = "idle" /\ run = Len(cfg.runs))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EmitState == ~Emit0 \/ ~(pc = "idle" /\ run = 0) \/ PrintT("@@" \o ToJson(cfg))
=============================================================================
