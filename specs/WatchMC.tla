------------------------------ MODULE WatchMC -------------------------------
(* Every schedule of watching hooks, side by side with the run that nobody   *)
(* watches.                                                                  *)
EXTENDS Watch, TLC, Json
CONSTANTS MaxHooks, Batches, Epochs
VARIABLES hooks, s, bare, n, ep, todo, told
vars == <<hooks, s, bare, n, ep, todo, told>>
Hook == [h : Reads \cup {"loss"}, ts : {"epoch", "update"}, iv : {1, 2}]
Due(ts, c) == SelectSeq(hooks, LAMBDA x : x.ts = ts /\ c % x.iv = 0)
Init == /\ hooks = <<>> /\ s = Begin /\ bare = Begin /\ n = -1 /\ ep = 0 /\ todo = <<>> /\ told = {}
Choose == /\ n = -1 /\ Len(hooks) < MaxHooks /\ \E x \in Hook : hooks' = Append(hooks, x)
          /\ UNCHANGED <<s, bare, n, ep, todo, told>>
Start == /\ n = -1 /\ hooks # <<>> /\ n' = 0
         /\ todo' = Due("update", 0) \o Due("epoch", 0)
         /\ UNCHANGED <<hooks, s, bare, ep, told>>
Watching == /\ todo # <<>> /\ todo' = Tail(todo)
            /\ s' = Seen(s, todo[1].h)
            /\ told' = told \cup {[n |-> n, h |-> todo[1].h, x |-> Report(s, todo[1].h), par |-> s.par, stat |-> s.stat]}
            /\ UNCHANGED <<hooks, bare, n, ep>>
Batch(i) == [id |-> "b" \o ToString(i % Batches), shape |-> IF i % Batches = Batches - 1 THEN 1 ELSE 2]
Train == /\ n >= 0 /\ todo = <<>> /\ n < Batches * Epochs /\ n' = n + 1
         /\ s' = Update(s, Batch(n)) /\ bare' = Update(bare, Batch(n))
         /\ ep' = IF (n + 1) % Batches = 0 THEN ep + 1 ELSE ep
         /\ todo' = Due("update", n + 1) \o (IF (n + 1) % Batches = 0 THEN Due("epoch", (n + 1) \div Batches) ELSE <<>>)
         /\ UNCHANGED <<hooks, told>>
Next == Choose \/ Start \/ Watching \/ Train
Spec == Init /\ [][Next]_vars
(* watching changes nothing *)
Undisturbed == Core(s) = Core(bare)
(* what evaluations report depends on parameters and statistics alone        *)
SameLoss == \A a, b \in told : a.h = "loss" /\ b.h = "loss" /\ a.par = b.par /\ a.stat = b.stat => a.x = b.x
(* parameters and gradients that are reported are those of the bare run      *)
TrueParams == \A a \in told : a.n = n /\ a.h = "params" => a.x = bare.par
TrueGrads == \A a \in told : a.n = n /\ a.h = "grads" => a.x = bare.grad
Emit == IF n = Batches * Epochs /\ todo = <<>> THEN PrintT("@@" \o ToJson(hooks)) ELSE TRUE
=============================================================================
