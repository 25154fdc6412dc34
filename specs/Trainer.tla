------------------------------- MODULE Trainer -------------------------------
(* The training loop as a state machine that emits one visible event per      *)
(* step (or none).  cfg.hooks: sequence of                                    *)
(*   [n name, ts "epoch"/"update", iv interval, at calls at which it asks to  *)
(*    stop, from call from which on it always does (0: never), ret what it    *)
(*    returns: "none"/"num"/"dict"/"zero"..]                                    *)
(* cfg.batches: sizes; cfg.runs: sequence of "train" / "eval" / "bad".        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, pc, ph, i, ep, up, b, stop, calls, run, logs, results, lossw, seen, ev
mvars == <<cfg, pc, ph, i, ep, up, b, stop, calls, run, logs, results, lossw, seen, ev>>

NoEv == [e |-> "none"]
H == cfg.hooks
NH == Len(H)
MInit(c) == /\ cfg = c /\ pc = "idle" /\ ph = "" /\ i = 0 /\ ep = 0 /\ up = 0 /\ b = 0
            /\ stop = FALSE /\ calls = [k \in 1..Len(c.hooks) |-> 0] /\ run = 0
            /\ logs = <<>> /\ results = <<>> /\ lossw = 1 /\ seen = <<>> /\ ev = NoEv
(* what a hook call logs: entries <<path, value>>                             *)
RetVal(k, c) == k * 100 + c
Entries(k, c) ==
  LET h == H[k]
      v == RetVal(k, c)
  IN CASE h.ret = "none" -> <<>>
       [] h.ret = "num" -> <<<<h.n, v>>>>
       [] h.ret = "zero" -> <<<<h.n, c % 2>>>>
       [] h.ret = "flag" -> <<<<h.n, c % 2>>>>
       [] h.ret = "zeros" -> <<<<h.n \o ".a", 0>>, <<h.n \o ".b.c", v>>, <<h.n \o ".b.d", 0>>>>
       [] h.ret = "dict" -> <<<<h.n \o ".a", v>>, <<h.n \o ".b.c", v + 1>>>>
Stops(k, c) == (\E j \in 1..Len(H[k].at) : H[k].at[j] = c) \/ (H[k].from > 0 /\ c >= H[k].from)
Due(k, ts) == H[k].ts = ts /\ (IF ts = "epoch" THEN ep ELSE up) % H[k].iv = 0

Begin == /\ pc = "idle" /\ run < Len(cfg.runs)
         /\ run' = run + 1 /\ stop' = FALSE
         /\ CASE cfg.runs[run + 1] = "train" -> pc' = "hstart" /\ i' = 1 /\ ev' = [e |-> "sstart"]
              [] cfg.runs[run + 1] = "eval" -> pc' = "hstart" /\ i' = 1 /\ ev' = NoEv
              [] OTHER -> pc' = "idle" /\ i' = i /\ ev' = [e |-> "refused"]
         /\ UNCHANGED <<cfg, ph, ep, up, b, calls, logs, results, lossw, seen>>
Kind == cfg.runs[run]
HStart == /\ pc = "hstart"
          /\ IF i <= NH THEN i' = i + 1 /\ pc' = pc /\ ph' = ph /\ ev' = [e |-> "start", h |-> H[i].n]
             ELSE i' = 1 /\ pc' = "emit" /\ ph' = (IF Kind = "eval" THEN "ve" ELSE "iu") /\ ev' = NoEv
          /\ UNCHANGED <<cfg, ep, up, b, stop, calls, run, logs, results, lossw, seen>>
Ts == IF ph \in {"iu", "u", "vu"} THEN "update" ELSE "epoch"
Emit == /\ pc = "emit" /\ i <= NH
        /\ i' = i + 1
        /\ IF Due(i, Ts)
           THEN LET c == calls[i] + 1
                IN /\ calls' = [calls EXCEPT ![i] = c]
                   /\ stop' = (stop \/ Stops(i, c))
                   /\ ev' = [e |-> "call", h |-> H[i].n, ep |-> ep, up |-> up]
                   /\ IF Kind = "eval" THEN results' = results \o Entries(i, c) /\ logs' = logs
                      ELSE logs' = logs \o Entries(i, c) /\ results' = results
           ELSE ev' = NoEv /\ UNCHANGED <<calls, stop, logs, results>>
        /\ UNCHANGED <<cfg, pc, ph, ep, up, b, run, lossw, seen>>
EmitEnd == /\ pc = "emit" /\ i > NH /\ ev' = NoEv
           /\ CASE ph = "iu" -> IF stop THEN pc' = "done" /\ UNCHANGED <<ph, i>> ELSE ph' = "ie" /\ i' = 1 /\ pc' = pc
                [] ph = "ie" -> pc' = (IF stop THEN "done" ELSE "epoch") /\ UNCHANGED <<ph, i>>
                [] ph = "u" -> pc' = (IF stop THEN "roll" ELSE "batch") /\ UNCHANGED <<ph, i>>
                [] ph = "e" -> pc' = (IF stop THEN "done" ELSE "epoch") /\ UNCHANGED <<ph, i>>
                [] ph = "ve" -> ph' = "vu" /\ i' = 1 /\ pc' = pc
                [] ph = "vu" -> pc' = "done" /\ UNCHANGED <<ph, i>>
           /\ UNCHANGED <<cfg, ep, up, b, stop, calls, run, logs, results, lossw, seen>>
Epoch == /\ pc = "epoch" /\ ep' = ep + 1 /\ b' = 0 /\ pc' = "batch" /\ seen' = <<>>
         /\ ev' = [e |-> "iter"]
         /\ UNCHANGED <<cfg, ph, i, up, stop, calls, run, logs, results, lossw>>
Batch == /\ pc = "batch"
         /\ IF b < Len(cfg.batches)
            THEN /\ b' = b + 1 /\ up' = up + 1 /\ pc' = "wm"
                 /\ ev' = [e |-> "run", b |-> b + 1, w |-> lossw]
                 /\ seen' = Append(seen, <<cfg.batches[b + 1], (b + 1) * lossw>>)
            ELSE pc' = "roll" /\ ev' = NoEv /\ UNCHANGED <<b, up, seen>>
         /\ UNCHANGED <<cfg, ph, i, ep, stop, calls, run, logs, results, lossw>>
(* the modifier of the weight adds one to it                                  *)
Modify == /\ pc = "wm" /\ pc' = "emit" /\ ph' = "u" /\ i' = 1 /\ lossw' = lossw + 1
          /\ ev' = [e |-> "wm"]
          /\ UNCHANGED <<cfg, ep, up, b, stop, calls, run, logs, results, seen>>
RECURSIVE SumLoss(_, _)
SumLoss(s, k) == IF k = 0 THEN 0 ELSE s[k][1] * s[k][2] + SumLoss(s, k - 1)
RECURSIVE SumSize(_, _)
SumSize(s, k) == IF k = 0 THEN 0 ELSE s[k][1] + SumSize(s, k - 1)
(* the mean loss over the sequences of the epoch, in thousandths              *)
Rolling == (1000 * SumLoss(seen, Len(seen))) \div SumSize(seen, Len(seen))
Roll == /\ pc = "roll" /\ logs' = Append(logs, <<"rolling_training.total_loss", Rolling>>)
        /\ pc' = "emit" /\ ph' = "e" /\ i' = 1 /\ ev' = NoEv
        /\ UNCHANGED <<cfg, ep, up, b, stop, calls, run, results, lossw, seen>>
Done == /\ pc = "done" /\ pc' = "idle"
        /\ ev' = [e |-> "return", ep |-> ep, up |-> up]
        /\ UNCHANGED <<cfg, ph, i, ep, up, b, stop, calls, run, logs, results, lossw, seen>>
MNext == Begin \/ HStart \/ Emit \/ EmitEnd \/ Epoch \/ Batch \/ Modify \/ Roll \/ Done
=============================================================================
