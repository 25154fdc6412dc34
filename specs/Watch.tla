------------------------------- MODULE Watch --------------------------------
(* Training while being watched. The state of a training run is given by     *)
(* symbolic terms: what the parameters, the momentum, the running statistics *)
(* of normalization, the random stream and the buffers of the network were   *)
(* made of. Buffers are shared between training and watching.                *)
EXTENDS Integers, Sequences, FiniteSets
Zero == <<"0">>
Fresh(shape) == [shape |-> shape, in |-> Zero, ctx |-> Zero, act |-> Zero, del |-> Zero]
Begin == [par |-> <<"p">>, vel |-> Zero, stat |-> Zero, draws |-> 0, buf |-> Fresh(0), grad |-> Zero]
Core(s) == [par |-> s.par, vel |-> s.vel, stat |-> s.stat, draws |-> s.draws]

(* data of another shape gets new buffers, otherwise the rows before the     *)
(* first time step are cleared                                               *)
Provide(s, d) == [s EXCEPT !.buf = IF s.buf.shape # d.shape THEN [Fresh(d.shape) EXCEPT !.in = <<d.id>>]
                                   ELSE [s.buf EXCEPT !.in = <<d.id>>, !.ctx = Zero]]
Forward(s, training) ==
  LET a == <<"f", s.par, s.buf.in, s.buf.ctx, IF training THEN <<"t", s.draws>> ELSE <<"e", s.stat>>>> IN
  [s EXCEPT !.buf.act = a, !.buf.ctx = a,
            !.draws = IF training THEN @ + 1 ELSE @,
            !.stat = IF training THEN <<"s", @, a>> ELSE @]
(* deltas and gradients start at zero *)
Backward(s) == [s EXCEPT !.buf.del = <<"b", s.buf.act, s.par>>, !.grad = <<"g", s.buf.act, s.par>>]
Step(s) == LET v == <<"v", s.vel, s.grad>> IN [s EXCEPT !.vel = v, !.par = <<"u", @, v>>]
Update(s, d) == Step(Backward(Forward(Provide(s, d), TRUE)))

(* watching: statistics only read, evaluations use the buffers               *)
RECURSIVE Evaluate(_, _)
Evaluate(s, ds) == IF ds = <<>> THEN s ELSE Evaluate(Forward(Provide(s, Head(ds)), FALSE), Tail(ds))
Reads == {"params", "grads", "deltas", "inouts"}
Evals == {"loss", "scores"}
Seen(s, h) == IF h \in Reads THEN s ELSE Evaluate(s, <<[id |-> "v1", shape |-> 2], [id |-> "v2", shape |-> 1]>>)
(* what is reported is a function of the parameters (and statistics) only    *)
Report(s, h) == CASE h = "params" -> s.par
                  [] h = "grads" -> s.grad
                  [] h = "deltas" -> s.buf.del
                  [] h = "inouts" -> s.buf.act
                  [] OTHER -> Seen(s, h).buf.act
=============================================================================
