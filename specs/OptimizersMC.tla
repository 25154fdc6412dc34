--------------------------- MODULE OptimizersMC ---------------------------
(* Design check on the loss p^2 / 2 - c p: the update rules side by side.     *)
EXTENDS Optimizers, Json
CONSTANTS MaxSteps
VARIABLES lr, mom, n, sgd, mo, ne, nu, runs
vars == <<lr, mom, n, sgd, mo, ne, nu, runs>>
G(p) == <<p[1] - S>>
P0 == <<3 * S>>
Opt(k, sc) == [kind |-> k, scale |-> sc]
St0 == [p |-> P0, v |-> <<0>>, at |-> P0]
Init == /\ lr \in {S \div 4, S \div 2} /\ mom \in {0, S \div 4, S \div 2, 3 * (S \div 4)}
        /\ n = 0 /\ runs = 0
        /\ sgd = St0 /\ mo = St0 /\ ne = St0 /\ nu = St0
Train == /\ n < MaxSteps /\ n' = n + 1
         /\ sgd' = Step(Opt("sgd", TRUE), lr, mom, sgd.p, sgd.v, G)
         /\ mo' = Step(Opt("momentum", TRUE), lr, mom, mo.p, mo.v, G)
         /\ nu' = Step(Opt("momentum", FALSE), lr, mom, nu.p, nu.v, G)
         /\ ne' = Step(Opt("nesterov", TRUE), lr, mom, ne.p, ne.v, G)
         /\ UNCHANGED <<lr, mom, runs>>
Restart == /\ runs < 1 /\ n > 0 /\ runs' = runs + 1
           /\ sgd' = [sgd EXCEPT !.v = <<0>>] /\ mo' = [mo EXCEPT !.v = <<0>>]
           /\ ne' = [ne EXCEPT !.v = <<0>>] /\ nu' = [nu EXCEPT !.v = <<0>>]
           /\ UNCHANGED <<lr, mom, n>>
Next == Train \/ Restart
(* without momentum all rules are gradient descent                            *)
NoMomentumIsSgd == mom = 0 => mo.p = sgd.p /\ ne.p = sgd.p /\ nu.p = sgd.p
(* velocity is the last displacement of the parameters for momentum           *)
Diff(a, b) == FAbs(a[1] - b[1])
FirstStepScaled == (n = 1 /\ runs = 0) => mo.p[1] = P0[1] - FMul(FMul(lr, S - mom), G(P0)[1])
NesterovLooksAhead == n > 1 /\ runs = 0 /\ mom > 0 => ne.at # mo.at
SgdDescends == Diff(sgd.p, <<S>>) <= Diff(P0, <<S>>)
=============================================================================
