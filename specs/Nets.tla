-------------------------------- MODULE Nets --------------------------------
(* What every layer computes, as a function of what is wired to it.  All     *)
(* activations are [t][b] -> sequence of dual numbers (features flattened     *)
(* row-major); the derivative parts give, by forward differentiation, the     *)
(* derivative of everything with respect to one chosen scalar.                *)
EXTENDS Fix, FiniteSets

Map(f(_), n) == TLCEval([i \in 1..n |-> f(i)])
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Prod(s) == ProdTo(s, Len(s))
Last1(s) == s[Len(s)]

(* apply F to every (t, b) row of x                                           *)
Rows(F(_), x) == TLCEval([t \in 1..Len(x) |-> [b \in 1..Len(x[t]) |-> F(x[t][b])]])
Rows2(F(_, _), x, y) == TLCEval([t \in 1..Len(x) |-> [b \in 1..Len(x[t]) |-> F(x[t][b], y[t][b])]])
Each(F(_), row) == [i \in 1..Len(row) |-> F(row[i])]

(* ------------------------------------------------------------ dense ----- *)
Affine(W, bias, x, act) ==
  TLCEval([i \in 1..Len(bias) |-> DAct(act, DAdd(bias[i], DDot(W, (i - 1) * Len(x), x, Len(x))))])
Dense(L, P, x) == Rows(LAMBDA r : Affine(P.W, P.bias, r, L.act), x)

(* --------------------------------------------------------- recurrent ----- *)
(* t counts from L.t0, the steps before this pass that the context stands for *)
Inactive(P, t, i) == t > 0 /\ t % (DVal(P.timing[i]) \div S) # 0
RecRow(L, P, x, y, t) ==
  TLCEval([i \in 1..Len(P.bias) |->
     IF L.clock /\ Inactive(P, L.t0 + t, i) THEN y[i]
     ELSE DAct(L.act, DAdd(P.bias[i],
            DAdd(DDot(P.W, (i - 1) * Len(x), x, Len(x)),
                 DDot(P.R, (i - 1) * Len(y), y, Len(y)))))])
RECURSIVE RecScan(_, _, _, _, _)
RecScan(L, P, x, t, st) ==
  IF t > Len(x) THEN <<>>
  ELSE LET y == TLCEval([b \in 1..Len(x[t]) |-> RecRow(L, P, x[t][b], st[b], t - 1)])
       IN <<y>> \o RecScan(L, P, x, t + 1, y)

LstmUnit(L, P, x, s, t, i) ==
  LET n == Len(P.bz)
      pre(W, R, bb) == DAdd(bb[i], DAdd(DDot(W, (i - 1) * Len(x), x, Len(x)),
                                        DDot(R, (i - 1) * n, s.y, n)))
      z == DAct(L.act, pre(P.Wz, P.Rz, P.bz))
      ig == DSigmoid(DAdd(pre(P.Wi, P.Ri, P.bi), DMul(P.pi[i], s.c[i])))
      fg == DSigmoid(DAdd(pre(P.Wf, P.Rf, P.bf), DMul(P.pf[i], s.c[i])))
      c == DAdd(DMul(ig, z), DMul(fg, s.c[i]))
      og == DSigmoid(DAdd(pre(P.Wo, P.Ro, P.bo), DMul(P.po[i], c)))
      y == DMul(og, DAct(L.act, c))
  IN IF L.clock /\ Inactive(P, L.t0 + t, i) THEN <<s.y[i], s.c[i]>> ELSE <<y, c>>
LstmRow(L, P, x, s, t) ==
  LET u == TLCEval([i \in 1..Len(P.bz) |-> LstmUnit(L, P, x, s, t, i)])
  IN [y |-> TLCEval([i \in 1..Len(u) |-> u[i][1]]), c |-> TLCEval([i \in 1..Len(u) |-> u[i][2]])]
RECURSIVE LstmScan(_, _, _, _, _)
LstmScan(L, P, x, t, st) ==
  IF t > Len(x) THEN <<>>
  ELSE LET s == TLCEval([b \in 1..Len(x[t]) |-> LstmRow(L, P, x[t][b], st[b], t - 1)])
       IN <<s>> \o LstmScan(L, P, x, t + 1, s)

(* ------------------------------------------------- batch normalisation --- *)
Chan(i, C) == ((i - 1) % C) + 1
(* sum over all rows and positions of channel c of g(value)                   *)
RECURSIVE SumPos(_, _, _, _)
SumPos(row, c, C, i) ==      \* positions c, c + C, ... up to i
  IF i < 1 THEN DZ ELSE DAdd(SumPos(row, c, C, i - C), row[i])
SumChan(x, c, C) ==
  DSum(TLCEval([t \in 1..Len(x) |->
         DSum(TLCEval([b \in 1..Len(x[t]) |-> SumPos(x[t][b], c, C, Len(x[t][b]) - C + c)]), Len(x[t]))]), Len(x))
BnCount(x, C) == Len(x) * Len(x[1]) * (Len(x[1][1]) \div C)
BnStats(L, x) ==
  LET C == Last1(L.fs)
      m == BnCount(x, C)
      mean == TLCEval([c \in 1..C |-> DDivInt(SumChan(x, c, C), m)])
      cen == TLCEval(Rows(LAMBDA r : [i \in 1..Len(r) |-> DSub(r[i], mean[Chan(i, C)])], x))
      sq == TLCEval(Rows(LAMBDA r : [i \in 1..Len(r) |-> DMul(r[i], r[i])], cen))
      sd == TLCEval([c \in 1..C |-> DSqrt(DAdd(D0(L.eps), DDivInt(SumChan(sq, c, C), m)))])
  IN [mean |-> mean, cen |-> cen, sd |-> sd]
BnOut(L, P, cen, sd) ==
  LET C == Last1(L.fs)
  IN Rows(LAMBDA r : [i \in 1..Len(r) |->
            DAdd(P.beta[Chan(i, C)], DMul(P.gamma[Chan(i, C)], DDiv(r[i], sd[Chan(i, C)])))], cen)
BnRunning(L, old, new) ==
  [c \in 1..Len(old) |-> FMul(L.decay, old[c]) + FMul(S - L.decay, new[c])]

(* ------------------------------------------------- convolution, pooling -- *)
(* L.fs = <<h, w, c>> of the input, L.os = <<oh, ow, f>>, k, s, pad           *)
Pix(L, x, y0, x0, ch) ==
  IF y0 < 0 \/ x0 < 0 \/ y0 >= L.fs[1] \/ x0 >= L.fs[2] THEN DZ
  ELSE x[(y0 * L.fs[2] + x0) * L.fs[3] + ch]
OutPos(L, o) == [f |-> Chan(o, L.os[3]),
                 y |-> ((o - 1) \div L.os[3]) \div L.os[2],
                 x |-> ((o - 1) \div L.os[3]) % L.os[2]]
RECURSIVE ConvSum(_, _, _, _, _)
ConvSum(L, W, x, p, j) ==   \* j-th element of the kernel (row-major kx, ky, c)
  IF j = 0 THEN DZ
  ELSE LET C == L.fs[3]
           ch == Chan(j, C)
           ky == ((j - 1) \div C) % L.k[2]
           kx == ((j - 1) \div C) \div L.k[2]
           K == L.k[1] * L.k[2] * C
       IN DAdd(ConvSum(L, W, x, p, j - 1),
               DMul(W[(p.f - 1) * K + j],
                    Pix(L, x, p.y * L.s[1] + kx - L.pad, p.x * L.s[2] + ky - L.pad, ch)))
ConvRow(L, P, x) ==
  TLCEval([o \in 1..Prod(L.os) |->
     LET p == OutPos(L, o)
     IN DAct(L.act, DAdd(P.bias[p.f], ConvSum(L, P.W, x, p, L.k[1] * L.k[2] * L.fs[3])))])
(* the part of the window inside the image                                    *)
Window(L, p) ==
  {q \in (0..(L.fs[1] - 1)) \X (0..(L.fs[2] - 1)) :
     /\ q[1] >= p.y * L.s[1] - L.pad /\ q[1] < p.y * L.s[1] - L.pad + L.k[1]
     /\ q[2] >= p.x * L.s[2] - L.pad /\ q[2] < p.x * L.s[2] - L.pad + L.k[2]}
RECURSIVE WindowSum(_, _, _, _)
WindowSum(L, x, Q, ch) ==
  IF Q = {} THEN DZ
  ELSE LET q == CHOOSE q \in Q : TRUE
       IN DAdd(Pix(L, x, q[1], q[2], ch), WindowSum(L, x, Q \ {q}, ch))
PoolRow(L, x) ==
  TLCEval([o \in 1..Prod(L.os) |->
     LET p == OutPos(L, o)
         Q == Window(L, p)
     IN IF Q = {} THEN DZ
        ELSE IF L.pool = "max"
        THEN LET q == CHOOSE q \in Q : \A r \in Q :
                        DVal(Pix(L, x, r[1], r[2], p.f)) <= DVal(Pix(L, x, q[1], q[2], p.f))
             IN Pix(L, x, q[1], q[2], p.f)
        ELSE DDivInt(WindowSum(L, x, Q, p.f), Cardinality(Q))])

(* -------------------------------------------------------------- losses --- *)
(* softmax over groups of C consecutive features                              *)
RECURSIVE MaxTo(_, _, _)
MaxTo(r, off, n) == IF n = 1 THEN DVal(r[off + 1])
                    ELSE LET m == MaxTo(r, off, n - 1) IN IF DVal(r[off + n]) > m THEN DVal(r[off + n]) ELSE m
SoftmaxRow(r, C) ==
  LET G == Len(r) \div C
      mx == TLCEval([g \in 1..G |-> MaxTo(r, (g - 1) * C, C)])
      e == TLCEval([i \in 1..Len(r) |-> DExp(DSub(r[i], D0(mx[((i - 1) \div C) + 1])))])
      z == TLCEval([g \in 1..G |-> DSum([j \in 1..C |-> e[(g - 1) * C + j]], C)])
  IN TLCEval([i \in 1..Len(r) |-> DDiv(e[i], z[((i - 1) \div C) + 1])])
(* the losses never exceed -ln(10^-6); their derivatives are not cut           *)
MaxLoss == 14486606
Capped(a) == IF a[1] > MaxLoss THEN <<MaxLoss, a[2]>> ELSE a
SoftmaxLoss(r, t, C) ==
  LET mx == TLCEval([g \in 1..Len(t) |-> D0(MaxTo(r, (g - 1) * C, C))])
      z == TLCEval([g \in 1..Len(t) |-> DLn(DSum([j \in 1..C |-> DExp(DSub(r[(g - 1) * C + j], mx[g]))], C))])
  IN TLCEval([g \in 1..Len(t) |->
       Capped(DAdd(z[g], DSub(mx[g], r[(g - 1) * C + (DVal(t[g]) \div S) + 1])))])
(* ln(1 + exp(x))                                                             *)
DSoftplus(a) == LET x == a[1] v == FLn(S + FExp(-FAbs(x)))
                IN <<IF x > 0 THEN x + v ELSE v, IF a[2] = 0 THEN 0 ELSE FMul(FSigmoid(x), a[2])>>
SigmoidLoss(x, t) ==   \* elementwise, t is 0 or 1
  TLCEval([i \in 1..Len(x) |-> Capped(DSoftplus(IF DVal(t[i]) = 0 THEN x[i] ELSE DNeg(x[i])))])
BinLoss(y, t) ==       \* elementwise, t is 0 or 1
  TLCEval([i \in 1..Len(y) |-> IF DVal(t[i]) = 0 THEN DNeg(DLn(DSub(DOne, y[i]))) ELSE DNeg(DLn(y[i]))])
RECURSIVE RowSum(_, _)
RowSum(r, n) == IF n = 0 THEN DZ ELSE DAdd(RowSum(r, n - 1), r[n])
Total(x) == DSum(TLCEval([t \in 1..Len(x) |->
               DSum(TLCEval([b \in 1..Len(x[t]) |-> RowSum(x[t][b], Len(x[t][b]))]), Len(x[t]))]), Len(x))
DAbs(a) == IF a[1] > 0 THEN a ELSE IF a[1] < 0 THEN DNeg(a) ELSE DZ

(* ---------------------------------------------------------- small ones --- *)
MergeRow(L, a, b) ==
  LET p == L.la  q == L.lb       \* sizes of the last dimension
  IN [i \in 1..(Len(a) + Len(b)) |->
        LET g == (i - 1) \div (p + q)  j == ((i - 1) % (p + q)) + 1
        IN IF j <= p THEN a[g * p + j] ELSE b[g * q + j - p]]
MaskRow(L, r, m) ==
  [i \in 1..Len(r) |-> DMul(r[i], DCut(IF Len(m) = 1 THEN m[1]
                                       ELSE IF Len(m) = Len(r) THEN m[i]
                                       ELSE m[((i - 1) \div Last1(L.fs)) + 1]))]
(* dropout: the mask is what the observed output reveals                      *)
DropRow(L, r, obs) ==
  [i \in 1..Len(r) |-> IF L.prob = 0 THEN r[i] ELSE IF obs[i] = 0 THEN DZ ELSE DDiv(r[i], D0(S - L.prob))]

(* inputs for which fixed point numbers cannot decide what the layer computes *)
Undecided(L, I) ==
  LET far(F(_)) == \E t \in 1..Len(I.default) : \E b \in 1..Len(I.default[t]) :
                     \E i \in 1..Len(I.default[t][b]) : F(DVal(I.default[t][b][i]))
  IN CASE L.type = "SigmoidCE" -> far(LAMBDA v : FAbs(v) > 11 * S + S \div 2)
       [] L.type = "BinomialCrossEntropy" -> far(LAMBDA v : v < S \div 64 \/ v > S - S \div 64)
       [] OTHER -> FALSE
(* ------------------------------------------------------------------------ *)
(* One layer.  I: record of inputs, P: record of (dual) parameters, st: state *)
(* at t = -1 (per sequence), tr: training pass, ob: observed outputs (only    *)
(* consulted for random masks).  Result: outputs, new state, new parameters.  *)
Layer(L, I, P, st, tr, ob) ==
  LET x == IF "default" \in DOMAIN I THEN I.default ELSE <<>>
      pure(o) == [o |-> o, st |-> <<>>, par |-> <<>>]
  IN CASE L.type = "FullyConnected" -> pure([default |-> Dense(L, P, x)])
       [] L.type = "Recurrent" ->
            LET y == RecScan(L, P, x, 1, st)
            IN [o |-> [default |-> y], st |-> Last1(y), par |-> <<>>]
       [] L.type = "Lstm" ->
            LET s == LstmScan(L, P, x, 1, st)
            IN [o |-> [default |-> TLCEval([t \in 1..Len(s) |-> [b \in 1..Len(s[t]) |-> s[t][b].y]])],
                st |-> Last1(s), par |-> <<>>]
       [] L.type = "NoOp" -> pure([default |-> x])
       [] L.type = "DeltasScaling" ->
            pure([default |-> Rows(LAMBDA r : Each(LAMBDA a : <<a[1], FMul(L.factor, a[2])>>, r), x)])
       [] L.type = "Elementwise" ->
            pure([default |-> Rows(LAMBDA r : Each(LAMBDA a : DAct(L.act, a), r), x)])
       [] L.type = "Dropout" ->
            pure([default |-> IF tr
                     THEN TLCEval([t \in 1..Len(x) |-> [b \in 1..Len(x[t]) |-> DropRow(L, x[t][b], ob.default[t][b])]])
                     ELSE x])
       [] L.type = "Highway" ->
            pure([default |-> TLCEval([t \in 1..Len(I.x) |-> [b \in 1..Len(I.x[t]) |->
                    [i \in 1..Len(I.x[t][b]) |->
                       DAdd(DMul(I.T[t][b][i], I.H[t][b][i]),
                            DMul(DSub(DOne, I.T[t][b][i]), I.x[t][b][i]))]]])])
       [] L.type = "Mask" -> pure([default |-> Rows2(LAMBDA r, m : MaskRow(L, r, m), x, I.mask)])
       [] L.type \in {"Merge", "Join"} -> pure([default |-> Rows2(LAMBDA a, b : MergeRow(L, a, b), I.inputs_1, I.inputs_2)])
       [] L.type = "SquaredDifference" ->
            pure([default |-> Rows2(LAMBDA a, b : [i \in 1..Len(a) |->
                    DMul(DSub(a[i], b[i]), DSub(a[i], b[i]))], I.inputs_1, I.inputs_2)])
       [] L.type = "SquaredError" ->
            pure([predictions |-> Rows(LAMBDA r : Each(DCut, r), x),
                  loss |-> Rows2(LAMBDA a, b : [i \in 1..Len(a) |->
                    LET e == DSub(a[i], DCut(b[i])) IN DDivInt(DMul(e, e), 2)], x, I.targets)])
       [] L.type = "SoftmaxCE" ->
            LET p == Rows(LAMBDA r : SoftmaxRow(r, Last1(L.fs)), x)
            IN pure([predictions |-> Rows(LAMBDA r : Each(DCut, r), p),
                     loss |-> Rows2(LAMBDA a, b : SoftmaxLoss(a, b, Last1(L.fs)), x, I.targets)])
       [] L.type = "SigmoidCE" ->
            LET p == Rows(LAMBDA r : Each(DSigmoid, r), x)
            IN pure([predictions |-> Rows(LAMBDA r : Each(DCut, r), p),
                     loss |-> Rows2(SigmoidLoss, x, I.targets)])
       [] L.type = "BinomialCrossEntropy" ->
            pure([default |-> Rows2(LAMBDA a, b : LET e == BinLoss(a, b) IN <<RowSum(e, Len(e))>>, x, I.targets)])
       [] L.type = "L1Decay" -> pure([loss |-> Rows(LAMBDA r : <<RowSum(Each(DAbs, r), Len(r))>>, x)])
       [] L.type = "L2Decay" ->
            pure([loss |-> Rows(LAMBDA r : <<DDivInt(RowSum(Each(LAMBDA a : DMul(a, a), r), Len(r)), 2)>>, x)])
       [] L.type = "BatchNorm" ->
            IF tr THEN LET s == BnStats(L, x)
                       IN [o |-> [default |-> BnOut(L, P, s.cen, s.sd)], st |-> <<>>,
                           par |-> [mu |-> BnRunning(L, Each(DVal, P.mu), Each(LAMBDA a : -a[1], s.mean)),
                                    sigma |-> BnRunning(L, Each(DVal, P.sigma), Each(DVal, s.sd))]]
            ELSE pure([default |-> BnOut(L, P,
                         Rows(LAMBDA r : [i \in 1..Len(r) |-> DAdd(r[i], P.mu[Chan(i, Last1(L.fs))])], x), P.sigma)])
       [] L.type = "Convolution2D" -> pure([default |-> Rows(LAMBDA r : ConvRow(L, P, r), x)])
       [] L.type = "Pooling2D" -> pure([default |-> Rows(LAMBDA r : PoolRow(L, r), x)])
       [] L.type = "Loss" ->
            pure([loss |-> <<<<<<DDivInt(DScale(L.importance, Total(x)), IF L.perbatch THEN Len(x[1]) ELSE 1)>>>>>>])
=============================================================================
