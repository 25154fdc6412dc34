--------------------------- MODULE TransformsTrace ---------------------------
(* Judges pipelines of real iterators: per batch the data after every stage.  *)
EXTENDS Transforms, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
Tr == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
K == Len(Tr.stages)
BadStage(o) == {i \in 1..K : ~Stage(Tr.stages[i], o.outs[i], o.outs[i + 1])}
Batch(o) ==
  IF Len(o.outs) # K + 1 THEN "a stage was left out"
  ELSE IF o.outs[1] # Tr.src[o.b] THEN "the underlying data changed"
  ELSE IF o.after # o.outs THEN "a batch was altered after it was handed out"
  ELSE IF BadStage(o) # {} THEN "not the documented transformation: " \o Tr.stages[CHOOSE i \in BadStage(o) : \A j \in BadStage(o) : i <= j].k
  ELSE "run"
(* ---- statistics of one stage over one large batch of 3-D data             *)
N3(x) == Len(x) * Len(x[1]) * Len(x[1][1])
GaussStat(p, x, y) ==
  LET D(a, b) == b - a - p.mean
      Q(a, b) == ((b - a - p.mean) \div 10) * ((b - a - p.mean) \div 10)
      n == N3(x)
      s == Sum3(Map3(x, y, D)) \div 10
      q == Sum3(Map3(x, y, Q))
      sd == p.std \div 10
  IN /\ Abs(s) <= 7 * sd * Isqrt(n, 60)
     /\ Abs(q \div n - sd * sd) * Isqrt(n, 60) <= 11 * sd * sd + 100 * sd
SnpStat(p, x, y) ==   \* the data avoid 0 and 1
  LET Sa(a, b) == IF b = One THEN 1 ELSE 0
      Pe(a, b) == IF b = 0 THEN 1 ELSE 0
      n == N3(x)
      Ok(c, pr) == (Abs(c - (n * pr) \div 1000) - 1) * (Abs(c - (n * pr) \div 1000) - 1) <= 49 * ((n * pr) \div 1000) + 49
  IN /\ Ok(Sum3(Map3(x, y, Sa)), (p.prob * p.ratio) \div 1000)
     /\ Ok(Sum3(Map3(x, y, Pe)), (p.prob * (1000 - p.ratio)) \div 1000)
FlipStat(p, x, y) ==
  LET n == Len(x[1])
      c == Cardinality({i \in 1..n : y[1][i] # x[1][i]})
      e == (n * p.prob) \div 1000
  IN (Abs(c - e) - 1) * (Abs(c - e) - 1) * 1000 <= 36 * e * (1000 - p.prob) + 1000
CropStat(p, x, y) ==  \* all positions occur
  \A rc \in CropChoices(x[1][1], p.h, p.w) :
     \E n \in 1..Len(x[1]) : y[1][n] = CropImg(x[1][n], p.h, p.w, rc[1], rc[2])
Stat(k, p, x, y) ==
  CASE k = "gauss" -> GaussStat(p, x, y)
    [] k = "snp" -> SnpStat(p, x, y)
    [] k = "flip" -> FlipStat(p, x, y)
    [] k = "crop" -> CropStat(p, x, y)
    [] OTHER -> TRUE
(* noise is drawn anew for every name and every batch                         *)
Noise(o, n) == LET x == o.outs[1][n] y == o.outs[2][n]
                   D(a, b) == b - a
               IN Map3(x, y, D)
Fresh(o) == Tr.stages[1].k = "gauss" =>
              \A n, m \in DOMAIN Tr.stages[1].p :
                 /\ n # m => Noise(o, n) # Noise(o, m)
                 /\ l > 0 => Noise(o, n) # Noise(Tr.ev[l], m)
b2i(k, u, v) == IF k = "gauss" THEN v - u ELSE IF v = One THEN 2 ELSE IF v = 0 THEN 1 ELSE 0
(* ... and for every time step, sequence and feature of a batch               *)
Pattern(o, n) == LET x == o.outs[1][n] y == o.outs[2][n]
                     D(u, v) == b2i(Tr.stages[1].k, u, v)
                 IN Map3(x, y, D)
Separate(o) == Tr.stages[1].k \in {"gauss", "snp"} =>
  \A n \in DOMAIN Tr.stages[1].p :
     LET P == Pattern(o, n)
         T == 1..Len(P) B == 1..Len(P[1]) F == 1..Len(P[1][1])
     IN Cardinality(T) * Cardinality(B) * Cardinality(F) >= 1000 =>
        /\ \A t, u \in T : t < u => P[t] # P[u]
        /\ \A b, c \in B : b < c => \E t \in T : P[t][b] # P[t][c]
        /\ \A f, g \in F : f < g => \E t \in T, b \in B : P[t][b][f] # P[t][b][g]
Statistics(o) ==
  IF \E n \in DOMAIN Tr.stages[1].p : ~Stat(Tr.stages[1].k, Tr.stages[1].p[n], o.outs[1][n], o.outs[2][n])
  THEN "not the documented distribution: " \o Tr.stages[1].k
  ELSE IF ~Fresh(o) \/ ~Separate(o) THEN "noise is repeated" ELSE "run"
Announced ==   \* names and shapes the last stage announces against what it yields
  \A i \in 1..(K + 1) : \A n \in DOMAIN Tr.shapes[i] : Tr.shapes[i][n] = Tr.yielded[i][n]
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF Tr.refused # Tr.bad THEN UNCHANGED l /\ Fin(IF Tr.refused THEN "a proper use is refused" ELSE "an improper use is accepted")
     ELSE IF Tr.bad THEN UNCHANGED l /\ Fin("ok")
     ELSE IF l = Len(Tr.ev)
          THEN UNCHANGED l /\ Fin(IF Len(Tr.ev) # Tr.epochs * Len(Tr.src) THEN "wrong number of batches"
                                  ELSE IF Tr.length # Len(Tr.src) THEN "wrong length announced"
                                  ELSE IF ~Announced THEN "wrong shapes announced"
                                  ELSE IF ~Tr.again THEN "the same seed gives another result"
                                  ELSE "ok")
     ELSE LET o == Tr.ev[l + 1]
              v == Batch(o)
          IN l' = l + 1 /\ Fin(IF v = "run" /\ Tr.stat THEN Statistics(o) ELSE v)
=============================================================================
