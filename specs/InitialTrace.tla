----------------------------- MODULE InitialTrace -----------------------------
(* Judges histories of initializations of a real network.                     *)
EXTENDS Initial, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l, verdict
Tr == Traces[tid]
Tree == Tr.tree
TInit == tid \in DOMAIN Traces /\ l = 0 /\ verdict = "run"
Fin(v) == verdict' = v /\ IF v = "run" THEN TRUE ELSE PrintT("@V" \o ToJson([t |-> tid, v |-> v, l |-> l]))
Leaf(id) == Tr.leaves[id]
Pos == Positions(Tree)
Shape(q) == Tree[q[1]].views[q[2]].shape
R(o, q) == About(Tree, o.refs, q[1], q[2])
The(s) == CHOOSE x \in s : TRUE
(* the leaf in force for a view, 0 if none works                              *)
Effective(o, q) ==
  LET r == R(o, q) c == Chosen(r)
  IN IF c = {} \/ Ambiguous(r) THEN 0
     ELSE IF ~Fails(Leaf(The(c)), Shape(q)) THEN The(c)
     ELSE IF r.f # {} /\ ~Fails(Leaf(The(r.f)), Shape(q)) THEN The(r.f) ELSE 0
Legal(o) == AllMatch(Tree, o.refs) /\ \A q \in Pos : Effective(o, q) # 0
V(o, q) == o.after[q[1]][q[2]]
Prev(q) == IF l = 0 THEN Tr.before[q[1]][q[2]] ELSE V(Tr.ev[l], q)
Same(a, b) == \A q \in Pos : V(a, q) = V(b, q)
HasRandom(o) == \E q \in Pos : Random(Leaf(Effective(o, q))) /\ Len(V(o, q)) >= 2 /\ Leaf(Effective(o, q)).k \notin {"echo", "orth"}
(* a large parameter fills the range its rule documents                       *)
Mean(v) == SumTo([i \in 1..Len(v) |-> v[i] \div 512], Len(v)) \div Len(v)
Var(v, m) == SumTo([i \in 1..Len(v) |-> FMul((v[i] - m) \div 16, (v[i] - m) \div 16)], Len(v)) \div Len(v)
Fills(v, lo, hi) == LET w == (hi - lo) \div 20
                    IN (\E i \in 1..Len(v) : v[i] <= lo + w) /\ (\E i \in 1..Len(v) : v[i] >= hi - w)
                       /\ FAbs(Mean(v) - ((lo + hi) \div 1024)) <= (w \div 100)
Spread(L, sh, v) ==
  CASE L.k = "uniform" -> Fills(v, L.lo, L.hi)
    [] L.k = "fanin" -> LET b == FSqrt(L.scale2 \div Prod(sh, 2)) IN Fills(v, -b, b)
    [] L.k = "faninout" -> LET b == FSqrt(L.scale2 \div (sh[1] + Prod(sh, 2))) IN Fills(v, -b, b)
    [] L.k = "normal" -> /\ FAbs(Mean(v) - (L.mean \div 512)) <= (L.std \div 512) \div 3
                         /\ LET e == FMul(L.std \div 16, L.std \div 16)
                            IN FAbs(Var(v, L.mean) - e) <= (e \div 20) * 9
    [] L.k = "walk" ->   \* divided by the size or (the paper) by its root
         LET n == sh[1]
             w == [i \in 1..Len(v) |-> v[i] * n]
             lo == FMul(WalkLo(L, n) \div 16, WalkLo(L, n) \div 16)
             hi == FMul(WalkHi(L, n) \div 16, WalkHi(L, n) \div 16)
             x == Var(w, 0)
             In(y) == y >= (lo * 11) \div 20 /\ y <= (hi * 29) \div 20
         IN In(x) \/ In(x \div n)
    [] L.k = "ident" ->
         LET w == [i \in 1..Len(v) |-> v[i] - (IF (i - 1) % (sh[2] + 1) = 0 THEN L.v ELSE 0)]
             e == FMul(L.std, L.std)
             x == SumTo([i \in 1..Len(v) |-> FMul(w[i], w[i])], Len(v)) \div Len(v)
         IN FAbs(x - e) <= (e \div 20) * 9 + 3
    [] OTHER -> TRUE
\* random blocks of equal range are drawn independently
Blocks(L, v) == L.k = "lstmopt" =>
  LET q == Len(v) \div 4
  IN \A a, b \in 1..4 : a < b /\ L.vals[a] < L.his[a] /\ L.vals[a] = L.vals[b] /\ L.his[a] = L.his[b] =>
        \E i \in 1..q : v[(a - 1) * q + i] # v[(b - 1) * q + i]
Judge(o) ==
  IF ~Legal(o)
  THEN IF ~o.rejected THEN "unmatched, missing or ambiguous references are accepted"
       ELSE IF \E q \in Pos : V(o, q) # Prev(q) THEN "a rejected initialization changed parameters"
       ELSE "run"
  ELSE IF o.rejected THEN "proper references are rejected"
  ELSE IF \E q \in Pos : ~Is(Leaf(Effective(o, q)), Shape(q), V(o, q)) THEN "a parameter does not follow its rule"
  ELSE IF \E q \in Pos : Len(V(o, q)) >= 400 /\ ~Spread(Leaf(Effective(o, q)), Shape(q), V(o, q)) THEN "not the documented distribution"
  ELSE IF \E q \in Pos : Len(V(o, q)) >= 100 /\ ~Drawn(Leaf(Effective(o, q)), Shape(q), V(o, q)) THEN "not the documented distribution: connections are not drawn"
  ELSE IF \E q \in Pos : ~Blocks(Leaf(Effective(o, q)), V(o, q)) THEN "blocks got the same random values"
  ELSE IF ~o.refsame THEN "the given references were altered"
  ELSE IF \E q, p \in Pos : q # p /\ Len(V(o, q)) >= 3 /\ Shape(q) = Shape(p) /\ Leaf(Effective(o, q)).k \in {"uniform", "normal"} /\ V(o, q) = V(o, p)
       THEN "two parameters got the same random values"
  ELSE IF \E i \in 1..l : o.seed >= 0 /\ Tr.ev[i].seed = o.seed /\ Tr.ev[i].rid = o.rid /\ ~Same(o, Tr.ev[i])
       THEN "the same seed gives other parameters"
  ELSE IF \E i \in 1..l : Tr.ev[i].rid = o.rid /\ (Tr.ev[i].seed # o.seed \/ o.seed < 0) /\ HasRandom(o) /\ Same(o, Tr.ev[i])
       THEN "another seed gives the same parameters"
  ELSE "run"
TNext ==
  /\ verdict = "run" /\ UNCHANGED tid
  /\ IF l = Len(Tr.ev) THEN UNCHANGED l /\ Fin("ok")
     ELSE LET o == Tr.ev[l + 1] IN l' = l + 1 /\ Fin(Judge(o))
=============================================================================
