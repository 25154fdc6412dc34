-------------------------------- MODULE Initial --------------------------------
(* What the initializers put into a parameter of a given shape. Values are in *)
(* the fixed point of Fix.tla, row by row.                                    *)
EXTENDS References, Fix
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i + 1)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Square(sh) == Len(sh) = 2 /\ sh[1] = sh[2]
Fails(L, sh) ==
  CASE L.k = "array" -> L.shape # sh
    [] L.k = "ident" -> Len(sh) # 2 \/ (L.square /\ sh[1] # sh[2])
    [] L.k = "echo" -> ~Square(sh)
    [] L.k = "walk" -> ~Square(sh)
    [] L.k \in {"fanin", "faninout"} -> Len(sh) < 2
    [] L.k = "orth" -> Len(sh) # 2
    [] L.k = "sparsein" -> Len(sh) < 2 \/ sh[1] < L.n
    [] L.k = "sparseout" -> Len(sh) < 2 \/ sh[2] < L.n
    [] L.k = "lstmopt" -> sh[1] % 4 # 0
    [] OTHER -> FALSE
Random(L) == \/ L.k \in {"uniform", "normal", "echo", "orth"}
             \/ L.k \in {"fanin", "faninout"} /\ L.scale2 > 0
             \/ L.k = "walk" /\ L.scale # 0
             \/ L.k = "ident" /\ L.std > 0
             \/ L.k = "lstmopt" /\ \E i \in 1..4 : L.vals[i] < L.his[i]
             \/ L.k \in {"sparsein", "sparseout"} /\ L.lo < L.hi
(* scale of a random walk: the default depends on the activation function and *)
(* the size (bounds of it, tight for the sizes the statistics are made of)    *)
WalkLo(L, n) == IF L.scale >= 0 THEN L.scale ELSE IF L.act = "linear" THEN S ELSE (S * 7) \div 5
WalkHi(L, n) == IF L.scale >= 0 THEN L.scale
                ELSE IF L.act = "linear" THEN IF n >= 20 THEN (S * 103) \div 100 ELSE (S * 17) \div 10
                ELSE IF n >= 20 THEN (S * 16) \div 10 ELSE (S * 21) \div 10
At(v, sh, r, c) == v[(r - 1) * sh[2] + c]
Eq(a, b) == FAbs(a - b) <= 3
Close(a, b) == FAbs(a - b) <= 40 + FAbs(b) \div 4096
Dot(v, sh, r, q) == SumTo([c \in 1..sh[2] |-> FMul(At(v, sh, r, c), At(v, sh, q, c))], sh[2])
DotC(v, sh, r, q) == SumTo([i \in 1..sh[1] |-> FMul(At(v, sh, i, r), At(v, sh, i, q))], sh[1])
NonZero(v, I) == Cardinality({i \in I : v[i] # 0})
Half(d) == IF d = 1 THEN 4 ELSE 1
Is(L, sh, v) ==
  /\ Len(v) = Prod(sh, 1)
  /\ CASE L.k = "const" -> \A i \in 1..Len(v) : Eq(v[i], L.v)
       [] L.k = "array" -> \A i \in 1..Len(v) : Eq(v[i], L.vals[i])
       [] L.k = "ident" -> \A r \in 1..sh[1], c \in 1..sh[2] : FAbs(At(v, sh, r, c) - (IF r = c THEN L.v ELSE 0)) <= 3 + 8 * L.std
       [] L.k = "uniform" -> \A i \in 1..Len(v) : v[i] >= L.lo - 1 /\ v[i] <= L.hi + 1
       [] L.k = "normal" -> \A i \in 1..Len(v) : FAbs(v[i] - L.mean) <= 8 * L.std
       [] L.k = "fanin" -> \A i \in 1..Len(v) : FMul(v[i], v[i]) * Prod(sh, 2) <= L.scale2 + 50
       [] L.k = "faninout" -> \A i \in 1..Len(v) : FMul(v[i], v[i]) * (sh[1] + Prod(sh, 2)) <= L.scale2 + 50
       [] L.k = "echo" ->   \* spectral radius of a matrix of size 1 or 2
            IF sh[1] = 1 THEN Close(FAbs(v[1]), L.v)
            ELSE IF sh[1] > 2 THEN L.v = 0 => \A i \in 1..Len(v) : v[i] = 0
            ELSE LET tr == v[1] + v[4]
                     det == FMul(v[1], v[4]) - FMul(v[2], v[3])
                     r2 == FMul(L.v, L.v)
                 IN \/ Close(det, r2) /\ FAbs(tr) <= 2 * L.v + 40
                    \/ \E s \in {-1, 1} : FAbs(r2 - s * FMul(tr, L.v) + det) <= 60 /\ FAbs(tr - s * L.v) <= L.v + 40
       [] L.k = "walk" -> \A i \in 1..Len(v) : FAbs(v[i]) <= 8 * WalkHi(L, sh[1])
       [] L.k = "orth" ->
            IF sh[1] <= sh[2] THEN \A r, q \in 1..sh[1] : Close(Dot(v, sh, r, q), IF r = q THEN FMul(L.v, L.v) ELSE 0)
            ELSE \A r, q \in 1..sh[2] : Close(DotC(v, sh, r, q), IF r = q THEN FMul(L.v, L.v) ELSE 0)
       [] L.k = "sparsein" -> /\ \A i \in 1..Len(v) : v[i] = 0 \/ (v[i] >= L.lo - 3 /\ v[i] <= L.hi + 3)
                              /\ \A c \in 1..sh[2] : Cardinality({r \in 1..sh[1] : At(v, sh, r, c) # 0}) = L.n
       [] L.k = "sparseout" -> /\ \A i \in 1..Len(v) : v[i] = 0 \/ (v[i] >= L.lo - 3 /\ v[i] <= L.hi + 3)
                               /\ \A r \in 1..sh[1] : Cardinality({c \in 1..sh[2] : At(v, sh, r, c) # 0}) = L.n
       [] L.k = "lstmopt" -> LET q == Prod(sh, 1) \div 4
                             b(i) == ((i - 1) \div q) + 1
                             IN \A i \in 1..Len(v) : v[i] >= L.vals[b(i)] - 3 /\ v[i] <= L.his[b(i)] + 3
\* the connections of a sparse rule are drawn: not the same for every unit
Drawn(L, sh, v) ==
  CASE L.k = "sparsein" -> \E c, d \in 1..sh[2] : \E r \in 1..sh[1] : (At(v, sh, r, c) = 0) # (At(v, sh, r, d) = 0)
    [] L.k = "sparseout" -> \E r, q \in 1..sh[1] : \E c \in 1..sh[2] : (At(v, sh, r, c) = 0) # (At(v, sh, q, c) = 0)
    [] OTHER -> TRUE
=============================================================================
