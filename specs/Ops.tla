--------------------------------- MODULE Ops ---------------------------------
(* The array operations of the handlers as a machine over a memory of cells    *)
(* (fixed point numbers).  A register is a shape and the sequence of its cells *)
(* (row-major); registers may share cells (views).                             *)
EXTENDS Fix, FiniteSets
Reg(sh, c) == [sh |-> sh, c |-> c]
Val(M, r) == [i \in 1..Len(r.c) |-> M[r.c[i]]]
Cells(r) == {r.c[i] : i \in 1..Len(r.c)}
Put(M, r, v) == [j \in 1..Len(M) |-> IF j \in Cells(r) THEN v[CHOOSE i \in 1..Len(r.c) : r.c[i] = j] ELSE M[j]]
RECURSIVE Prod(_, _, _)
Prod(sh, i, j) == IF i > j THEN 1 ELSE sh[i] * Prod(sh, i + 1, j)
LastDim(sh) == sh[Len(sh)]
(* index of a vector that is broadcast against a matrix of n columns           *)
VIdx(v, m, i) == LET n == m.sh[2]
                 IN IF v.sh = m.sh THEN i
                    ELSE IF Len(v.c) = 1 THEN 1
                    ELSE IF v.sh[2] = 1 THEN ((i - 1) \div n) + 1 ELSE ((i - 1) % n) + 1
RECURSIVE AxisSum(_, _, _, _, _, _)
AxisSum(x, d, post, p, q, k) == IF k = d THEN 0 ELSE x[(p * d + k) * post + q + 1] + AxisSum(x, d, post, p, q, k + 1)
RECURSIVE Total(_, _)
Total(x, n) == IF n = 0 THEN 0 ELSE x[n] + Total(x, n - 1)
At2(x, cols, tr, i, j) == IF tr THEN x[(j - 1) * cols + i] ELSE x[(i - 1) * cols + j]
RECURSIVE DotIJ(_, _, _, _, _, _, _, _, _)
DotIJ(x, xc, xt, y, yc, yt, i, j, k) ==
  IF k = 0 THEN 0 ELSE FMul(At2(x, xc, xt, i, k), At2(y, yc, yt, k, j)) + DotIJ(x, xc, xt, y, yc, yt, i, j, k - 1)
Rows(r, t) == IF t THEN r.sh[2] ELSE r.sh[1]
Cols(r, t) == IF t THEN r.sh[1] ELSE r.sh[2]
Dot(M, a, b, ta, tb) ==
  LET n == Cols(b, tb) IN
  [i \in 1..(Rows(a, ta) * n) |->
     DotIJ(Val(M, a), a.sh[2], ta, Val(M, b), b.sh[2], tb, ((i - 1) \div n) + 1, ((i - 1) % n) + 1, Cols(a, ta))]
FMax(x, k) == LET RECURSIVE mx(_)
                  mx(i) == IF i = 1 THEN x[1] ELSE IF x[i] > mx(i - 1) THEN x[i] ELSE mx(i - 1)
              IN mx(k)
Softmax(M, m) ==
  LET x == Val(M, m)
      n == m.sh[2]
      row(i) == [j \in 1..n |-> x[((i - 1) \div n) * n + j]]
      e(i) == LET r == row(i) mx == FMax(r, n) IN [j \in 1..n |-> FExp(r[j] - mx)]
  IN [i \in 1..Len(x) |-> LET ee == e(i) IN FDiv(ee[((i - 1) % n) + 1], Total(ee, n))]
Act(f, x) == CASE f = "sigmoid" -> FSigmoid(x) [] f = "tanh" -> FTanh(x) [] f = "rel" -> (IF x > 0 THEN x ELSE 0)
               [] f = "el" -> (IF x >= 0 THEN x ELSE FExp(x) - S) [] f = "linear" -> x
Deriv(f, y, dy) == CASE f = "sigmoid" -> FMul(dy, FMul(y, S - y)) [] f = "tanh" -> FMul(dy, S - FMul(y, y))
                     [] f = "rel" -> (IF y > 0 THEN dy ELSE 0)
                     [] f = "el" -> (IF y >= 0 THEN dy ELSE FMul(dy, y + S)) [] f = "linear" -> dy
Whole(x) == x \div S
FMod(a, b) == LET q == FAbs(a) % FAbs(b) IN IF a < 0 THEN -q ELSE q
Sgn(x) == IF x > 0 THEN S ELSE IF x < 0 THEN -S ELSE 0
(* ------------------------------------------------------------- outcomes --
   o: [op, a: registers, s: scalars (fixed point), n: integers (axis,
   transpositions), f: name of an activation function]                        *)
A(o, i) == o.a[i]
Un(M, o, F(_)) == LET x == Val(M, A(o, 1)) IN Put(M, A(o, 2), [i \in 1..Len(x) |-> F(x[i])])
Bin(M, o, F(_, _)) == LET x == Val(M, A(o, 1)) y == Val(M, A(o, 2)) IN Put(M, A(o, 3), [i \in 1..Len(x) |-> F(x[i], y[i])])
MV(M, o, F(_, _)) == LET x == Val(M, A(o, 1)) y == Val(M, A(o, 2))
                     IN Put(M, A(o, 3), [i \in 1..Len(x) |-> F(x[i], y[VIdx(A(o, 2), A(o, 1), i)])])
SameSh(o, I) == \A i, j \in I : A(o, i).sh = A(o, j).sh
(* ------------------------------------------------------ image operations --
   Registers of shape (images, rows, columns, channels); o.n is the padding,
   the two strides and (for pooling) the two sizes of the window.              *)
Ix(sh, n, y, x, c) == ((n * sh[2] + y) * sh[3] + x) * sh[4] + c + 1
At4(sh, i) == LET j == i - 1 IN [c |-> j % sh[4], x |-> (j \div sh[4]) % sh[3], y |-> (j \div (sh[4] * sh[3])) % sh[2], n |-> j \div (sh[4] * sh[3] * sh[2])]
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE SumTo(F, n - 1) + F(n)
(* value of a pixel, nothing outside of the image                              *)
Pix(v, sh, n, y, x, c) == IF y >= 0 /\ y < sh[2] /\ x >= 0 /\ x < sh[3] THEN v[Ix(sh, n, y, x, c)] ELSE 0
ConvAt(o, xv, wv, bv, p) ==
  LET w == A(o, 2).sh
  IN bv[p.c + 1] + SumTo(LAMBDA i : LET k == At4(<<1, w[2], w[3], w[4]>>, i)
                                     IN FMul(wv[Ix(w, p.c, k.y, k.x, k.c)],
                                             Pix(xv, A(o, 1).sh, p.n, p.y * o.n[2] - o.n[1] + k.y, p.x * o.n[3] - o.n[1] + k.x, k.c)),
                         w[2] * w[3] * w[4])
ConvFwd(M, o) == LET xv == Val(M, A(o, 1)) wv == Val(M, A(o, 2)) bv == Val(M, A(o, 3)) r == A(o, 4)
                 IN Put(M, r, [i \in 1..Len(r.c) |-> ConvAt(o, xv, wv, bv, At4(r.sh, i))])
ConvBwd(M, o) ==
  LET xs == A(o, 1).sh ws == A(o, 2).sh ds == A(o, 4).sh
      xv == Val(M, A(o, 1)) wv == Val(M, A(o, 2)) iv == Val(M, A(o, 3)) dv == Val(M, A(o, 4))
      place == <<ds[1], ds[2], ds[3], 1>>
      dw == [i \in 1..Len(wv) |-> LET k == At4(ws, i)
                IN SumTo(LAMBDA j : LET p == At4(place, j)
                                    IN FMul(dv[Ix(ds, p.n, p.y, p.x, k.n)],
                                            Pix(xv, xs, p.n, p.y * o.n[2] - o.n[1] + k.y, p.x * o.n[3] - o.n[1] + k.x, k.c)),
                         ds[1] * ds[2] * ds[3])]
      db == [f \in 1..ds[4] |-> SumTo(LAMBDA j : LET p == At4(place, j) IN dv[Ix(ds, p.n, p.y, p.x, f - 1)], ds[1] * ds[2] * ds[3])]
      di == [i \in 1..Len(xv) |-> LET q == At4(xs, i)
                IN iv[i] + SumTo(LAMBDA j : LET p == At4(<<1, ds[2], ds[3], ds[4]>>, j)
                                                ky == q.y - p.y * o.n[2] + o.n[1]
                                                kx == q.x - p.x * o.n[3] + o.n[1]
                                            IN IF ky < 0 \/ ky >= ws[2] \/ kx < 0 \/ kx >= ws[3] THEN 0
                                               ELSE FMul(dv[Ix(ds, q.n, p.y, p.x, p.c)], wv[Ix(ws, p.c, ky, kx, q.c)]),
                                 ds[2] * ds[3] * ds[4])]
  IN Put(Put(Put(M, A(o, 5), dw), A(o, 6), db), A(o, 3), di)
(* the pixels of the image under the window at p, as rows then columns         *)
WinP(o, xs, p) == {q \in (0..(xs[2] - 1)) \X (0..(xs[3] - 1)) :
                     /\ q[1] >= p.y * o.n[2] - o.n[1] /\ q[1] < p.y * o.n[2] - o.n[1] + o.n[4]
                     /\ q[2] >= p.x * o.n[3] - o.n[1] /\ q[2] < p.x * o.n[3] - o.n[1] + o.n[5]}
Where(xs, q, c) == (q[1] * xs[3] + q[2]) * xs[4] + c
(* the first pixel of the largest value                                        *)
Top(o, xv, xs, p) == LET w == WinP(o, xs, p)
                         v(q) == xv[Ix(xs, p.n, q[1], q[2], p.c)]
                     IN CHOOSE q \in w : \A r \in w : v(r) < v(q) \/ (v(r) = v(q) /\ Where(xs, q, p.c) <= Where(xs, r, p.c))
MaxFwd(M, o) ==
  LET xv == Val(M, A(o, 1)) xs == A(o, 1).sh r == A(o, 2)
      none(i) == WinP(o, xs, At4(r.sh, i)) = {}
      top(i) == Top(o, xv, xs, At4(r.sh, i))
      M1 == Put(M, r, [i \in 1..Len(r.c) |-> IF none(i) THEN 0
                                           ELSE LET p == At4(r.sh, i) q == top(i) IN xv[Ix(xs, p.n, q[1], q[2], p.c)]])
  IN Put(M1, A(o, 3), [i \in 1..Len(r.c) |-> IF none(i) THEN -S ELSE Where(xs, top(i), At4(r.sh, i).c) * S])
MaxBwd(M, o) ==
  LET xs == A(o, 1).sh av == Val(M, A(o, 3)) iv == Val(M, A(o, 4)) dv == Val(M, A(o, 5)) ds == A(o, 5).sh
  IN Put(M, A(o, 4), [i \in 1..Len(iv) |-> LET q == At4(xs, i)
       IN iv[i] + SumTo(LAMBDA j : LET p == At4(<<1, ds[2], ds[3], 1>>, j) k == Ix(ds, q.n, p.y, p.x, q.c)
                                   IN IF Whole(av[k]) = Where(xs, <<q.y, q.x>>, q.c) THEN dv[k] ELSE 0,
                        ds[2] * ds[3])])
AvgFwd(M, o) ==
  LET xv == Val(M, A(o, 1)) xs == A(o, 1).sh r == A(o, 2)
  IN Put(M, r, [i \in 1..Len(r.c) |-> LET p == At4(r.sh, i) w == WinP(o, xs, p)
       IN IF w = {} THEN 0
          ELSE SumTo(LAMBDA j : LET q == At4(<<1, xs[2], xs[3], 1>>, j) IN IF <<q.y, q.x>> \in w THEN xv[Ix(xs, p.n, q.y, q.x, p.c)] ELSE 0,
                     xs[2] * xs[3]) \div Cardinality(w)])
AvgBwd(M, o) ==
  LET xs == A(o, 1).sh iv == Val(M, A(o, 3)) dv == Val(M, A(o, 4)) ds == A(o, 4).sh
  IN Put(M, A(o, 3), [i \in 1..Len(iv) |-> LET q == At4(xs, i)
       IN iv[i] + SumTo(LAMBDA j : LET p == At4(<<1, ds[2], ds[3], 1>>, j) w == WinP(o, xs, p)
                                   IN IF <<q.y, q.x>> \in w THEN dv[Ix(ds, q.n, p.y, p.x, q.c)] \div Cardinality(w) ELSE 0,
                        ds[2] * ds[3])])
IMG == {"conv2d_forward_batch", "conv2d_backward_batch", "maxpool2d_forward_batch", "maxpool2d_backward_batch", "avgpool2d_forward_batch", "avgpool2d_backward_batch"}
(* o.k says how padding, strides and window are written; an illegal way is     *)
(* anything but a natural number and pairs of natural numbers                  *)
ImgLegal(o) == /\ o.k[1] = "nat" /\ \A i \in 2..Len(o.k) : o.k[i] = "pair"
               /\ CASE o.op = "maxpool2d_backward_batch" -> SameSh(o, {1, 4}) /\ SameSh(o, {2, 5})
                    [] o.op = "avgpool2d_backward_batch" -> SameSh(o, {1, 3}) /\ SameSh(o, {2, 4})
                    [] OTHER -> TRUE
Plus(a, b) == a + b
Minus(a, b) == a - b
Result(M, o) ==
  CASE o.op \in {"copy_to", "get_numpy_copy", "set_from_numpy", "create_from_numpy"} -> Un(M, o, LAMBDA x : x)
    [] o.op = "abs_t" -> Un(M, o, FAbs)
    [] o.op = "sign_t" -> Un(M, o, Sgn)
    [] o.op = "sqrt_t" -> Un(M, o, FSqrt)
    [] o.op = "log_t" -> Un(M, o, FLn)
    [] o.op \in {"act", "act_func", "inplace"} -> Un(M, o, LAMBDA x : Act(o.f, x))
    [] o.op = "softmax_m" -> Put(M, A(o, 2), Softmax(M, A(o, 1)))
    [] o.op = "add_tt" -> Bin(M, o, Plus)
    [] o.op = "subtract_tt" -> Bin(M, o, Minus)
    [] o.op = "mult_tt" -> Bin(M, o, FMul)
    [] o.op = "divide_tt" -> Bin(M, o, FDiv)
    [] o.op = "modulo_tt" -> Bin(M, o, FMod)
    [] o.op = "mult_add_tt" -> LET x == Val(M, A(o, 1)) y == Val(M, A(o, 2)) z == Val(M, A(o, 3))
                               IN Put(M, A(o, 3), [i \in 1..Len(x) |-> z[i] + FMul(x[i], y[i])])
    [] o.op = "add_st" -> Un(M, o, LAMBDA x : x + o.s[1])
    [] o.op = "mult_st" -> Un(M, o, LAMBDA x : FMul(o.s[1], x))
    [] o.op = "mult_add_st" -> LET x == Val(M, A(o, 1)) z == Val(M, A(o, 2))
                               IN Put(M, A(o, 2), [i \in 1..Len(x) |-> z[i] + FMul(o.s[1], x[i])])
    [] o.op = "clip_t" -> Un(M, o, LAMBDA x : IF x < o.s[1] THEN o.s[1] ELSE IF x > o.s[2] THEN o.s[2] ELSE x)
    [] o.op = "add_mv" -> MV(M, o, Plus)
    [] o.op = "subtract_mv" -> MV(M, o, Minus)
    [] o.op = "mult_mv" -> MV(M, o, FMul)
    [] o.op = "divide_mv" -> MV(M, o, FDiv)
    [] o.op = "mult_add_mv" -> LET x == Val(M, A(o, 1)) y == Val(M, A(o, 2)) z == Val(M, A(o, 3))
                               IN Put(M, A(o, 3), [i \in 1..Len(x) |-> z[i] + FMul(x[i], y[VIdx(A(o, 2), A(o, 1), i)])])
    [] o.op = "copy_to_if" -> LET x == Val(M, A(o, 1)) z == Val(M, A(o, 2)) c == Val(M, A(o, 3))
                              IN Put(M, A(o, 2), [i \in 1..Len(x) |-> IF c[i] # 0 THEN x[i] ELSE z[i]])
    [] o.op = "add_into_if" -> LET x == Val(M, A(o, 1)) z == Val(M, A(o, 2)) c == Val(M, A(o, 3))
                               IN Put(M, A(o, 2), [i \in 1..Len(x) |-> IF c[i] # 0 THEN z[i] + x[i] ELSE z[i]])
    [] o.op = "fill_if" -> LET z == Val(M, A(o, 1)) c == Val(M, A(o, 2))
                           IN Put(M, A(o, 1), [i \in 1..Len(z) |-> IF c[i] # 0 THEN o.s[1] ELSE z[i]])
    [] o.op = "fill" -> Put(M, A(o, 1), [i \in 1..Len(A(o, 1).c) |-> o.s[1]])
    [] o.op = "sum_t" -> LET a == A(o, 1) x == Val(M, a) ax == o.n[1]
                         IN IF ax < 0 THEN Put(M, A(o, 2), <<Total(x, Len(x))>>)
                            ELSE LET d == a.sh[ax + 1] post == Prod(a.sh, ax + 2, Len(a.sh))
                                 IN Put(M, A(o, 2), [i \in 1..Len(A(o, 2).c) |-> AxisSum(x, d, post, (i - 1) \div post, (i - 1) % post, 0)])
    [] o.op = "broadcast_t" -> LET a == A(o, 1) x == Val(M, a) ax == o.n[1] d == A(o, 2).sh[ax + 1]
                                   post == Prod(a.sh, ax + 2, Len(a.sh))
                               IN Put(M, A(o, 2), [i \in 1..Len(A(o, 2).c) |-> x[((i - 1) \div (post * d)) * post + ((i - 1) % post) + 1]])
    [] o.op = "dot_mm" -> Put(M, A(o, 3), Dot(M, A(o, 1), A(o, 2), o.n[1] = 1, o.n[2] = 1))
    [] o.op = "dot_add_mm" -> LET d == Dot(M, A(o, 1), A(o, 2), o.n[1] = 1, o.n[2] = 1) z == Val(M, A(o, 3))
                              IN Put(M, A(o, 3), [i \in 1..Len(z) |-> z[i] + d[i]])
    [] o.op = "binarize_v" -> LET v == Val(M, A(o, 1)) n == A(o, 2).sh[2]
                              IN Put(M, A(o, 2), [i \in 1..Len(A(o, 2).c) |-> IF Whole(v[((i - 1) \div n) + 1]) = (i - 1) % n THEN S ELSE 0])
    [] o.op = "index_m_by_v" -> LET m == Val(M, A(o, 1)) v == Val(M, A(o, 2)) n == A(o, 1).sh[2]
                                IN Put(M, A(o, 3), [i \in 1..Len(v) |-> m[(i - 1) * n + Whole(v[i]) + 1]])
    [] o.op = "merge_tt" -> LET x == Val(M, A(o, 1)) y == Val(M, A(o, 2)) la == LastDim(A(o, 1).sh) lb == LastDim(A(o, 2).sh)
                            IN Put(M, A(o, 3), [i \in 1..Len(A(o, 3).c) |->
                                 LET r == (i - 1) \div (la + lb) j == (i - 1) % (la + lb)
                                 IN IF j < la THEN x[r * la + j + 1] ELSE y[r * lb + (j - la) + 1]])
    [] o.op = "split_add_tt" -> LET x == Val(M, A(o, 1)) la == LastDim(A(o, 2).sh) lb == LastDim(A(o, 3).sh)
                                    p == Val(M, A(o, 2)) q == Val(M, A(o, 3))
                                    M2 == Put(M, A(o, 2), [i \in 1..Len(p) |-> p[i] + x[((i - 1) \div la) * (la + lb) + ((i - 1) % la) + 1]])
                                IN Put(M2, A(o, 3), [i \in 1..Len(q) |-> q[i] + x[((i - 1) \div lb) * (la + lb) + la + ((i - 1) % lb) + 1]])
    [] o.op \in {"deriv", "act_func_deriv", "inplace_deriv"} -> LET y == Val(M, A(o, 1)) dy == Val(M, A(o, 2))
                           IN Put(M, A(o, 3), [i \in 1..Len(y) |-> Deriv(o.f, y[i], dy[i])])
    [] o.op \in {"zeros", "allocate"} -> Put(M, A(o, 1), [i \in 1..Len(A(o, 1).c) |-> 0])
    [] o.op = "conv2d_forward_batch" -> ConvFwd(M, o)
    [] o.op = "conv2d_backward_batch" -> ConvBwd(M, o)
    [] o.op = "maxpool2d_forward_batch" -> MaxFwd(M, o)
    [] o.op = "maxpool2d_backward_batch" -> MaxBwd(M, o)
    [] o.op = "avgpool2d_forward_batch" -> AvgFwd(M, o)
    [] o.op = "avgpool2d_backward_batch" -> AvgBwd(M, o)
    [] o.op = "ones" -> Put(M, A(o, 1), [i \in 1..Len(A(o, 1).c) |-> S])
(* operations with random results: what a result may be                       *)
RND == {"generate_probability_mask", "fill_gaussian"}
Possible(o, x) == IF o.op = "fill_gaussian" THEN o.s[2] # 0 \/ x = o.s[1]
                  ELSE x \in {0, S} /\ (o.s[1] # 0 \/ x = 0) /\ (o.s[1] # S \/ x = S)
(* is the result a finite number everywhere?                                  *)
Finite(M, o) ==
  CASE o.op = "sqrt_t" -> \A i \in 1..Len(A(o, 1).c) : Val(M, A(o, 1))[i] >= 0
    [] o.op = "log_t" -> \A i \in 1..Len(A(o, 1).c) : Val(M, A(o, 1))[i] > 0
    [] o.op \in {"divide_tt", "divide_mv", "modulo_tt"} -> \A i \in 1..Len(A(o, 2).c) : Val(M, A(o, 2))[i] # 0
    [] OTHER -> TRUE
(* are the shapes (and indices) those the operation is documented for?        *)
Mat(r) == Len(r.sh) = 2
Lead(sh) == SubSeq(sh, 1, Len(sh) - 1)
IndexOk(M, v, n) == \A i \in 1..Len(v.c) : Val(M, v)[i] >= 0 /\ Whole(Val(M, v)[i]) < n
Legal(M, o) ==
  CASE o.op \in {"copy_to", "abs_t", "sign_t", "sqrt_t", "log_t", "act", "add_st", "mult_st", "mult_add_st", "fill_if", "set_from_numpy"} -> SameSh(o, {1, 2})
    [] o.op = "clip_t" -> SameSh(o, {1, 2}) /\ o.s[1] <= o.s[2]
    [] o.op = "softmax_m" -> SameSh(o, {1, 2}) /\ Mat(A(o, 1))
    [] o.op \in {"add_tt", "subtract_tt", "mult_tt", "divide_tt", "modulo_tt", "mult_add_tt", "copy_to_if", "add_into_if", "deriv"} -> SameSh(o, {1, 2, 3})
    [] o.op \in {"add_mv", "subtract_mv", "mult_mv", "divide_mv", "mult_add_mv"} ->
         SameSh(o, {1, 3}) /\ Mat(A(o, 1)) /\ (A(o, 2).sh \in {<<A(o, 1).sh[1], 1>>, <<1, A(o, 1).sh[2]>>}
                                               \/ (o.op = "mult_mv" /\ A(o, 2).sh = A(o, 1).sh))
    [] o.op \in {"dot_mm", "dot_add_mm"} -> /\ Mat(A(o, 1)) /\ Mat(A(o, 2)) /\ Mat(A(o, 3))
                                            /\ Cols(A(o, 1), o.n[1] = 1) = Rows(A(o, 2), o.n[2] = 1)
                                            /\ A(o, 3).sh = <<Rows(A(o, 1), o.n[1] = 1), Cols(A(o, 2), o.n[2] = 1)>>
    [] o.op = "broadcast_t" -> LET a == A(o, 1).sh b == A(o, 2).sh ax == o.n[1]
                               IN ax >= 0 /\ ax < Len(b) /\ Len(a) = Len(b) /\ a[ax + 1] = 1 /\ \A i \in 1..Len(a) : i # ax + 1 => a[i] = b[i]
    [] o.op = "binarize_v" -> Mat(A(o, 1)) /\ Mat(A(o, 2)) /\ A(o, 1).sh = <<A(o, 2).sh[1], 1>> /\ IndexOk(M, A(o, 1), A(o, 2).sh[2])
    [] o.op = "index_m_by_v" -> SameSh(o, {2, 3}) /\ Mat(A(o, 1)) /\ A(o, 2).sh = <<A(o, 1).sh[1], 1>>
    [] o.op = "merge_tt" -> LastDim(A(o, 1).sh) + LastDim(A(o, 2).sh) = LastDim(A(o, 3).sh)
    [] o.op = "split_add_tt" -> LastDim(A(o, 2).sh) + LastDim(A(o, 3).sh) = LastDim(A(o, 1).sh)
    [] o.op = "sum_t" -> o.n[1] >= -1 /\ o.n[1] < Len(A(o, 1).sh)
    [] o.op \in IMG -> ImgLegal(o)
    [] o.op \in {"zeros", "ones", "allocate"} -> o.k[1] = "shape"
    [] o.op = "generate_probability_mask" -> o.s[1] >= 0 /\ o.s[1] <= S
    [] o.op = "fill_gaussian" -> o.s[2] >= 0
    [] OTHER -> TRUE
=============================================================================
