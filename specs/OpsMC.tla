-------------------------------- MODULE OpsMC --------------------------------
(* Laws of the operations over all small matrices, checked before they are     *)
(* used to judge the code.                                                     *)
EXTENDS Ops, Json
CONSTANT Big
VARIABLES M, op, al
H == S \div 2
AVals == {-H, S} \cup (IF Big THEN {0} ELSE {})
BVals == {-H, 0, S}
(* cells 1-4: a (2x2), 5-8: b (2x2), 9-12: out (2x2)                           *)
Ra == Reg(<<2, 2>>, <<1, 2, 3, 4>>)
Rb == Reg(<<2, 2>>, <<5, 6, 7, 8>>)
Ro == Reg(<<2, 2>>, <<9, 10, 11, 12>>)
Rrow == Reg(<<1, 2>>, <<5, 6>>)
Rcol == Reg(<<2, 1>>, <<5, 7>>)       \* a strided view of b
TT == {"add_tt", "subtract_tt", "mult_tt", "mult_add_tt"}
MVs == {"add_mv", "subtract_mv", "mult_mv", "mult_add_mv"}
Init == /\ op \in TT \cup MVs \cup {"dot_mm", "dot_add_mm", "copy_to_if", "add_into_if"}
        /\ al \in 0..3
        /\ M = <<>>
Next == /\ M = <<>> /\ UNCHANGED <<op, al>>
        /\ \E v \in [1..4 -> AVals], w \in [1..4 -> BVals] : M' = v \o w \o <<S, -S, 0, H>>
O(o, a) == [op |-> o, a |-> a, s |-> <<S>>, n |-> <<0, 0>>, f |-> ""]
(* aliasing: the output is a register of its own, the first or second operand  *)
Args == IF op \in MVs THEN <<Ra, IF al % 2 = 0 THEN Rrow ELSE Rcol, IF al < 2 THEN Ro ELSE Ra>>
        ELSE IF op \in TT THEN <<Ra, Rb, IF al = 0 THEN Ro ELSE IF al = 1 THEN Ra ELSE IF al = 2 THEN Rb ELSE Ro>>
        ELSE IF op \in {"copy_to_if", "add_into_if"} THEN <<Ra, Ro, Rb>> ELSE <<Ra, Rb, Ro>>
Cur == O(op, Args)
Out == IF op \in {"copy_to_if", "add_into_if"} THEN Args[2] ELSE Args[3]
R == Result(M, Cur)
OnlyOutput_ == \A j \in 1..Len(M) : j \in Cells(Out) \/ R[j] = M[j]
AliasFree_ == op \in TT \cup MVs /\ op \notin {"mult_add_tt", "mult_add_mv"} =>
               Val(R, Out) = Val(Result(M, O(op, <<Args[1], Args[2], Ro>>)), Ro)
AddLaw_ == op \in {"mult_add_tt"} /\ al = 0 =>
            Val(R, Ro) = LET P == Result(M, O("mult_tt", <<Ra, Rb, Ro>>)) IN [i \in 1..4 |-> M[8 + i] + P[8 + i]]
SubLaw_ == op = "subtract_tt" => LET P == Result(R, O("add_tt", <<Out, IF al = 2 THEN Ra ELSE Rb, Ro>>))
                                IN al \in {0, 1, 3} => Val(P, Ro) = Val(M, Ra)
T(x) == <<x[1], x[3], x[2], x[4]>>
DotT_ == op = "dot_mm" => \A t \in {<<0, 1>>, <<1, 0>>, <<1, 1>>} :
          LET P == Put(Put(M, Ra, IF t[1] = 1 THEN T(Val(M, Ra)) ELSE Val(M, Ra)), Rb, IF t[2] = 1 THEN T(Val(M, Rb)) ELSE Val(M, Rb))
          IN Val(Result(M, [Cur EXCEPT !.n = t]), Ro) = Val(Result(P, Cur), Ro)
MergeSplit_ == op = "add_tt" /\ al = 0 =>
   LET big == Reg(<<2, 3>>, <<13, 14, 15, 16, 17, 18>>)
       N0 == M \o <<0, 0, 0, 0, 0, 0>>
       N1 == Result(N0, O("merge_tt", <<Ra, Rcol, big>>))
       N2 == Result(Put(Put(N1, Ra, <<0, 0, 0, 0>>), Rcol, <<0, 0>>), O("split_add_tt", <<big, Ra, Rcol>>))
   IN Val(N2, Ra) = Val(M, Ra) /\ Val(N2, Rcol) = Val(M, Rcol)
CondLaw_ == op = "copy_to_if" => \A i \in 1..4 : Val(R, Ro)[i] = IF M[4 + i] # 0 THEN M[i] ELSE M[8 + i]
SumLaw_ == op = "add_mv" => LET one == Reg(<<1, 1>>, <<9>>)
            IN Val(Result(M, [O("sum_t", <<Ra, one>>) EXCEPT !.n = <<-1, 0>>]), one)[1] =
               Total(Val(Result(M, [O("sum_t", <<Ra, Rrow>>) EXCEPT !.n = <<0, 0>>]), Rrow), 2)
Emit_ == PrintT("@@" \o ToJson([op |-> op, al |-> al, M |-> M, a |-> Args, out |-> Out]))
OnlyOutput == M = <<>> \/ OnlyOutput_
AliasFree == M = <<>> \/ AliasFree_
AddLaw == M = <<>> \/ AddLaw_
SubLaw == M = <<>> \/ SubLaw_
DotT == M = <<>> \/ DotT_
MergeSplit == M = <<>> \/ MergeSplit_
CondLaw == M = <<>> \/ CondLaw_
SumLaw == M = <<>> \/ SumLaw_
Chosen == (M[1] + 2 * M[3] + 4 * M[5] + 8 * M[6] + M[8]) % 13 = 0
Emit == M = <<>> \/ ~Chosen \/ Emit_
=============================================================================
