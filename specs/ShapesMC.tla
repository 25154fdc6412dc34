------------------------------ MODULE ShapesMC ------------------------------
(* Every layer type against every combination of shapes of its inputs from a  *)
(* pool, each input fed by one or two outputs of the Input layer.             *)
EXTENDS Shapes, Json
CONSTANTS MaxJoin, Emit
VARIABLES st
Pool == {Timed(<<1>>), Timed(<<2>>), Timed(<<6>>), Timed(<<2, 3>>), Timed(<<3, 2>>), Timed(<<2, 1>>),
         Timed(<<3, 1>>), Timed(<<1, 1>>), Timed(<<2, 3, 1>>), Timed(<<3, 2, 1>>), Timed(<<2, 3, 2>>),
         Timed(<<1, 6>>), [k |-> 1, f |-> <<2>>], [k |-> 0, f |-> <<2>>]}
Joined(n) == {<<a>> : a \in Pool} \cup (IF n < 2 THEN {} ELSE {<<a, b>> : a, b \in Pool})
\* what is wired where: input name -> sequence of shapes
MCInit ==
  \E t \in Types \ {"Input"} :
    \E in \in [InputsOf(t) -> Joined(IF Cardinality(InputsOf(t)) = 1 THEN MaxJoin ELSE 1)] :
      st = [t |-> t, in |-> in]
MCNext == UNCHANGED st
Kw(t) == RequiredOf(t)
Layer(t) == [n |-> "L", t |-> t, kw |-> Kw(t), size |-> <<>>, tup |-> FALSE, nf |-> 2,
             kern |-> <<2, 2>>, stride |-> <<1, 1>>, pad |-> 0, ptype |-> "max", mal |-> <<>>, shapes |-> <<>>, outs |-> <<>>]
Src(i) == {<<i, j, st.in[i][j]>> : j \in DOMAIN st.in[i]}
CanAll == \A i \in DOMAIN st.in : CanJoin({s[3] : s \in Src(i)})
In == [i \in DOMAIN st.in |-> Join(Src(i))]
OK == CanAll /\ Fits(Layer(st.t), In)
\* every shape the specification infers is a proper one
Proper == OK => LET o == OutShapes(Layer(st.t), In)
                IN \A x \in DOMAIN o : Len(o[x].f) > 0 /\ \A d \in DOMAIN o[x].f : o[x].f[d] > 0
\* no output is larger or smaller than the flow of data through the layer demands
Keeps == OK /\ st.t \in {"NoOp", "Dropout", "Elementwise", "BatchNorm", "DeltasScaling", "Mask", "FullyConnected"}
           => OutShapes(Layer(st.t), In)["default"].f = In["default"].f
EmitState == ~Emit \/ PrintT("@@" \o ToJson(
   [t |-> st.t, ok |-> OK, in |-> {<<i, st.in[i]>> : i \in DOMAIN st.in}]))
=============================================================================
