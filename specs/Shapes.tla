------------------------------- MODULE Shapes -------------------------------
(* Which shapes the layers of the library accept and produce.                 *)
(* A shape is [k |-> 0, 1 or 2, f |-> features]: constant size, one entry per *)
(* sequence, one entry per time step and sequence.                            *)
(* A layer is a record                                                        *)
(*   n, t      name and type                                                  *)
(*   kw        names of the arguments given                                   *)
(*   size      given size as a sequence, tup: whether it was given as tuple   *)
(*   nf, kern, stride, pad, ptype     arguments of the image layers           *)
(*   shapes    Input only: Seq(<<output, shape>>)                             *)
(*   outs      Seq(<<output, end layer, input>>)                              *)
EXTENDS Layout, Geometry

Prod(f) == FoldSeq(LAMBDA a, b : a * b, 1, f)
LastOf(f) == f[Len(f)]
Lead(f) == SubSeq(f, 1, Len(f) - 1)
Timed(f) == [k |-> 2, f |-> f]

OneInput == {"FullyConnected", "Recurrent", "Lstm", "Clockwork", "ClockworkLstm",
             "Convolution2D", "Pooling2D", "BatchNorm", "Dropout", "Elementwise",
             "NoOp", "DeltasScaling", "L1Decay", "L2Decay", "Loss"}
WithTargets == {"SoftmaxCE", "SigmoidCE", "SquaredError", "BinomialCrossEntropy"}
Types == OneInput \cup WithTargets \cup {"Mask", "Merge", "SquaredDifference", "Highway", "Input"}

InputsOf(t) ==
  IF t = "Input" THEN {}
  ELSE IF t \in OneInput THEN {"default"}
  ELSE IF t \in WithTargets THEN {"default", "targets"}
  ELSE IF t = "Mask" THEN {"default", "mask"}
  ELSE IF t = "Highway" THEN {"H", "T", "x"}
  ELSE {"inputs_1", "inputs_2"}
ArgsOf(t) ==
  IF t \in {"FullyConnected", "Recurrent", "Lstm", "Clockwork", "ClockworkLstm"} THEN {"size", "activation"}
  ELSE IF t = "Convolution2D" THEN {"num_filters", "kernel_size", "stride", "padding", "activation"}
  ELSE IF t = "Pooling2D" THEN {"kernel_size", "type", "stride", "padding", "activation_function"}
  ELSE IF t = "BatchNorm" THEN {"decay", "epsilon"}
  ELSE IF t = "Dropout" THEN {"drop_prob"}
  ELSE IF t = "Elementwise" THEN {"activation"}
  ELSE IF t = "DeltasScaling" THEN {"factor"}
  ELSE IF t = "Loss" THEN {"importance"}
  ELSE IF t = "Input" THEN {"out_shapes"}
  ELSE {}
RequiredOf(t) ==
  IF t = "Convolution2D" THEN {"num_filters", "kernel_size"}
  ELSE IF t = "Pooling2D" THEN {"kernel_size", "type"}
  ELSE IF t = "DeltasScaling" THEN {"factor"}
  ELSE IF t = "Input" THEN {"out_shapes"}
  ELSE {}
Recurrents == {"Recurrent", "Lstm", "Clockwork", "ClockworkLstm"}
Stateful(t) == t \in Recurrents
AnyRank(t) == t \in {"Merge", "Loss"}

Geo(L, f) == [h |-> f[1], w |-> f[2], k |-> L.kern, s |-> L.stride, pad |-> L.pad]

(* Does layer L take inputs of these shapes (a function of the input names)?  *)
Fits(L, in) ==
  /\ L.kw \subseteq ArgsOf(L.t) /\ RequiredOf(L.t) \subseteq L.kw
  /\ Len(L.mal) = 0                 \* arguments given a value of the wrong kind
  /\ ~(L.t = "Loss" /\ L.n = "total_loss")   \* the name of the sum of all losses
  /\ DOMAIN in = InputsOf(L.t)
  /\ (AnyRank(L.t) \/ \A i \in DOMAIN in : in[i].k = 2)
  /\ CASE L.t \in Recurrents -> ~L.tup
       [] L.t \in {"Convolution2D", "Pooling2D"} ->
            /\ Len(in["default"].f) = 3
            /\ Len(L.kern) = 2 /\ Len(L.stride) = 2 /\ Accepted(Geo(L, in["default"].f))
            /\ (L.t = "Pooling2D" => L.ptype \in {"max", "avg"})
       [] L.t \in {"SigmoidCE", "SquaredError", "BinomialCrossEntropy"} -> in["default"].f = in["targets"].f
       [] L.t = "SoftmaxCE" -> /\ Len(in["default"].f) = Len(in["targets"].f)
                               /\ Lead(in["default"].f) = Lead(in["targets"].f)
                               /\ LastOf(in["targets"].f) = 1
       [] L.t = "Mask" -> in["mask"].f \in {<<1>>, in["default"].f, Append(Lead(in["default"].f), 1)}
       [] L.t = "Merge" -> /\ in["inputs_1"].k = in["inputs_2"].k
                           /\ Len(in["inputs_1"].f) = Len(in["inputs_2"].f)
                           /\ Lead(in["inputs_1"].f) = Lead(in["inputs_2"].f)
       [] L.t = "SquaredDifference" -> in["inputs_1"].f = in["inputs_2"].f
       [] L.t = "Highway" -> in["H"].f = in["T"].f /\ in["H"].f = in["x"].f
       [] OTHER -> TRUE

(* the size asked for, or that of the input                                   *)
SizeOf(L, in) == IF "size" \in L.kw THEN L.size
                 ELSE IF L.t = "FullyConnected" THEN in["default"].f
                 ELSE <<Prod(in["default"].f)>>

OutNames(L) ==
  IF L.t = "Input" THEN {L.shapes[i][1] : i \in DOMAIN L.shapes}
  ELSE IF L.t \in {"SoftmaxCE", "SigmoidCE", "SquaredError"} THEN {"predictions", "loss"}
  ELSE IF L.t \in {"L1Decay", "L2Decay", "Loss"} THEN {"loss"}
  ELSE {"default"}
OutShapes(L, in) ==
  CASE L.t = "Input" -> [o \in OutNames(L) |->
                           L.shapes[CHOOSE i \in DOMAIN L.shapes : L.shapes[i][1] = o][2]]
    [] L.t \in {"FullyConnected"} \cup Recurrents -> [o \in {"default"} |-> Timed(SizeOf(L, in))]
    [] L.t \in {"Convolution2D", "Pooling2D"} -> [o \in {"default"} |->
         Timed(OutShape(Geo(L, in["default"].f)) \o
               <<IF L.t = "Convolution2D" THEN L.nf ELSE in["default"].f[3]>>)]
    [] L.t \in {"SigmoidCE", "SquaredError"} -> [o \in OutNames(L) |-> in["default"]]
    [] L.t = "SoftmaxCE" -> [o \in OutNames(L) |-> IF o = "loss" THEN in["targets"] ELSE in["default"]]
    [] L.t \in {"L1Decay", "L2Decay", "BinomialCrossEntropy"} -> [o \in OutNames(L) |-> Timed(<<1>>)]
    [] L.t = "Loss" -> [o \in {"loss"} |-> [k |-> 0, f |-> <<1>>]]
    [] L.t = "Merge" -> [o \in {"default"} |-> [k |-> in["inputs_1"].k,
         f |-> Append(Lead(in["inputs_1"].f), LastOf(in["inputs_1"].f) + LastOf(in["inputs_2"].f))]]
    [] L.t = "SquaredDifference" -> [o \in {"default"} |-> in["inputs_1"]]
    [] L.t = "Highway" -> [o \in {"default"} |-> in["x"]]
    [] OTHER -> [o \in {"default"} |-> in["default"]]

Gates(names, f) == [p \in names |-> f]
Params(L, in) ==
  LET i == Prod(in["default"].f)
      s == Prod(SizeOf(L, in))
  IN CASE L.t = "FullyConnected" -> Gates({"W"}, <<s, i>>) @@ Gates({"bias"}, <<s>>)
       [] L.t = "Recurrent" -> Gates({"W"}, <<s, i>>) @@ Gates({"R"}, <<s, s>>) @@ Gates({"bias"}, <<s>>)
       [] L.t = "Clockwork" -> Gates({"W"}, <<s, i>>) @@ Gates({"R"}, <<s, s>>) @@ Gates({"bias", "timing"}, <<s>>)
       [] L.t \in {"Lstm", "ClockworkLstm"} ->
            Gates({"Wz", "Wi", "Wf", "Wo"}, <<s, i>>) @@ Gates({"Rz", "Ri", "Rf", "Ro"}, <<s, s>>)
            @@ Gates({"pi", "pf", "po"}, <<1, s>>)
            @@ Gates({"bz", "bi", "bf", "bo"} \cup (IF L.t = "Lstm" THEN {} ELSE {"timing"}), <<s>>)
       [] L.t = "Convolution2D" -> Gates({"W"}, <<L.nf>> \o L.kern \o <<in["default"].f[3]>>) @@ Gates({"bias"}, <<L.nf>>)
       [] L.t = "BatchNorm" -> Gates({"gamma", "beta", "mu", "sigma"}, <<LastOf(in["default"].f)>>)
       [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Several outputs wired to one input are joined along the last dimension.    *)
CanJoin(ss) == \A a, b \in ss : a.k = b.k /\ Len(a.f) = Len(b.f) /\ Lead(a.f) = Lead(b.f)
(* srcs: set of <<layer, output, shape>>                                      *)
Join(srcs) ==
  LET one == (CHOOSE x \in srcs : TRUE)[3]
  IN [k |-> one.k, f |-> Append(Lead(one.f), FoldSet(LAMBDA x, acc : acc + LastOf(x[3].f), 0, srcs))]

Named(arch, n) == arch[CHOOSE i \in DOMAIN arch : arch[i].n = n]
Sources(arch, n, i) == UNION {{<<arch[m].n, arch[m].outs[c][1]>> :
    c \in {x \in DOMAIN arch[m].outs : arch[m].outs[x][2] = n /\ arch[m].outs[x][3] = i}} : m \in DOMAIN arch}
WiredInputs(arch, n) == UNION {{arch[m].outs[c][3] :
    c \in {x \in DOMAIN arch[m].outs : arch[m].outs[x][2] = n}} : m \in DOMAIN arch}

(* Shape inference along the layers (listed in an order that respects the     *)
(* connections): what every output looks like, or the first layer that does   *)
(* not fit.                                                                   *)
RECURSIVE Infer(_, _, _)
Infer(arch, j, known) ==
  IF j > Len(arch) THEN [bad |-> "", known |-> known]
  ELSE
    LET L == arch[j]
        ins == WiredInputs(arch, L.n)
        src == [i \in ins |-> {<<s[1], s[2], known[s[1]].outs[s[2]]>> : s \in Sources(arch, L.n, i)}]
    IN IF \E i \in ins : \E s \in Sources(arch, L.n, i) :
            s[1] \notin DOMAIN known \/ s[2] \notin DOMAIN known[s[1]].outs
       THEN [bad |-> L.n, known |-> known]
       ELSE IF \E i \in ins : ~CanJoin({s[3] : s \in src[i]})
       THEN [bad |-> L.n, known |-> known]
       ELSE LET in == [i \in ins |-> Join(src[i])]
            IN IF ~Fits(L, in) THEN [bad |-> L.n, known |-> known]
               ELSE Infer(arch, j + 1,
                      known @@ (L.n :> [ins |-> in, outs |-> OutShapes(L, in),
                                        pars |-> IF DOMAIN in = {} THEN <<>> ELSE Params(L, in)]))
Inferred(arch) == Infer(arch, 1, <<>>)

(* one consecutive arrangement of all sources must exist (see Layout)         *)
Arrangeable(arch, known) ==
  Feasible(UNION {{<<<<n, o>>>> : o \in DOMAIN known[n].outs} : n \in DOMAIN known},
           UNION {{Sources(arch, n, i) : i \in DOMAIN known[n].ins} : n \in DOMAIN known})
Builds(arch) == LET r == Inferred(arch)
                IN r.bad = "" /\ Arrangeable(arch, r.known)

(* the array for a shape, T time steps and B sequences                        *)
Array(s, T, B) == IF s.k = 2 THEN <<T, B>> \o s.f ELSE IF s.k = 1 THEN <<B>> \o s.f ELSE s.f
(* stateful layers keep one more time step                                    *)
Written(L, s, T, B) == Array(s, IF Stateful(L.t) THEN T + 1 ELSE T, B)
NrParams(arch, known) ==
  FoldSet(LAMBDA n, acc : acc + FoldSet(LAMBDA p, a : a + Prod(known[n].pars[p]), 0, DOMAIN known[n].pars),
          0, DOMAIN known)
=============================================================================
