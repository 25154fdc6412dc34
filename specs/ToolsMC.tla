------------------------------ MODULE ToolsMC -------------------------------
(* Lines built layer by layer and cuts of data, with the laws they obey.     *)
EXTENDS Tools, Json
CONSTANTS MaxLayers, Mode, Flat
Shape == IF Flat THEN <<3>> ELSE <<4, 4, 2>>
VARIABLES toks, q, cuts
Letter(x) == [k |-> "L", v |-> x, n |-> 0]
Ch(x) == [k |-> "a", v |-> x, n |-> 0]
Nu(i) == [k |-> "n", v |-> "", n |-> i]
Fr(i) == [k |-> "f", v |-> "", n |-> i]
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
A == Opt({Ch("s"), Ch("t"), Ch("r"), Ch("l")})
Geo == {<<>>, <<Ch("p"), Nu(1)>>, <<Ch("s"), Nu(2)>>, <<Ch("p"), Nu(1), Ch("s"), Nu(2)>>, <<Ch("s"), Nu(2), Ch("p"), Nu(1)>>}
Good == {<<Letter(x)>> \o a \o <<Nu(n)>> : x \in {"F", "R", "L"}, a \in A, n \in {1, 3}}
   \cup {<<Letter("B")>>, <<Letter("D")>>, <<Letter("D"), Fr(250)>>, <<Letter("D"), Fr(100)>>}
   \cup {<<Letter("C")>> \o a \o <<Nu(2), Nu(k)>> \o g : a \in A, k \in {1, 2, 3}, g \in Geo}
   \cup {<<Letter("P")>> \o a \o <<Nu(k)>> \o g : a \in Opt({Ch("m"), Ch("a")}), k \in {1, 2, 3}, g \in Geo}
Bad == {<<Letter("F")>>, <<Letter("L"), Ch("t")>>, <<Letter("R"), Fr(500)>>, <<Letter("B"), Nu(2)>>,
        <<Letter("X"), Nu(3)>>, <<Letter("C"), Nu(2)>>, <<Letter("P")>>, <<Letter("P"), Ch("a")>>,
        <<Letter("C"), Nu(2), Nu(1), Ch("x"), Nu(1)>>, <<Letter("D"), Nu(1)>>, <<Letter("C"), Nu(2), Nu(1), Ch("p")>>,
        <<Letter("F"), Ch("q"), Nu(3)>>}
Q == [task |-> "classification", inn |-> Shape, out |-> <<2>>, data |-> "default", targets |-> "targets",
      mask |-> "", conv |-> "auto", proj |-> "", outl |-> ""]
Tasks == {"classification", "multi-label", "regression", "other"}
Init == /\ toks = <<>> /\ cuts = <<>>
        /\ q = Q
Line == /\ Mode = "lines" /\ UNCHANGED <<q, cuts>>
        /\ Len(Groups(toks)) < MaxLayers
        /\ \E g \in Good \cup (IF toks = <<>> THEN Bad ELSE {}) : toks' = toks \o g
Ask == /\ Mode = "requests" /\ toks = <<>> /\ cuts = <<>>
       /\ \E t \in Tasks, o \in {<<2>>, <<4, 4, 3>>, <<4, 3>>, <<3, 3, 2>>}, d \in {"default", "x"}, m \in {"", "mask"},
            c \in {"auto", "yes", "no"}, p \in {"", "Pro"}, ol \in {"", "Out"} :
            q' = [Q EXCEPT !.task = t, !.out = o, !.data = d, !.mask = m, !.conv = c, !.proj = p, !.outl = ol]
       /\ cuts' = <<0>> /\ UNCHANGED toks
Cut == /\ Mode = "cuts" /\ Len(cuts) < 4 /\ UNCHANGED <<toks, q>> /\ \E r \in 0..4 : cuts' = Append(cuts, r)
Next == Line \/ Ask \/ Cut
Spec == Init /\ [][Next]_<<toks, q, cuts>>
B == Build(q, Items(toks))
(* laws of the language *)
Concatenates == Items(toks \o toks) = Items(toks) \o Items(toks)
OneLayerEach == B.ok => Cardinality(B.names) = Len(Items(toks)) + 4 + (IF q.mask = "" THEN 0 ELSE 1)
Wired == B.ok => /\ \A c \in B.conns : c[1] \in B.names /\ c[3] \in B.names
                 /\ \A n \in B.names \ {"Input"} : \E c \in B.conns : c[3] = n
                 /\ Cardinality({<<c[3], c[4]>> : c \in B.conns}) = Cardinality(B.conns)
Reaches == B.ok => LET RECURSIVE Up(_, _)
                       Up(S, k) == IF k = 0 THEN S ELSE Up(S \cup {c[3] : c \in {d \in B.conns : d[1] \in S}}, k - 1)
                   IN Up({"Input"}, Cardinality(B.names)) = B.names
RejectsAll == (\E i \in 1..Len(Items(toks)) : ~Items(toks)[i].ok) => ~B.ok
Unordered == LET g == Groups(toks) IN \A i \in 1..Len(g) :
   g[i].letter = "C" /\ Len(g[i].args) >= 4 => LET n == Len(g[i].args) a == g[i].args
      sw == SubSeq(a, 1, n - 4) \o <<a[n - 1], a[n], a[n - 3], a[n - 2]>>
      IN n >= 6 /\ a[n - 3].k = "a" => Item([letter |-> "C", args |-> sw]) = Item(g[i])
(* for every number of samples the cuts that are allowed exist, are in      *)
(* order, and the last one is the number of samples                         *)
Cuttable == (Mode = "cuts" /\ cuts # <<>> /\ Cum(cuts, Len(cuts)) > 0) => \A N \in 0..9 :
   LET al(i) == {c \in 0..N : CutOk(c, N, cuts, i)} IN
   /\ \A i \in 1..Len(cuts) : al(i) # {}
   /\ \A i \in 1..(Len(cuts) - 1) : \A a \in al(i) : \E b \in al(i + 1) : a <= b
   /\ al(Len(cuts)) = {N}
Emit == CASE Mode = "lines" -> IF toks = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([toks |-> toks, ok |-> B.ok]))
          [] Mode = "requests" -> IF cuts = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson(q))
          [] OTHER -> IF cuts # <<>> /\ Cum(cuts, Len(cuts)) > 0 THEN PrintT("@@" \o ToJson(cuts)) ELSE TRUE
=============================================================================
