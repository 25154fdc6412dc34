---------------------------- MODULE ReferencesMC ----------------------------
(* All small reference structures on a small tree.                            *)
EXTENDS References, Json
CONSTANTS MaxTop, MaxSub, Deep
VARIABLES refs, todo
Tree == << [c |-> <<"A">>, views |-> <<[c |-> <<"W">>], [c |-> <<"b">>]>>],
           [c |-> <<"A", "B">>, views |-> <<[c |-> <<"W">>]>>],
           [c |-> <<"I", "n", "p", "u", "t">>, views |-> <<>>],
           [c |-> <<"L">>, views |-> <<>>] >>
LPat == {<<"A">>, <<"A", "*">>, <<"*", "B">>, <<"*">>, <<"C">>}
VPat == {<<"W">>, <<"b">>, <<"*">>}
Leaf(p, v) == [p |-> p, leaf |-> v]
Subs == {<<>>} \cup {<<Leaf(p, v)>> : p \in VPat \cup {Default, Fallback}, v \in 1..2}
        \cup (IF Deep THEN {<<Leaf(p, 1), Leaf(q, 2)>> : p \in {<<"W">>, <<"*">>}, q \in {Default, Fallback, <<"b">>}}
                          \cup {<<Leaf(<<"b">>, 1), Leaf(q, 2)>> : q \in {Default, Fallback}} ELSE {})
Entries == {Leaf(p, v) : p \in LPat \cup {Default, Fallback}, v \in 1..2}
           \cup {[p |-> p, sub |-> s] : p \in LPat, s \in Subs}
Init == refs = <<>> /\ todo = MaxTop
Next == /\ todo > 0 /\ todo' = todo - 1
        /\ \E e \in Entries : /\ \A i \in 1..Len(refs) : refs[i].p # e.p
                              /\ refs' = Append(refs, e)
R(q) == About(Tree, refs, q[1], q[2])
Accepted == AllMatch(Tree, refs) /\ \A q \in Positions(Tree) : ~Ambiguous(R(q)) /\ Chosen(R(q)) # {}
(* ---- independent readings                                                 *)
ExplicitLeaves(q) ==   \* values of the leaves on explicitly matching paths
  {refs[i].leaf : i \in {k \in Explicit(refs, Tree[q[1]].c) : IsLeaf(refs[k])}}
  \cup UNION {{refs[i].sub[j].leaf : j \in Explicit(refs[i].sub, Tree[q[1]].views[q[2]].c)} :
              i \in {k \in Explicit(refs, Tree[q[1]].c) : ~IsLeaf(refs[k])}}
ExplicitWins == \A q \in Positions(Tree) : ExplicitLeaves(q) # {} => ExplicitLeaves(q) \subseteq Chosen(R(q))
DefaultOnlyIfSilent == \A q \in Positions(Tree) :
  LET L == Tree[q[1]].c
  IN (Explicit(refs, L) = {}) => Chosen(R(q)) = {e.leaf : e \in Entry(refs, Default)}
StarMatchesAll == \A i \in 1..Len(Tree) : Match(<<"*">>, Tree[i].c) /\ Match(Tree[i].c, Tree[i].c)
OneRule == Accepted => \A q \in Positions(Tree) : Cardinality(Chosen(R(q))) = 1
OrderIrrelevant == Len(refs) = 2 => \A q \in Positions(Tree) : R(q) = Say(<<refs[2], refs[1]>>, <<Tree[q[1]].c, Tree[q[1]].views[q[2]].c>>, {}, {})
Emit == PrintT("@@" \o ToJson([refs |-> refs, ok |-> Accepted]))
=============================================================================
