------------------------------ MODULE MCCircuit ------------------------------
(* A small universe for Circuit.                                               *)
EXTENDS Circuit, FiniteSetsExt
VARIABLE kept      \* what the last refused command left, for the record
Nodes == {"a", "b"}
CONSTANT Names
Ends == Nodes \cup {"0", "x"}
TypeOf == [V1 |-> "V", R1 |-> "R", L1 |-> "L"]
ParOf == [V |-> [V |-> 2, acreal |-> 1, acimag |-> 0], R |-> [R |-> 2], L |-> [L |-> 3]]

Fine == kept' = TRUE
No == UNCHANGED cvars /\ kept' = TRUE
DoAddNode == \E n \in Nodes \cup {"x", "0"} : IF AddNodeOK(n) THEN AddNode(n) /\ Fine ELSE No
DoElement == \E e \in Names, p, q \in Ends :
   IF ElementOK(TypeOf[e], e, p, q, FALSE) THEN Element(TypeOf[e], e, p, q, ParOf[TypeOf[e]]) /\ Fine ELSE No
DoAlter == \E e \in Names, v \in {1, 5} : IF AlterOK(e, "value") THEN Alter(e, "value", v) /\ Fine ELSE No
DoAlias == \E n \in Nodes \cup {"0"} : IF AliasOK(n, "x") THEN Alias(n, "x") /\ Fine ELSE No
DoSet == \E n \in Nodes \cup {"x", "V1.I"}, v \in {0, 3} : IF ValueOK("dcop", n) THEN SetValue("dcop", n, v) /\ Fine ELSE No
DoPrepare == cn # CFree /\ Prepare({"dcop"}) /\ Fine
DoDelete == DeleteCircuit /\ Fine
Init == CInit /\ kept = TRUE
Next == DoAddNode \/ DoElement \/ DoAlter \/ DoAlias \/ DoSet \/ DoPrepare \/ DoDelete
Spec == Init /\ [][Next]_<<cvars, kept>>

\* an alias is its node: same value, same equation
AliasIsNode == \A a \in DOMAIN al : Seen(cn, al, Op)[a] = Seen(cn, al, Op)[al[a]]
\* all that flows into the nodes flows out again, through the ground at last
NetOf(time) == LET F[S \in SUBSET DOMAIN el] ==
     IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE q == IF time THEN Dynamic(e).f ELSE Static(e).f IN
                           FAdd(SumOf(SelectSeq(q, LAMBDA t : t[1] \notin Branch(el[e].t, e)), 2), F[S \ {e}]) IN F[DOMAIN el]
Floating == \A e \in DOMAIN el : Solved(el[e].n1) /\ Solved(el[e].n2)
Kirchhoff == ("dcop" \in DOMAIN sol /\ Floating) => NetOf(FALSE) = 0 /\ NetOf(TRUE) = 0
\* every entry is in the row and the column of an unknown
InSystem == "dcop" \in DOMAIN sol => \A e \in DOMAIN el : \A q \in {Static(e), Dynamic(e)} :
     (\A i \in DOMAIN q.f : q.f[i][1] \in CNodes) /\ (\A i \in DOMAIN q.j : q.j[i][1] \in CNodes /\ q.j[i][2] \in CNodes)
\* a locked circuit has the nodes it had
Frozen == [][lock /\ lock' => DOMAIN cn' = DOMAIN cn /\ DOMAIN el' = DOMAIN el]_cvars
\* for the check that these can fail
NeedsUnresolved(t, name, n1, n2) == {n1, n2} \cup Branch(t, name)
=============================================================================
