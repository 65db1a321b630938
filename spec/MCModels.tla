------------------------------ MODULE MCModels ------------------------------
(* A small universe for Models: a region of two nodes and one edge, node and  *)
(* edge models over a few names, one parameter that may hide behind a model.  *)
EXTENDS Models
T0 == [nn |-> 2, edges |-> <<<<1, 2>>>>, elems |-> <<>>, ilen |-> <<1>>]
T1 == [nn |-> 3, edges |-> <<<<1, 2>>, <<2, 3>>, <<1, 3>>>>, elems |-> <<<<1, 3>>, <<2, 1>>, <<3, 2>>>>, ilen |-> <<1, 1, 1>>]
CONSTANT Two   \* a triangle instead of an edge
NodeN == {"a", "b"}
EdgeN == {"e"}
AllN == NodeN \cup EdgeN
I(n) == [k |-> "id", n |-> n, al |-> ""]
Asts == {[k |-> "n", v |-> 2], I("a"), I("e"), I("a@n1"), [k |-> "+", a |-> <<I("b"), [k |-> "n", v |-> 1]>>]}
R1 == [r \in {"r"} |-> IF Two THEN T1 ELSE T0]
Two3(v) == IF Two THEN <<0, v, 1>> ELSE <<0, v>>
Next ==
  \/ top = NoFcn /\ CreateDevice("d", R1, [r \in {"r"} |-> NoFcn])
  \/ DeleteDevice("d")
  \/ \E v \in IF Two THEN {0, 1} ELSE {1} : Cardinality(DOMAIN top) = 1 /\ SetPar("d", "r", "b", v)
  \/ \E n \in AllN : Solution("d", "r", "node", n) \/ Read("d", "r", "node", n) \/ Delete("d", "r", "node", n)
  \/ \E n \in EdgeN \cup {"a@n0", "a@n1"} : Read("d", "r", "edge", n) \/ Delete("d", "r", "edge", n)
  \/ \E n \in NodeN, a \in Asts : Define("d", "r", "node", n, a)
  \/ \E a \in Asts : Define("d", "r", "edge", "e", a)
  \/ Two /\ \E a \in Asts : Define("d", "r", "elem", "e", a)
  \/ EdgeFromNode("d", "r", "a", "a@n0", "a@n1")
  \/ \E n \in NodeN : Average("d", "r", n, "e", "gradient")
  \/ \E n \in NodeN : \E v \in IF Two THEN {0, 1} ELSE {1} :
        \/ SetValues("d", "r", "node", n, Two3(v))
        \/ SetOne("d", "r", n, -1, v)
        \* keeping the values elsewhere: of solutions, or there is no end to the values
        \/ ~(Exists("d", "r") /\ Is(<<"d", "r">>, n, "node") /\ mods[<<"d", "r">>][n].kind = "expr") /\ SetOne("d", "r", n, 1, v)
  \/ \E c \in {"node", "edge"} : List("d", "r", c)
Spec == Init /\ [][Next]_vars

\* every model has a value at each of its locations, or none at all
WellTyped == \A dr \in DOMAIN mods : \A n \in DOMAIN mods[dr] :
   LET x == Value(dr, n, {}) IN x.t \in Broken \/ (x.t = mods[dr][n].cls /\ Len(x.v) = Size(top[dr], x.t))
\* lists of different classes never share a name
Unique == [][res'.lst # {} => \A dr \in DOMAIN mods : \E c \in {"node", "edge"} : res'.lst = {n \in Names(dr) : mods[dr][n].cls = c}]_vars
MaxModels == \A dr \in DOMAIN mods : Cardinality(DOMAIN mods[dr]) <= 3
View == <<top, mods, par>>
=============================================================================
