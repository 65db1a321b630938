------------------------------- MODULE MCExprs -------------------------------
(* All expressions up to a depth over a region of one triangle: how the       *)
(* pointwise meaning follows the values, whatever the tree looks like.        *)
EXTENDS Exprs
CONSTANTS Depth, Kinds1, Kinds2
Tri == [nn |-> 3, edges |-> << <<1, 2>>, <<1, 3>>, <<2, 3>> >>, elems |-> << <<1, 3>>, <<2, 2>>, <<3, 1>> >>]
Leaves(cls) == {[k |-> "n", v |-> 2], [k |-> "par", n |-> "p"]}
  \cup (IF cls = "node" THEN {[k |-> "m", n |-> "s"]} ELSE {})
  \cup (IF cls # "node" THEN {[k |-> "end", n |-> "s", w |-> 1], [k |-> "end", n |-> "s", w |-> 2], [k |-> "m", n |-> "u"]} ELSE {})
  \cup (IF cls = "elem" THEN {[k |-> "opp", n |-> "s", w |-> 2]} ELSE {})
RECURSIVE Trees(_, _)
Trees(cls, d) == IF d = 0 THEN Leaves(cls)
  ELSE LET T == Trees(cls, d - 1) IN
       T \cup {[k |-> k, a |-> <<x>>] : k \in Kinds1, x \in T} \cup {[k |-> k, a |-> <<x, y>>] : k \in Kinds2, x \in T, y \in T}
VARIABLE now      \* the expression and class last defined
mcvars == <<vars, now>>
MCInit == /\ top = Tri /\ par = [p |-> 1] /\ fns = NoFcn /\ seen = NoFcn /\ res = [ok |-> TRUE, vals |-> <<>>]
          /\ env = ("s" :> [cls |-> "node", vals |-> <<1, -2, 3>>]) @@ ("u" :> [cls |-> "edge", vals |-> <<0, 1, -1>>])
          /\ now = <<>>
DefineAny == /\ now = <<>>
             /\ \E cls \in {"node", "edge", "elem"} : \E t \in Trees(cls, Depth) :
                  Define("x", cls, t) /\ now' = <<cls, t>>
Read == now # <<>> /\ ReadExpr("x") /\ UNCHANGED now
Change == now # <<>> /\ UNCHANGED now /\ (SetVals("s", "node", <<2, 2, 0>>) \/ SetPar("p", 0))
MCNext == DefineAny \/ Read \/ Change
MCSpec == MCInit /\ [][MCNext]_mcvars

\* an element's value for an expression of edge data is the edge's value
Lifted == now # <<>> /\ now[1] = "edge" =>
   \A i \in DOMAIN top.elems : At(now[2], "elem", i, <<>>) = At(now[2], "edge", top.elems[i][1], <<>>)
\* swapping the two operands
Swap(t) == [t EXCEPT !.a = <<t.a[2], t.a[1]>>]
Values2(t) == Values(t, now[1])
Commutes == now # <<>> /\ now[2].k \in {"+", "*", "==", "!=", "&&", "||", "min", "max"} =>
   Values2(Swap(now[2])) = Values2(now[2])
Anti == now # <<>> /\ now[2].k \in {"<", "<="} =>
   Values2([Swap(now[2]) EXCEPT !.k = IF now[2].k = "<" THEN ">" ELSE ">="]) = Values2(now[2])
Logic == now # <<>> /\ now[2].k \in {"<", ">"} =>
   \A i \in 1..Size(now[1]) : Values2(now[2])[i] \in {0, 1, BadNum}
\* defining a model for a part of the expression changes nothing
Named == now # <<>> /\ now[2].k \in Kinds2 =>
   LET part == now[2].a[1] whole == [now[2] EXCEPT !.a = <<[k |-> "m", n |-> "y"], now[2].a[2]>>]
       e2 == ("y" :> [cls |-> now[1], ast |-> part]) @@ env IN
   \A i \in 1..Size(now[1]) :
      LET l == At(part, now[1], i, <<>>) r == At(now[2].a[2], now[1], i, <<>>) IN
      At(now[2], now[1], i, <<>>) = (IF now[2].k \in {"+", "*"} THEN (IF Bads({l, r}) THEN BadNum ELSE IF now[2].k = "+" THEN l + r ELSE l * r)
                                     ELSE Op(now[2].k, <<l, r>>))
==============================================================================
