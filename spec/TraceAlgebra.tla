---------------------------- MODULE TraceAlgebra ----------------------------
(* What the model compiler was told and what it printed, against the terms   *)
(* and their values.                                                         *)
EXTENDS Algebra, TraceBase

VARIABLE i
tvars == <<avars, i>>

\* the local names of a routine, defined one after the other from what is before them
Local(defs, n) == [models |-> [x \in {defs[k][1] : k \in 1..n} |-> (defs[CHOOSE k \in 1..n : defs[k][1] = x])[2]], funcs |-> funcs]
RECURSIVE ModelsIn(_)
ModelsIn(e) == CASE e[1] = "m" -> {e[2]}
                 [] e[1] \in {"c", "v"} -> {}
                 [] OTHER -> UNION {ModelsIn(Args(e)[k]) : k \in DOMAIN Args(e)}

Part(q, part) == IF part = "dc" THEN eqs[q].dc ELSE eqs[q].td

\* a routine: the models it needs, the value of every equation and of its derivatives; where they are put
Routine(e) ==
  LET L == Local(e.defs, Len(e.defs))
      names == {e.defs[k][1] : k \in DOMAIN e.defs}
      rhs == {e.rhs[k] : k \in DOMAIN e.rhs}
      mat == {e.mat[k] : k \in DOMAIN e.mat}
  IN
  /\ Cardinality(names) = Len(e.defs) /\ Cardinality(rhs) = Len(e.rhs) /\ Cardinality(mat) = Len(e.mat)
  /\ \A k \in DOMAIN e.defs : ModelsIn(e.defs[k][2]) \subseteq {e.defs[j][1] : j \in 1..(k - 1)}
  \* what each is said to be, if anything, it is
  /\ \A k \in DOMAIN e.means : Covers(Now, L, e.means[k][2], <<"m", e.means[k][1]>>)
  /\ \A q \in DOMAIN eqs :
       LET n == links[q] t == Part(q, e.part) IN
       /\ IF <<n, q>> \in rhs THEN q \in names /\ Covers(Now, L, t, <<"m", q>>) ELSE IsZero(Now, t)
       /\ \A j \in nodes :
            LET d == <<"diff", t, j>> f == q \o "_" \o j IN
            IF <<n, j, f>> \in mat THEN f \in names /\ Covers(Now, L, d, <<"m", f>>) ELSE IsZero(Now, d)
  /\ \A r \in rhs : \E q \in DOMAIN eqs : r = <<links[q], q>>
  /\ \A r \in mat : \E q \in DOMAIN eqs, j \in nodes : r = <<links[q], j, q \o "_" \o j>>

Step(e) ==
  CASE e.op = "reset" -> UNCHANGED avars
    [] e.op = "start" -> Start(e.points)
    [] e.op = "func" -> Func(e.name, e.args, e.body, e.ders)
    [] e.op = "node" -> Node(e.name)
    [] e.op = "model" -> Covers(Now, Now, e.src, e.shown) /\ Model(e.name, e.src)
    [] e.op = "equation" -> /\ Covers(Now, Now, e.dc, e.showndc) /\ Covers(Now, Now, e.td, e.showntd)
                            /\ Equation(e.name, e.dc, e.td)
    [] e.op = "link" -> Link(e.name, e.node)
    \* everything printed: what it is to be, and what it is
    [] e.op = "listed" -> /\ DOMAIN models \subseteq {e.list[k][1] : k \in DOMAIN e.list}
                          /\ \A k \in DOMAIN e.list : Covers(Now, Now, e.list[k][2], e.list[k][3])
                          /\ UNCHANGED avars
    [] e.op = "equations" -> /\ {e.list[k][1] : k \in DOMAIN e.list} = DOMAIN eqs
                             /\ \A k \in DOMAIN e.list :
                                   /\ Covers(Now, Now, eqs[e.list[k][1]].dc, e.list[k][2])
                                   /\ Covers(Now, Now, eqs[e.list[k][1]].td, e.list[k][3])
                             /\ UNCHANGED avars
    [] e.op = "derivs" -> /\ {<<e.list[k][1], e.list[k][2], e.list[k][3]>> : k \in DOMAIN e.list} = {<<q, w, n>> : q \in DOMAIN eqs, w \in {"dc", "td"}, n \in nodes}
                          /\ \A k \in DOMAIN e.list :
                               Covers(Now, Now, <<"diff", Part(e.list[k][1], e.list[k][2]), e.list[k][3]>>, e.list[k][4])
                          /\ UNCHANGED avars
    [] e.op = "routine" -> Routine(e) /\ UNCHANGED avars
    [] OTHER -> FALSE

TraceInit == AInit /\ i = 1
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
