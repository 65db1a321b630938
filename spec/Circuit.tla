------------------------------- MODULE Circuit -------------------------------
(* The netlist: nodes, elements, aliases and the solutions kept per node, and  *)
(* the equations the elements contribute.                                      *)
EXTENDS Field, Sequences, FiniteSets, TLC

VARIABLES cn,     \* [node -> "gnd" | "node"]
          al,     \* [alias -> node]
          el,     \* [element -> [t, n1, n2, p]]  p: parameter -> number
          sol,    \* [solution -> [node -> number]]
          lock    \* an analysis was made: no further nodes or elements

cvars == <<cn, al, el, sol, lock>>
CFree == [x \in {} |-> 0]
Grounds == [n \in {"0", "GND"} |-> "gnd"]
CInit == cn = CFree /\ al = CFree /\ el = CFree /\ sol = CFree /\ lock = FALSE

Real(n) == IF n \in DOMAIN al THEN al[n] ELSE n
Known(n) == n \in DOMAIN cn \/ n \in DOMAIN al
Solved(n) == cn[n] # "gnd"
CNodes == {n \in DOMAIN cn : Solved(n)}
ZeroSol == [n \in CNodes |-> 0]

\* the part of the operating point that models can see
Seen(c, a, s) ==
  LET v(n) == IF n \in DOMAIN s THEN s[n] ELSE 0 IN
  [n \in DOMAIN c |-> v(n)] @@ [n \in DOMAIN a |-> v(a[n])]
Op == IF "dcop" \in DOMAIN sol THEN sol["dcop"] ELSE CFree

\* -------------------------------------------------------------- netlist ----
\* every mention of the circuit brings in the ground
WithGround(c) == Grounds @@ c
WithNodes(c, ns) == [n \in ns \ DOMAIN c |-> "node"] @@ c

AddNodeOK(n) == ~Known(n) /\ n \notin DOMAIN Grounds /\ ~lock
AddNode(n) == cn' = WithNodes(WithGround(cn), {n}) /\ UNCHANGED <<al, el, sol, lock>>

ElementTypes == {"V", "I", "C", "L", "R"}
Default(t) == t            \* the parameter "value" stands for
Params(t) == IF t = "V" THEN {"V", "acreal", "acimag"} ELSE {t}
Branch(t, name) == IF t \in {"V", "L"} THEN {name \o ".I"} ELSE {}
Needs(t, name, n1, n2) == {Real(n1), Real(n2)} \cup Branch(t, name)
ElementOK(t, name, n1, n2, ac) ==
  /\ t \in ElementTypes /\ name \notin DOMAIN el
  /\ ac => t = "V"
  /\ ~lock
Element(t, name, n1, n2, p) ==
  /\ cn' = WithNodes(WithGround(cn), Needs(t, name, n1, n2))
  /\ el' = (name :> [t |-> t, n1 |-> Real(n1), n2 |-> Real(n2), p |-> p]) @@ el
  /\ UNCHANGED <<al, sol, lock>>

ParamOf(name, p) == IF p \in {"value", ""} THEN Default(el[name].t) ELSE p
AlterOK(name, p) == name \in DOMAIN el /\ (name \in DOMAIN el => ParamOf(name, p) \in Params(el[name].t))
Alter(name, p, v) == el' = [el EXCEPT ![name].p[ParamOf(name, p)] = v] /\ UNCHANGED <<cn, al, sol, lock>>

\* only a node itself can have an alias
AliasOK(n, a) == n \in DOMAIN WithGround(cn) /\ ~Known(a) /\ a \notin DOMAIN Grounds
Alias(n, a) == al' = (a :> n) @@ al /\ cn' = WithGround(cn) /\ UNCHANGED <<el, sol, lock>>

ValueOK(s, n) == (Known(n) \/ n \in DOMAIN Grounds) /\ s \in DOMAIN sol
ValueOf(s, n) == IF Real(n) \in CNodes THEN sol[s][Real(n)] ELSE 0
SetValue(s, n, v) ==
  /\ sol' = IF Real(n) \in CNodes THEN [sol EXCEPT ![s][Real(n)] = v] ELSE sol
  /\ UNCHANGED <<cn, al, el, lock>>

DeleteCircuit == cn' = CFree /\ al' = CFree /\ el' = CFree /\ sol' = CFree /\ lock' = FALSE

\* the first use of the circuit by an analysis
Prepare(names) == /\ sol' = [s \in names \ DOMAIN sol |-> ZeroSol] @@ sol
                  /\ lock' = TRUE
                  /\ UNCHANGED <<cn, al, el>>

\* ------------------------------------------------------ element equations ----
\* contributions to the sum of currents at a node and to branch equations:
\* values <<row, value>>, derivatives <<row, column, value>>
VoltOf(n) == IF n \in DOMAIN Op THEN Op[n] ELSE 0
One(row, v) == IF Solved(row) THEN <<<<row, v>>>> ELSE <<>>
Two(row, col, v) == IF Solved(row) /\ Solved(col) THEN <<<<row, col, v>>>> ELSE <<>>

Static(name) ==
  LET e == el[name] a == e.n1 b == e.n2 i == name \o ".I" IN
  CASE e.t = "R" ->
         LET g == FInv(e.p["R"]) c == FMul(FSub(VoltOf(a), VoltOf(b)), g) IN
         [f |-> One(a, c) \o One(b, FNeg(c)),
          j |-> Two(a, a, g) \o Two(a, b, FNeg(g)) \o Two(b, a, FNeg(g)) \o Two(b, b, g)]
    [] e.t = "V" ->
         [f |-> One(a, VoltOf(i)) \o One(b, FNeg(VoltOf(i))) \o One(i, FSub(FSub(VoltOf(a), VoltOf(b)), e.p["V"])),
          j |-> Two(a, i, 1) \o Two(i, a, 1) \o Two(b, i, PP - 1) \o Two(i, b, PP - 1)]
    [] e.t = "I" -> [f |-> One(a, FNeg(e.p["I"])) \o One(b, e.p["I"]), j |-> <<>>]
    [] e.t = "L" ->
         [f |-> One(a, VoltOf(i)) \o One(b, FNeg(VoltOf(i))) \o One(i, FSub(VoltOf(b), VoltOf(a))),
          j |-> Two(a, i, 1) \o Two(b, i, PP - 1) \o Two(i, a, PP - 1) \o Two(i, b, 1)]
    [] OTHER -> [f |-> <<>>, j |-> <<>>]

\* the part under the time derivative
Dynamic(name) ==
  LET e == el[name] a == e.n1 b == e.n2 i == name \o ".I" IN
  CASE e.t = "C" ->
         LET q == FMul(FSub(VoltOf(a), VoltOf(b)), e.p["C"]) c == e.p["C"] IN
         [f |-> One(a, q) \o One(b, FNeg(q)),
          j |-> Two(a, a, c) \o Two(a, b, FNeg(c)) \o Two(b, a, FNeg(c)) \o Two(b, b, c)]
    [] e.t = "L" -> [f |-> One(i, FMul(e.p["L"], VoltOf(i))), j |-> Two(i, i, e.p["L"])]
    [] OTHER -> [f |-> <<>>, j |-> <<>>]

\* small-signal sources
AcSources == {n \in DOMAIN el : el[n].t = "V"}

\* ------------------------------------------------------------- properties ----
GroundsHold == cn # CFree => \A n \in DOMAIN Grounds : n \in DOMAIN cn /\ cn[n] = "gnd"
AliasesPoint == \A a \in DOMAIN al : a \notin DOMAIN cn /\ al[a] \in DOMAIN cn
Wired == \A e \in DOMAIN el : {el[e].n1, el[e].n2} \cup Branch(el[e].t, e) \subseteq DOMAIN cn
Locked == (sol # CFree => lock) /\ \A s \in DOMAIN sol : DOMAIN sol[s] = CNodes
\* what one element puts into all node equations adds up to nothing: current is conserved
SumOf(q, k) == IF q = <<>> THEN 0 ELSE
   LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE FAdd(F[i - 1], q[i][k]) IN F[Len(q)]
Conserved == \A e \in DOMAIN el :
   LET S == Static(e).f D == Dynamic(e).f
       At(q) == SelectSeq(q, LAMBDA t : t[1] \notin Branch(el[e].t, e)) IN
   (Solved(el[e].n1) /\ Solved(el[e].n2) /\ "dcop" \in DOMAIN sol) =>
       SumOf(At(S), 2) = 0 /\ SumOf(At(D), 2) = 0
=============================================================================
