------------------------------- MODULE Models -------------------------------
(* Node, edge and element models of regions: what a read returns is a pure    *)
(* function of the current definitions, solution values and parameters.        *)
(* No caching appears here; ModelCache shows that a cache can implement it.    *)
EXTENDS Field, Sequences, FiniteSets, TLC

VARIABLES top,    \* [<<device, region>> -> topology]
          mods,   \* [<<device, region>> -> [name -> definition]]
          par,    \* [<<device, region, name>> -> number]  ("" = outer scope)
          res     \* reply to the last command

vars == <<top, mods, par, res>>
NoFcn == [x \in {} |-> 0]

Anything == <<-1>>
Reply(ok, vals, lst) == res' = [ok |-> ok, vals |-> vals, lst |-> lst]
Refuse == UNCHANGED <<top, mods, par>> /\ Reply(FALSE, <<>>, {})
Done == Reply(TRUE, <<>>, {})

\* --------------------------------------------------------------- values ----
Bad == [t |-> "bad", v |-> 0]
\* a product with a scalar zero need not look at its other factors
AnyVal == [t |-> "any", v |-> 0]
Num(x) == [t |-> "num", v |-> x]
Uniform(x, n) == [i \in 1..n |-> x]
Size(T, cls) == CASE cls = "node" -> T.nn
                  [] cls = "edge" -> Len(T.edges)
                  [] cls = "elem" -> Len(T.elems)
\* each element edge sees the value of its edge
ToElem(T, v) == [i \in 1..Len(T.elems) |-> v[T.elems[i][1]]]
Widen(T, x, t) == CASE x.t \in {t, "any"} -> x
                    [] x.t = "num" -> [t |-> t, v |-> Uniform(x.v, Size(T, t))]
                    [] x.t = "edge" /\ t = "elem" -> [t |-> t, v |-> ToElem(T, x.v)]
                    [] x.t # "bad" /\ \A i \in DOMAIN x.v : x.v[i] = 0 -> AnyVal
                    [] OTHER -> Bad
Common(x, y) == CASE x.t = "any" \/ y.t = "any" -> "any"
                  [] x.t = "bad" \/ y.t = "bad" -> "bad"
                  [] x.t = y.t -> x.t
                  [] x.t = "num" -> y.t
                  [] y.t = "num" -> x.t
                  [] {x.t, y.t} = {"edge", "elem"} -> "elem"
                  [] OTHER -> "bad"
Lift(T, Op(_, _), x, y) ==
  LET t == Common(x, y) IN
  CASE t = "any" -> AnyVal
    [] t = "bad" -> Bad
    [] t = "num" -> Num(Op(x.v, y.v))
    [] OTHER -> LET a == Widen(T, x, t) b == Widen(T, y, t)
                IN [t |-> t, v |-> [i \in DOMAIN a.v |-> Op(a.v[i], b.v[i])]]

Zero(x) == x.t = "num" /\ x.v = 0
Times(T, x, y) == IF Zero(x) \/ Zero(y)
                  THEN IF Common(x, y) \in {"bad", "any"} THEN AnyVal ELSE Num(0)
                  ELSE Lift(T, FMul, x, y)

\* ------------------------------------------------------------ parameters ----
\* A circuit node is visible everywhere, behind the parameters: its value is
\* kept under the pseudo device CKT.
CKT == "*circuit*"
Visible(d, r, n) == \/ <<d, r, n>> \in DOMAIN par
                    \/ <<d, "", n>> \in DOMAIN par
                    \/ <<"", "", n>> \in DOMAIN par
                    \/ <<CKT, "", n>> \in DOMAIN par
Lookup(d, r, n) == IF <<d, r, n>> \in DOMAIN par THEN par[<<d, r, n>>]
                   ELSE IF <<d, "", n>> \in DOMAIN par THEN par[<<d, "", n>>]
                   ELSE IF <<"", "", n>> \in DOMAIN par THEN par[<<"", "", n>>]
                   ELSE par[<<CKT, "", n>>]

\* ----------------------------------------------------------- expressions ----
\* Whether a name means a model or a parameter is settled when the
\* expression is defined.
RECURSIVE Bind(_, _)
Bind(a, names) ==
  CASE a.k = "n" -> a
    [] a.k = "id" -> [k |-> IF a.n \in names \/ a.al \in names THEN "m" ELSE "v", n |-> a.n, al |-> a.al]
    [] OTHER -> [k |-> a.k, a |-> [i \in DOMAIN a.a |-> Bind(a.a[i], names)]]

Broken == {"bad", "any"}
RECURSIVE Eval(_, _, _, _), ValueIn(_, _, _, _), Fold(_, _, _, _, _, _)
Fold(M, k, s, i, dr, stk) ==
  LET T == top[dr] x == Eval(M, s[i], dr, stk) IN
  IF i = 1 THEN x
  ELSE IF k = "+" THEN Lift(T, FAdd, Fold(M, k, s, i - 1, dr, stk), x)
                  ELSE Times(T, Fold(M, k, s, i - 1, dr, stk), x)
Eval(M, a, dr, stk) ==
  CASE a.k = "n" -> Num(a.v)
    [] a.k = "v" -> IF Visible(dr[1], dr[2], a.n) THEN Num(Lookup(dr[1], dr[2], a.n)) ELSE Bad
    [] a.k = "m" -> IF a.n \in DOMAIN M THEN ValueIn(M, dr, a.n, stk)
                    ELSE IF a.al \in DOMAIN M THEN ValueIn(M, dr, a.al, stk)
                    ELSE Num(0)       \* a model deleted since
    [] a.k = "-" -> LET x == Eval(M, a.a[1], dr, stk) IN
                    Lift(top[dr], FMul, Num(PP - 1), x)
    [] OTHER -> Fold(M, a.k, a.a, Len(a.a), dr, stk)

NodeBase(M, dr, n, stk) == IF n \in DOMAIN M /\ M[n].cls = "node" THEN ValueIn(M, dr, n, stk) ELSE Bad
Ends(T, v, w) == [i \in 1..Len(T.edges) |-> v[T.edges[i][w]]]
\* the value of a model at all its locations, M the models of its region
ValueIn(M, dr, n, stk) == Deep(
  LET T == top[dr] m == M[n] s == stk \cup {n} IN
  IF n \in stk THEN Bad          \* depends on itself
  ELSE CASE m.kind = "sol" -> [t |-> m.cls, v |-> m.vals]
         \* values may be set over those of its expression, until it is evaluated again
         [] m.kind = "expr" -> IF m.pin # <<>> THEN [t |-> m.cls, v |-> m.pin]
                               ELSE Widen(T, Eval(M, m.ast, dr, s), m.cls)
         \* a contact's model: zero away from its nodes or edges
         [] m.kind = "cexpr" ->
              LET x == Widen(T, Eval(M, m.ast, dr, s), m.cls) IN
              IF x.t \in Broken THEN x
              ELSE [t |-> x.t, v |-> [i \in DOMAIN x.v |-> IF i \in m.only THEN x.v[i] ELSE 0]]
         \* a node model seen from the ends of the edges: name@n0, name@n1
         [] m.kind = "from" ->
              LET b == NodeBase(M, dr, m.base, s) IN
              IF b.t \in Broken THEN b ELSE IF m.lead \notin DOMAIN M THEN Bad
              ELSE [t |-> "edge", v |-> Ends(T, b.v, m.w)]
         \* ... and from the edges of the elements: @en0, @en1, and @en2 opposite
         [] m.kind = "efrom" ->
              LET b == NodeBase(M, dr, m.base, s) IN
              IF b.t \in Broken THEN b ELSE IF m.lead \notin DOMAIN M THEN Bad
              ELSE [t |-> "elem", v |-> [i \in 1..Len(T.elems) |->
                      b.v[IF m.w >= 3 THEN T.elems[i][m.w - 1] ELSE T.edges[T.elems[i][1]][m.w]]]]
         [] m.kind = "avg" ->
              LET b == NodeBase(M, dr, m.base, s)
                  x == IF b.t \in Broken THEN <<>> ELSE Ends(T, b.v, 1)
                  y == IF b.t \in Broken THEN <<>> ELSE Ends(T, b.v, 2) IN
              IF b.t \in Broken THEN b
              ELSE [t |-> "edge", v |-> [i \in 1..Len(T.edges) |->
                     CASE m.how = "arithmetic" -> FMul(Half, FAdd(x[i], y[i]))
                       [] m.how = "gradient" -> FMul(T.ilen[i], FSub(y[i], x[i]))
                       [] m.how = "negative_gradient" -> FMul(T.ilen[i], FSub(x[i], y[i]))]]
         \* derivative of an average with respect to the variable at end w
         [] m.kind = "davg" ->
              LET b == NodeBase(M, dr, m.base, s)
                  d == IF m.dmod = "" THEN [t |-> "node", v |-> Uniform(1, T.nn)] ELSE NodeBase(M, dr, m.dmod, s)
                  x == IF d.t \in Broken THEN <<>> ELSE Ends(T, d.v, m.w)
                  sg == IF (m.how = "gradient") = (m.w = 2) THEN 1 ELSE PP - 1 IN
              \* what the average itself is need not be looked at
              IF b.t \in Broken THEN AnyVal ELSE IF d.t \in Broken THEN d
              ELSE IF m.lead \notin DOMAIN M THEN Bad
              ELSE [t |-> "edge", v |-> [i \in 1..Len(T.edges) |->
                     IF m.how = "arithmetic" THEN FMul(Half, x[i])
                     ELSE FMul(sg, FMul(T.ilen[i], x[i]))]])
Value(dr, n, stk) == ValueIn(mods[dr], dr, n, stk)

\* -------------------------------------------------------------- commands ----
Exists(d, r) == <<d, r>> \in DOMAIN top
Names(dr) == DOMAIN mods[dr]
Is(dr, n, cls) == n \in Names(dr) /\ mods[dr][n].cls = cls
\* a definition may take the place of one of its own class only
Free(dr, n, cls) == n \notin Names(dr) \/ mods[dr][n].cls = cls
OneF(n, m) == [x \in {n} |-> m]

\* what a model is derived from, directly or through others
RECURSIVE RefsA(_), Reach(_, _, _)
RefsA(a) == CASE a.k = "n" -> {}
              [] a.k \in {"m", "v"} -> {a.n, a.al}
              [] OTHER -> UNION {RefsA(a.a[i]) : i \in DOMAIN a.a}
RefsM(m) == CASE m.kind = "sol" -> {}
              [] m.kind \in {"expr", "cexpr"} -> RefsA(m.ast)
              [] m.kind \in {"from", "efrom"} -> {m.base, m.lead}
              [] m.kind = "avg" -> {m.base}
              [] m.kind = "davg" -> {m.base, m.dmod, m.lead}
Reach(M, todo, done) ==
  LET new == UNION {IF n \in DOMAIN M THEN RefsM(M[n]) ELSE {} : n \in todo} IN
  IF new \subseteq done THEN done ELSE Reach(M, new \ done, done \cup new)
Pinned(M) == {n \in DOMAIN M : M[n].kind = "expr" /\ M[n].pin # <<>>}
\* Values set over an expression go, at the latest when the model is next
\* evaluated, once something it is derived from has changed. Evaluating one of
\* a family (name@n0, name@n1, ...), whose values are set together, counts.
Loose(M, n) == \E x \in Reach(M, {n}, {}) \cap DOMAIN M : M[x].kind \in {"from", "efrom", "davg"}
Unpin(M, names) ==
  LET may == {n \in Pinned(M) : names \cap Reach(M, {n}, {}) # {}} IN
  [n \in DOMAIN M |-> IF n \in may THEN [M[n] EXCEPT !.may = TRUE] ELSE M[n]]
\* which of them are still there shows when the model is evaluated
Doubtful(M, n) == {x \in ({n} \cup Reach(M, {n}, {})) \cap Pinned(M) : M[x].may}
Settle(M, n) ==
  LET may == Doubtful(M, n) IN
  IF may = {} THEN {M}
  ELSE {[x \in DOMAIN M |-> IF x \in S THEN [M[x] EXCEPT !.pin = <<>>, !.may = FALSE]
                            ELSE IF x \in may THEN [M[x] EXCEPT !.may = Loose(M, x)]
                            ELSE M[x]] : S \in SUBSET may}

Put(dr, f) == mods' = [mods EXCEPT ![dr] = Unpin(f @@ mods[dr], DOMAIN f)]
SetVals(dr, n, v) == LET m == mods[dr][n] IN
                     /\ m.kind \in {"sol", "expr"}
                     /\ Put(dr, OneF(n, IF m.kind = "sol" THEN [m EXCEPT !.vals = v] ELSE [m EXCEPT !.pin = v, !.may = Loose(mods[dr], n)]))
Dim1(dr, cls) == cls = "elem" /\ Len(top[dr].elems) = 0

Reset == /\ top' = NoFcn /\ mods' = NoFcn /\ par' = NoFcn /\ Done

CreateDevice(d, regs, builtin) ==
  /\ \A r \in DOMAIN regs : <<d, r>> \notin DOMAIN top
  /\ top' = [x \in {<<d, r>> : r \in DOMAIN regs} |-> regs[x[2]]] @@ top
  /\ mods' = [x \in {<<d, r>> : r \in DOMAIN regs} |-> builtin[x[2]]] @@ mods
  /\ UNCHANGED par /\ Done

DeleteDevice(d) ==
  IF \E r \in DOMAIN top : r[1] = d
  THEN /\ top' = [x \in {y \in DOMAIN top : y[1] # d} |-> top[x]]
       /\ mods' = [x \in {y \in DOMAIN mods : y[1] # d} |-> mods[x]]
       /\ par' = [x \in {y \in DOMAIN par : y[1] # d} |-> par[x]]
       /\ Done
  ELSE Refuse

SetPar(d, r, n, v) ==
  /\ par' = OneF(<<d, r, n>>, v) @@ par
  /\ mods' = [dr \in DOMAIN mods |-> IF d \in {"", dr[1]} /\ r \in {"", dr[2]} THEN Unpin(mods[dr], {n}) ELSE mods[dr]]
  /\ UNCHANGED top /\ Done

\* node_solution, edge_solution, element_solution
Solution(d, r, cls, n) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (Dim1(dr, cls) \/ ~Free(dr, n, cls))) THEN Refuse
  ELSE /\ Put(dr, OneF(n, [cls |-> cls, kind |-> "sol", vals |-> Uniform(0, Size(top[dr], cls))]))
       /\ UNCHANGED <<top, par>> /\ Done

\* node_model, edge_model, element_model
Define(d, r, cls, n, ast) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (Dim1(dr, cls) \/ ~Free(dr, n, cls))) THEN Refuse
  ELSE /\ Put(dr, OneF(n, [cls |-> cls, kind |-> "expr", ast |-> Bind(ast, Names(dr)), pin |-> <<>>, may |-> FALSE]))
       /\ UNCHANGED <<top, par>> /\ Done

EdgeFromNode(d, r, n, n0, n1) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, "node") \/ ~Free(dr, n0, "edge") \/ ~Free(dr, n1, "edge"))) THEN Refuse
  ELSE /\ Put(dr, OneF(n0, [cls |-> "edge", kind |-> "from", base |-> n, w |-> 1, lead |-> n0])
               @@ OneF(n1, [cls |-> "edge", kind |-> "from", base |-> n, w |-> 2, lead |-> n0]))
       /\ UNCHANGED <<top, par>> /\ Done

ElemFromNode(d, r, n, es) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, "node") \/ Dim1(dr, "elem") \/ \E i \in DOMAIN es : ~Free(dr, es[i], "elem"))) THEN Refuse
  ELSE /\ Put(dr, [x \in {es[i] : i \in DOMAIN es} |->
                     [cls |-> "elem", kind |-> "efrom", base |-> n, w |-> CHOOSE i \in DOMAIN es : es[i] = x, lead |-> es[1]]])
       /\ UNCHANGED <<top, par>> /\ Done

Average(d, r, n, e, how) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, "node") \/ ~Free(dr, e, "edge")))
     \/ how \notin {"arithmetic", "gradient", "negative_gradient"} THEN Refuse
  ELSE /\ Put(dr, OneF(e, [cls |-> "edge", kind |-> "avg", base |-> n, how |-> how]))
       /\ UNCHANGED <<top, par>> /\ Done

\* dn: the node model of the derivative, "" when differentiating by itself
AverageDer(d, r, n, v, dn, e0, e1, how) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, "node") \/ ~Is(dr, v, "node") \/ ~Free(dr, e0, "edge") \/ ~Free(dr, e1, "edge")
                                         \/ (dn # "" /\ ~Is(dr, dn, "node")))) THEN Refuse
  ELSE LET D(w) == [cls |-> "edge", kind |-> "davg", base |-> n, dmod |-> dn, w |-> w, how |-> how, lead |-> e0] IN
       /\ Put(dr, OneF(e0, D(1)) @@ OneF(e1, D(2)))
       /\ UNCHANGED <<top, par>> /\ Done

Delete(d, r, cls, n) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, cls) \/ Dim1(dr, cls))) THEN Refuse
  ELSE /\ mods' = [mods EXCEPT ![dr] = Unpin([x \in Names(dr) \ {n} |-> @[x]], {n})]
       /\ UNCHANGED <<top, par>> /\ Done

\* set_node_values, set_edge_values, set_element_values with values=
SetValues(d, r, cls, n, vals) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, cls) \/ Dim1(dr, cls) \/ Len(vals) # Size(top[dr], cls))) THEN Refuse
  ELSE /\ SetVals(dr, n, vals)
       /\ UNCHANGED <<top, par>> /\ Done

\* ... with init_from=: initializes solutions only
CopyValues(d, r, cls, n, from) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, cls) \/ ~Is(dr, from, cls) \/ Dim1(dr, cls))) THEN Refuse
  ELSE IF mods[dr][n].kind # "sol" THEN Refuse
  ELSE LET x == Value(dr, from, {}) IN
       IF x.t = "bad" THEN Refuse
       ELSE /\ Doubtful(mods[dr], from) = {} /\ x.t # "any" /\ SetVals(dr, n, x.v)
            /\ UNCHANGED <<top, par>> /\ Done

\* set_node_value: one index, or all of them (-1)
SetOne(d, r, n, i, v) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, "node") \/ i < -1 \/ i >= top[dr].nn)) THEN Refuse
  ELSE IF i = -1 THEN /\ SetVals(dr, n, Uniform(v, top[dr].nn)) /\ UNCHANGED <<top, par>> /\ Done
  \* the values elsewhere are those it has now
  ELSE LET x == Value(dr, n, {}) IN
       IF x.t = "bad" THEN Refuse
       ELSE
       /\ Doubtful(mods[dr], n) = {} /\ x.t # "any" /\ SetVals(dr, n, [x.v EXCEPT ![i + 1] = v])
       /\ UNCHANGED <<top, par>> /\ Done

Read(d, r, cls, n) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) \/ (Exists(d, r) /\ (~Is(dr, n, cls) \/ Dim1(dr, cls))) THEN Refuse
  ELSE \E M \in Settle(mods[dr], n) :
       /\ mods' = [mods EXCEPT ![dr] = M]
       /\ UNCHANGED <<top, par>>
       /\ LET x == ValueIn(M, dr, n, {}) IN
          CASE x.t = "bad" -> Reply(FALSE, <<>>, {})
            [] x.t = "any" -> \E ok \in BOOLEAN : Reply(ok, Anything, {})
            [] OTHER -> Reply(TRUE, x.v, {})

List(d, r, cls) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) THEN Refuse
  ELSE UNCHANGED <<top, mods, par>> /\ Reply(TRUE, <<>>, {n \in Names(dr) : mods[dr][n].cls = cls})

Init == top = NoFcn /\ mods = NoFcn /\ par = NoFcn /\ res = [ok |-> TRUE, vals |-> <<>>, lst |-> {}]

\* ------------------------------------------------------------- properties ----
\* all there is about models but values set over expressions
Written(M) == [n \in DOMAIN M |-> IF M[n].kind = "expr" THEN [M[n] EXCEPT !.pin = <<>>, !.may = FALSE] ELSE M[n]]
Defs == [x \in DOMAIN mods |-> Written(mods[x])]
RefusalsChangeNothing == [][~res'.ok => UNCHANGED <<top, par>> /\ Defs' = Defs]_vars
\* a command on one region leaves the models of every other region alone
OneRegion == [][Cardinality({x \in DOMAIN Defs \cap DOMAIN Defs' : Defs[x] # Defs'[x]}) <= 1]_vars
=============================================================================
