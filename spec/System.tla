-------------------------------- MODULE System -------------------------------
(* Equations on regions, contacts, interfaces and the circuit, their numbering *)
(* and the one system of equations they assemble into.                         *)
EXTENDS Models, Circuit, SequencesExt, FiniteSetsExt

VARIABLES dev,    \* [device -> [cons: contact -> [reg, nodes], ifs: interface -> [r0, r1, n0, n1], ord]]
          eqs,    \* [<<device, region>> -> sequence of equations]
          ceqs,   \* [<<device, contact>> -> [name -> equation]]
          ieqs,   \* [<<device, interface>> -> [name -> equation]]
          imods,  \* [<<device, interface>> -> [name -> expression]]
          cust,   \* [name -> custom equation]
          wt      \* [<<device, region, kind>> -> model name] ("" = outer scope)

evars == <<dev, eqs, ceqs, ieqs, imods, cust, wt>>
svars == <<top, mods, par, cvars, evars>>
Keep == UNCHANGED svars
No == Keep /\ Reply(FALSE, <<>>, {})
Range0(f) == {f[x] : x \in DOMAIN f}
Free0 == [x \in {} |-> 0]

Kinds == [node |-> "NodeVolume", couple |-> "EdgeCouple", v0 |-> "EdgeNodeVolume", v1 |-> "EdgeNodeVolume",
          ecouple |-> "ElementEdgeCouple", e0 |-> "ElementNodeVolume", e1 |-> "ElementNodeVolume",
          area |-> "SurfaceArea"]
W(dr, k) == IF <<dr[1], dr[2], k>> \in DOMAIN wt THEN wt[<<dr[1], dr[2], k>>]
            ELSE IF <<dr[1], "", k>> \in DOMAIN wt THEN wt[<<dr[1], "", k>>]
            ELSE IF <<"", "", k>> \in DOMAIN wt THEN wt[<<"", "", k>>]
            ELSE Kinds[k]

\* ---------------------------------------------------------- structure --------
\* what models see of the circuit
Mirror == par' = [x \in {<<CKT, "", n>> : n \in DOMAIN Seen(cn', al', IF "dcop" \in DOMAIN sol' THEN sol'["dcop"] ELSE CFree)}
                   |-> Seen(cn', al', IF "dcop" \in DOMAIN sol' THEN sol'["dcop"] ELSE CFree)[x[3]]]
                 @@ [x \in {y \in DOMAIN par : y[1] # CKT} |-> par[x]]
CircuitStep == Mirror /\ UNCHANGED <<top, mods, evars>>

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A x \in S : \E i \in DOMAIN f : f[i] = x}
Overlap(cons) == \E a, b \in DOMAIN cons : a # b /\ cons[a].reg = cons[b].reg /\ Range0(cons[a].nodes) \cap Range0(cons[b].nodes) # {}
Orders(cons) == IF Overlap(cons) THEN Perms(DOMAIN cons) ELSE {SetToSeq(DOMAIN cons)}

CreateSystem(d, regs, builtin, cons, ifs) ==
  /\ CreateDevice(d, regs, builtin)
  /\ \E o \in Orders(cons) : dev' = (d :> [cons |-> cons, ifs |-> ifs, ord |-> o]) @@ dev
  /\ eqs' = [x \in {<<d, r>> : r \in DOMAIN regs} |-> <<>>] @@ eqs
  /\ ceqs' = [x \in {<<d, c>> : c \in DOMAIN cons} |-> Free0] @@ ceqs
  /\ ieqs' = [x \in {<<d, i>> : i \in DOMAIN ifs} |-> Free0] @@ ieqs
  /\ imods' = [x \in {<<d, i>> : i \in DOMAIN ifs} |-> Free0] @@ imods
  /\ UNCHANGED <<cvars, cust, wt>>

Drop(f, d) == [x \in {y \in DOMAIN f : y[1] # d} |-> f[x]]
DeleteSystem(d) ==
  IF d \notin DOMAIN dev THEN No
  ELSE /\ DeleteDevice(d)
       /\ dev' = [x \in DOMAIN dev \ {d} |-> dev[x]]
       /\ eqs' = Drop(eqs, d) /\ ceqs' = Drop(ceqs, d) /\ ieqs' = Drop(ieqs, d)
       /\ imods' = Drop(imods, d) /\ wt' = Drop(wt, d)
       /\ UNCHANGED <<cvars, cust>>

ResetSystem == /\ Reset /\ cn' = CFree /\ al' = CFree /\ el' = CFree /\ sol' = CFree /\ lock' = FALSE
               /\ dev' = Free0 /\ eqs' = Free0 /\ ceqs' = Free0 /\ ieqs' = Free0 /\ imods' = Free0
               /\ cust' = Free0 /\ wt' = Free0
\* a command of Models
ModelStep(A) == A /\ UNCHANGED <<cvars, evars>>

\* -------------------------------------------------------------- registry -----
Names2(dr) == {eqs[dr][i].name : i \in DOMAIN eqs[dr]}
At(dr, n) == CHOOSE i \in DOMAIN eqs[dr] : eqs[dr][i].name = n
Vars(dr) == {eqs[dr][i].var : i \in DOMAIN eqs[dr]}
EqOf(dr, v) == eqs[dr][CHOOSE i \in DOMAIN eqs[dr] : eqs[dr][i].var = v].name
Updates == {"default", "log_damp", "positive"}
Opt(dr, n, cls) == n = "" \/ Is(dr, n, cls)

Equation(d, r, q) ==
  LET dr == <<d, r>> IN
  IF \/ ~Exists(d, r) \/ q.var = "" \/ q.upd \notin Updates THEN No
  ELSE IF ~Opt(dr, q.node, "node") \/ ~Opt(dr, q.time, "node") \/ ~Opt(dr, q.edge, "edge") \/ ~Opt(dr, q.edgevol, "edge") THEN No
  ELSE IF \E i \in DOMAIN eqs[dr] : eqs[dr][i].var = q.var /\ eqs[dr][i].name # q.name THEN No
  ELSE /\ eqs' = [eqs EXCEPT ![dr] = IF q.name \in Names2(dr) THEN [@ EXCEPT ![At(dr, q.name)] = q] ELSE Append(@, q)]
       /\ UNCHANGED <<top, mods, par, cvars, dev, ceqs, ieqs, imods, cust, wt>> /\ Done
DeleteEquation(d, r, n) ==
  LET dr == <<d, r>> IN
  IF dr \notin DOMAIN eqs \/ (dr \in DOMAIN eqs /\ n \notin Names2(dr)) THEN No
  ELSE /\ eqs' = [eqs EXCEPT ![dr] = SelectSeq(@, LAMBDA q : q.name # n)]
       /\ UNCHANGED <<top, mods, par, cvars, dev, ceqs, ieqs, imods, cust, wt>> /\ Done
\* listed in the order of creation
EquationList(d, r, lst) ==
  LET dr == <<d, r>> IN
  IF ~Exists(d, r) THEN No
  ELSE Keep /\ Reply(TRUE, <<>>, Names2(dr)) /\ lst = [i \in DOMAIN eqs[dr] |-> eqs[dr][i].name]
EquationCommand(d, r, n, got) ==
  LET dr == <<d, r>> IN
  IF dr \notin DOMAIN eqs \/ (dr \in DOMAIN eqs /\ n \notin Names2(dr)) THEN No
  ELSE Keep /\ Done /\ got = eqs[dr][At(dr, n)]

ContactEquation(d, c, n, q) ==
  IF <<d, c>> \notin DOMAIN ceqs THEN No
  ELSE /\ ceqs' = [ceqs EXCEPT ![<<d, c>>] = (n :> q) @@ @]
       /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ieqs, imods, cust, wt>> /\ Done
DeleteContactEquation(d, c, n) ==
  LET k == <<d, c>> IN
  IF k \notin DOMAIN ceqs \/ (k \in DOMAIN ceqs /\ n \notin DOMAIN ceqs[k]) THEN No
  ELSE /\ ceqs' = [ceqs EXCEPT ![k] = [x \in DOMAIN @ \ {n} |-> @[x]]]
       /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ieqs, imods, cust, wt>> /\ Done
ContactEquationList(d, c) ==
  IF <<d, c>> \notin DOMAIN ceqs THEN No ELSE Keep /\ Reply(TRUE, <<>>, DOMAIN ceqs[<<d, c>>])
ContactEquationCommand(d, c, n, got) ==
  LET k == <<d, c>> IN
  IF k \notin DOMAIN ceqs \/ (k \in DOMAIN ceqs /\ n \notin DOMAIN ceqs[k]) THEN No
  ELSE Keep /\ Done /\ got = ceqs[k][n]

InterfaceEquation(d, i, n, q) ==
  LET k == <<d, i>> IN
  IF k \notin DOMAIN ieqs \/ q.type \notin {"continuous", "fluxterm", "hybrid"} THEN No
  ELSE IF q.model \notin DOMAIN imods[k] THEN No
  ELSE /\ ieqs' = [ieqs EXCEPT ![k] = (n :> [q EXCEPT !.n0 = IF @ = "" THEN n ELSE @, !.n1 = IF @ = "" THEN n ELSE @]) @@ @]
       /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, imods, cust, wt>> /\ Done
DeleteInterfaceEquation(d, i, n) ==
  LET k == <<d, i>> IN
  IF k \notin DOMAIN ieqs \/ (k \in DOMAIN ieqs /\ n \notin DOMAIN ieqs[k]) THEN No
  ELSE /\ ieqs' = [ieqs EXCEPT ![k] = [x \in DOMAIN @ \ {n} |-> @[x]]]
       /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, imods, cust, wt>> /\ Done
InterfaceEquationList(d, i) ==
  IF <<d, i>> \notin DOMAIN ieqs THEN No ELSE Keep /\ Reply(TRUE, <<>>, DOMAIN ieqs[<<d, i>>])
InterfaceEquationCommand(d, i, n, got) ==
  LET k == <<d, i>> IN
  IF k \notin DOMAIN ieqs \/ (k \in DOMAIN ieqs /\ n \notin DOMAIN ieqs[k]) THEN No
  ELSE Keep /\ Done /\ got = ieqs[k][n]

\* a callback giving fixed entries: [dc, time] each [m, f, bulk]
Custom(n, q) == /\ cust' = (n :> q) @@ cust
                /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, ieqs, imods, wt>> /\ Done
CustomList == Keep /\ Reply(TRUE, <<>>, DOMAIN cust)

Weight(d, r, k, n) == /\ wt' = (<<d, r, k>> :> n) @@ wt
                      /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, ieqs, imods, cust>> /\ Done

\* --------------------------------------------------- models of a contact -----
\* a model that is zero away from the contact
OnContact(d, c, cls) ==
  LET k == dev[d].cons[c] N == Range0(k.nodes) IN
  IF cls = "node" THEN N
  ELSE {i \in DOMAIN top[<<d, k.reg>>].edges : LET e == top[<<d, k.reg>>].edges[i] IN e[1] \in N \/ e[2] \in N}
ContactModel(d, c, cls, n, ast) ==
  IF d \notin DOMAIN dev THEN No
  ELSE IF c \notin DOMAIN dev[d].cons THEN No
  ELSE LET dr == <<d, dev[d].cons[c].reg>> IN
       IF ~Free(dr, n, cls) THEN No
       ELSE /\ Put(dr, OneF(n, [cls |-> cls, kind |-> "cexpr", ast |-> Bind(ast, Names(dr)), only |-> OnContact(d, c, cls)]))
            /\ UNCHANGED <<top, par, cvars, evars>> /\ Done

\* ------------------------------------------------- models of an interface ----
PairT(i) == [nn |-> Len(i.n0), edges |-> <<>>, elems |-> <<>>]
\* ids: n the whole name, b and s its base and side (0, 1; 2 for none)
SideRegion(d, i, s) == <<d, IF s = 0 THEN dev[d].ifs[i].r0 ELSE dev[d].ifs[i].r1>>
RECURSIVE IBind(_, _, _)
IBind(a, d, i) ==
  CASE a.k = "n" -> a
    [] a.k = "id" -> [k |-> IF a.n \in DOMAIN imods[<<d, i>>] \/ (a.s # 2 /\ Is(SideRegion(d, i, a.s), a.b, "node")) THEN "m" ELSE "v",
                      n |-> a.n, b |-> a.b, s |-> a.s]
    [] OTHER -> [k |-> a.k, a |-> [x \in DOMAIN a.a |-> IBind(a.a[x], d, i)]]
OrAny(x) == IF x.t = "bad" THEN AnyVal ELSE x
RECURSIVE IEval(_, _, _, _), IValue(_, _, _, _), IFold(_, _, _, _, _, _)
IFold(k, s, j, d, i, stk) ==
  LET T == PairT(dev[d].ifs[i]) x == IEval(s[j], d, i, stk) IN
  IF j = 1 THEN x
  ELSE OrAny(IF k = "+" THEN Lift(T, FAdd, IFold(k, s, j - 1, d, i, stk), x)
                        ELSE Times(T, IFold(k, s, j - 1, d, i, stk), x))
IEval(a, d, i, stk) ==
  LET f == dev[d].ifs[i] IN
  CASE a.k = "n" -> Num(a.v)
    [] a.k = "v" ->
         IF a.s = 2
         THEN LET v0 == Visible(d, f.r0, a.n) v1 == Visible(d, f.r1, a.n) IN
              IF v0 /\ v1 /\ (v0 /\ v1 => Lookup(d, f.r0, a.n) = Lookup(d, f.r1, a.n)) THEN Num(Lookup(d, f.r0, a.n)) ELSE AnyVal
         ELSE LET r == SideRegion(d, i, a.s)[2] IN
              IF Visible(d, r, a.b) THEN Num(Lookup(d, r, a.b))
              ELSE IF <<CKT, "", a.n>> \in DOMAIN par THEN Num(par[<<CKT, "", a.n>>]) ELSE AnyVal
    [] a.k = "m" ->
         IF a.n \in DOMAIN imods[<<d, i>>] THEN IValue(d, i, a.n, stk)
         ELSE IF a.s = 2 THEN Num(0)
         ELSE LET dr == SideRegion(d, i, a.s) N == IF a.s = 0 THEN f.n0 ELSE f.n1 IN
              IF ~Is(dr, a.b, "node") THEN Num(0)
              ELSE LET x == Value(dr, a.b, {}) IN
                   IF x.t \in Broken THEN AnyVal ELSE [t |-> "node", v |-> [j \in DOMAIN N |-> x.v[N[j]]]]
    [] a.k = "-" -> OrAny(Lift(PairT(f), FMul, Num(PP - 1), IEval(a.a[1], d, i, stk)))
    [] OTHER -> IFold(a.k, a.a, Len(a.a), d, i, stk)
IValue(d, i, n, stk) == IF n \in stk THEN AnyVal
                        ELSE Widen(PairT(dev[d].ifs[i]), IEval(imods[<<d, i>>][n], d, i, stk \cup {n}), "node")

InterfaceModel(d, i, n, ast) ==
  IF <<d, i>> \notin DOMAIN imods THEN No
  ELSE /\ imods' = [imods EXCEPT ![<<d, i>>] = (n :> IBind(ast, d, i)) @@ @]
       /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, ieqs, cust, wt>> /\ Done
DeleteInterfaceModel(d, i, n) ==
  LET k == <<d, i>> IN
  IF k \notin DOMAIN imods \/ (k \in DOMAIN imods /\ n \notin DOMAIN imods[k]) THEN No
  ELSE /\ imods' = [imods EXCEPT ![k] = [x \in DOMAIN @ \ {n} |-> @[x]]]
       /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, ieqs, cust, wt>> /\ Done
ReadInterface(d, i, n) ==
  LET k == <<d, i>> IN
  IF k \notin DOMAIN imods \/ (k \in DOMAIN imods /\ n \notin DOMAIN imods[k]) THEN No
  ELSE LET x == IValue(d, i, n, {}) IN
       Keep /\ IF x.t = "any" THEN \E ok \in BOOLEAN : Reply(ok, Anything, {}) ELSE Reply(TRUE, x.v, {})
InterfaceModelList(d, i) ==
  IF <<d, i>> \notin DOMAIN imods THEN No ELSE Keep /\ Reply(TRUE, <<>>, DOMAIN imods[<<d, i>>])

\* ------------------------------------------------- what one model puts in ----
\* a term: [shape, model, weight, s0, s1]
Term(sh, m, w, a, b) == [shape |-> sh, model |-> m, weight |-> w, s |-> <<a, b>>]
Places(T, sh) == Size(T, sh)
EndsOf(T, sh, i) == CASE sh = "node" -> <<i>>
                      [] sh = "edge" -> T.edges[i]
                      [] sh = "elem" -> T.edges[T.elems[i][1]]
ColsOf(T, sh, i) == CASE sh = "node" -> <<i>>
                      [] sh = "edge" -> T.edges[i]
                      [] sh = "elem" -> T.edges[T.elems[i][1]] \o Tail(T.elems[i])
Family(T, sh) == CASE sh = "node" -> <<"">>
                     [] sh = "edge" -> <<"@n0", "@n1">>
                     [] sh = "elem" -> IF Len(T.elems[1]) = 2 THEN <<"@en0", "@en1", "@en2">> ELSE <<"@en0", "@en1", "@en2", "@en3">>
Flat(T) == Len(T.elems) = 0
Terms1(T, ts) == SelectSeq(ts, LAMBDA t : t.shape # "elem" \/ ~Flat(T))

\* model times weight: nothing is read when the weight is zero
Weighted(w, m) == CASE w.t = "bad" -> Bad
                    [] w.t = "any" -> AnyVal
                    [] m.t \in Broken -> IF m.t = "any" \/ \A i \in DOMAIN w.v : w.v[i] = 0 THEN AnyVal ELSE Bad
                    [] OTHER -> [t |-> w.t, v |-> [i \in DOMAIN w.v |-> FMul(w.v[i], m.v[i])]]
\* what the derivative of model m by variable v has to offer: all of it, none, or less
\* (a contact that misses the first part of it may count it as none: "odd")
Offer(dr, sh, m, v) == LET S == Family(top[dr], sh) n == {k \in DOMAIN S : Is(dr, m \o ":" \o v \o S[k], sh)} IN
                       IF n = {} THEN "none" ELSE IF n = DOMAIN S THEN "all" ELSE IF 1 \in n THEN "less" ELSE "odd"
\* contributions of one term: f <<node, value>>, j <<node, variable, node, value>>,
\* c <<node, value>> by the circuit node; rows limited to the nodes in only
Piece(dr, t, only, cnode, bulk) ==
  LET T == top[dr] n == Places(T, t.shape) IN
  IF ~Is(dr, t.weight, t.shape) \/ ~Is(dr, t.model, t.shape) THEN [st |-> "err"]
  ELSE IF \E v \in Vars(dr) : Offer(dr, t.shape, t.model, v) \in {"less"} \cup (IF bulk THEN {"odd"} ELSE {}) THEN [st |-> "err"]
  ELSE IF \E v \in Vars(dr) : Offer(dr, t.shape, t.model, v) = "odd" THEN [st |-> "any"]
  ELSE
    LET w == Value(dr, t.weight, {})
        VV == {v \in Vars(dr) : Offer(dr, t.shape, t.model, v) = "all"}
        S == Family(T, t.shape)
        cd == cnode # "" /\ Is(dr, t.model \o ":" \o cnode, t.shape)
        f == Deep(Weighted(w, Value(dr, t.model, {})))
        dv == Deep([v \in VV |-> [k \in DOMAIN S |-> Weighted(w, Value(dr, t.model \o ":" \o v \o S[k], {}))]])
        dc == IF cd THEN Deep(Weighted(w, Value(dr, t.model \o ":" \o cnode, {}))) ELSE f
        all == {f.t, dc.t} \cup {dv[v][k].t : v \in VV, k \in DOMAIN S} IN
    IF "bad" \in all THEN [st |-> "err"]
    ELSE IF "any" \in all THEN [st |-> "any"]
    ELSE LET E(i) == {k \in DOMAIN EndsOf(T, t.shape, i) : EndsOf(T, t.shape, i)[k] \in only}
             spots == SetToSeq({<<i, k>> : i \in 1..n, k \in {1, 2}} \cap {x \in (1..n) \X {1, 2} : x[2] \in E(x[1])})
             jspots == SetToSeq({<<spots[x][1], spots[x][2], v, k>> : x \in DOMAIN spots, v \in VV, k \in DOMAIN S}) IN
         [st |-> "ok",
          f |-> [x \in DOMAIN spots |-> LET i == spots[x][1] k == spots[x][2] IN
                  <<EndsOf(T, t.shape, i)[k], FMul(Norm(t.s[k]), f.v[i])>>],
          j |-> [x \in DOMAIN jspots |-> LET i == jspots[x][1] k == jspots[x][2] v == jspots[x][3] c == jspots[x][4] IN
                  <<EndsOf(T, t.shape, i)[k], v, ColsOf(T, t.shape, i)[c], FMul(Norm(t.s[k]), dv[v][c].v[i])>>],
          c |-> IF cd THEN [x \in DOMAIN spots |-> LET i == spots[x][1] k == spots[x][2] IN
                  <<EndsOf(T, t.shape, i)[k], FMul(Norm(t.s[k]), dc.v[i])>>] ELSE <<>>]

AllNodes(dr) == 1..top[dr].nn
If(m, ts) == IF m = "" THEN <<>> ELSE ts
EdgeVol(dr, m) == IF W(dr, "v0") = W(dr, "v1") THEN <<Term("edge", m, W(dr, "v0"), 1, 1)>>
                  ELSE <<Term("edge", m, W(dr, "v0"), 1, 0), Term("edge", m, W(dr, "v1"), 0, 1)>>
ElemVol(dr, a, b) ==
  IF a = "" /\ b = "" THEN <<>>
  ELSE IF W(dr, "e0") = W(dr, "e1") /\ a = b THEN <<Term("elem", a, W(dr, "e0"), 1, 1)>>
  ELSE <<Term("elem", a, W(dr, "e0"), 1, 0), Term("elem", b, W(dr, "e1"), 0, 1)>>
Within(dr, q) ==
  If(q.edge, <<Term("edge", q.edge, W(dr, "couple"), 1, -1)>>)
  \o If(q.edgevol, EdgeVol(dr, q.edgevol))
  \o If(q.node, <<Term("node", q.node, W(dr, "node"), 1, 1)>>)
  \o If(q.elem, <<Term("elem", q.elem, W(dr, "ecouple"), 1, -1)>>)
  \o ElemVol(dr, q.v0, q.v1)
Current(dr, q) == If(q.ncur, <<Term("node", q.ncur, W(dr, "node"), 1, 1)>>)
                  \o If(q.ecur, <<Term("edge", q.ecur, W(dr, "couple"), 1, -1)>>)
                  \o If(q.lcur, <<Term("elem", q.lcur, W(dr, "ecouple"), 1, -1)>>)
Charge(dr, q) == If(q.nchg, <<Term("node", q.nchg, W(dr, "node"), 1, 1)>>)
                 \o If(q.echg, <<Term("edge", q.echg, W(dr, "couple"), 1, -1)>>)
                 \o If(q.lchg, <<Term("elem", q.lchg, W(dr, "ecouple"), 1, -1)>>)

\* the nodes a contact's equation is in charge of: one contact for each node
Before(d, a, b) == LET o == dev[d].ord IN \E i, j \in DOMAIN o : i < j /\ o[i] = a /\ o[j] = b
ContactNodes(d, c, n) ==
  LET k == dev[d].cons[c] IN
  {x \in Range0(k.nodes) : \A b \in DOMAIN dev[d].cons :
      ~(b # c /\ dev[d].cons[b].reg = k.reg /\ x \in Range0(dev[d].cons[b].nodes) /\ n \in DOMAIN ceqs[<<d, b>>] /\ Before(d, b, c))}
\* the pairs of nodes an interface's equation is in charge of
Side(i, s) == IF s = 0 THEN [r |-> i.r0, n |-> i.n0] ELSE [r |-> i.r1, n |-> i.n1]
Taken(d, i, s, n, x) ==
  LET me == Side(dev[d].ifs[i], s) IN
  \/ \E c \in DOMAIN dev[d].cons : /\ dev[d].cons[c].reg = me.r /\ x \in Range0(dev[d].cons[c].nodes)
                                   /\ n \in DOMAIN ceqs[<<d, c>>]
  \/ \E o \in DOMAIN dev[d].ifs \ {i} : \E z \in {0, 1} :
        LET you == Side(dev[d].ifs[o], z) IN
        /\ you.r = me.r /\ x \in Range0(you.n)
        /\ \E e \in DOMAIN ieqs[<<d, o>>] : (IF z = 0 THEN ieqs[<<d, o>>][e].n0 ELSE ieqs[<<d, o>>][e].n1) = n
InterfacePairs(d, i, q) ==
  LET f == dev[d].ifs[i] IN
  {k \in DOMAIN f.n0 : ~Taken(d, i, 0, q.n0, f.n0[k]) /\ ~Taken(d, i, 1, q.n1, f.n1[k])}

\* ------------------------------------------------------------ the system -----
\* num: [<<device, region, equation>> -> [node -> row]], cnum: [circuit node -> row]
EqKeys == UNION {{<<dr[1], dr[2], eqs[dr][i].name>> : i \in DOMAIN eqs[dr]} : dr \in DOMAIN eqs}
Order == MapThenSumSet(LAMBDA k : top[<<k[1], k[2]>>].nn, EqKeys) + Cardinality(CNodes)
\* every unknown has a number of its own, and the numbers are 0 .. Order - 1
Numbering(num, cnum) ==
  /\ DOMAIN num = EqKeys
  /\ \A k \in EqKeys : Len(num[k]) = top[<<k[1], k[2]>>].nn
  /\ DOMAIN cnum \in {DOMAIN cn \cup DOMAIN al, DOMAIN WithGround(cn) \cup DOMAIN al}
  /\ \A n \in DOMAIN cnum : IF Real(n) \in CNodes THEN cnum[n] = cnum[Real(n)] ELSE cnum[n] = -1
  /\ LET all == UNION {Range0(num[k]) : k \in EqKeys} \cup {cnum[n] : n \in CNodes} IN
     /\ Cardinality(all) = Order
     /\ all = 0..(Order - 1)

OK(f, j) == [st |-> "ok", f |-> f, j |-> j]
Fail == [st |-> "err"]
None == OK(<<>>, <<>>)
Join(qs) == LET ps == Deep(qs) IN IF \E x \in DOMAIN ps : ps[x].st = "err" THEN Fail
            ELSE IF \E x \in DOMAIN ps : ps[x].st = "any" THEN [st |-> "any"]
            ELSE OK(FlattenSeq([x \in DOMAIN ps |-> ps[x].f]), FlattenSeq([x \in DOMAIN ps |-> ps[x].j]))

\* equation n of region dr, terms ts
RegionPart(dr, n, ts, only, circ, num, cnum, bulk) ==
  LET ps == Deep([x \in DOMAIN ts |-> Piece(dr, ts[x], only, circ, bulk)])
      row(k) == num[<<dr[1], dr[2], n>>][k]
      col(v, k) == num[<<dr[1], dr[2], EqOf(dr, v)>>][k]
      cc == IF circ = "" THEN -1 ELSE cnum[circ] IN
  Join([x \in DOMAIN ts |->
    IF ps[x].st # "ok" THEN [st |-> ps[x].st]
    ELSE OK([y \in DOMAIN ps[x].f |-> <<row(ps[x].f[y][1]), ps[x].f[y][2]>>],
            [y \in DOMAIN ps[x].j |-> <<row(ps[x].j[y][1]), col(ps[x].j[y][2], ps[x].j[y][3]), ps[x].j[y][4]>>]
            \o (IF cc = -1 THEN <<>> ELSE [y \in DOMAIN ps[x].c |-> <<row(ps[x].c[y][1]), cc, ps[x].c[y][2]>>]))])
\* the same collected in the equation of a circuit node
CircuitPart(dr, ts, only, circ, num, cnum) ==
  LET ps == Deep([x \in DOMAIN ts |-> Piece(dr, ts[x], only, circ, FALSE)])
      col(v, k) == num[<<dr[1], dr[2], EqOf(dr, v)>>][k]
      cc == cnum[circ] IN
  Join([x \in DOMAIN ts |->
    IF ps[x].st # "ok" THEN [st |-> ps[x].st]
    ELSE OK([y \in DOMAIN ps[x].f |-> <<cc, ps[x].f[y][2]>>],
            [y \in DOMAIN ps[x].j |-> <<cc, col(ps[x].j[y][2], ps[x].j[y][3]), ps[x].j[y][4]>>]
            \o [y \in DOMAIN ps[x].c |-> <<cc, cc, ps[x].c[y][2]>>])])

Bulk(time, num, cnum) ==
  LET ks == SetToSeq(EqKeys) IN
  Join([x \in DOMAIN ks |->
    LET dr == <<ks[x][1], ks[x][2]>> q == eqs[dr][At(dr, ks[x][3])]
        ts == IF time THEN If(q.time, <<Term("node", q.time, W(dr, "node"), 1, 1)>>) ELSE Within(dr, q) IN
    RegionPart(dr, q.name, Terms1(top[dr], ts), AllNodes(dr), "", num, cnum, TRUE)])

CKeys == UNION {{<<k[1], k[2], n>> : n \in DOMAIN ceqs[k]} : k \in DOMAIN ceqs}
ContactPart(d, c, n, time, num, cnum) ==
  LET q == ceqs[<<d, c>>][n] dr == <<d, dev[d].cons[c].reg>> T == top[dr]
      only == ContactNodes(d, c, n)
      ins == IF time THEN <<>> ELSE Terms1(T, Within(dr, q))
      outs == IF q.circuit = "" THEN <<>> ELSE Terms1(T, IF time THEN Charge(dr, q) ELSE Current(dr, q)) IN
  IF ins # <<>> /\ n \notin Names2(dr) THEN Fail
  ELSE IF ins \o outs # <<>> /\ q.circuit # "" /\ ~Known(q.circuit) THEN Fail
  ELSE Join(<<RegionPart(dr, n, ins, only, q.circuit, num, cnum, FALSE),
              IF outs = <<>> \/ (outs # <<>> /\ cnum[q.circuit] = -1) THEN None ELSE CircuitPart(dr, outs, only, q.circuit, num, cnum)>>)
Contacts(time, num, cnum) ==
  LET ks == SetToSeq(CKeys) IN
  Join([x \in DOMAIN ks |-> ContactPart(ks[x][1], ks[x][2], ks[x][3], time, num, cnum)])

IKeys == UNION {{<<k[1], k[2], n>> : n \in DOMAIN ieqs[k]} : k \in DOMAIN ieqs}
InterfacePart(d, i, n, num, cnum) ==
  LET q == ieqs[<<d, i>>][n] f == dev[d].ifs[i]
      a == <<d, f.r0>> b == <<d, f.r1>>
      sa == W(a, "area") IN
  IF W(a, "area") # W(b, "area") \/ q.n0 \notin Names2(a) \/ q.n1 \notin Names2(b) \/ q.model \notin DOMAIN imods[<<d, i>>] THEN Fail
  ELSE IF q.type # "continuous" /\ (~Is(a, sa, "node") \/ ~Is(b, sa, "node")) THEN Fail
  ELSE
    LET P == SetToSeq(InterfacePairs(d, i, q))
        V == IValue(d, i, q.model, {})
        D(v, s) == q.model \o ":" \o v \o (IF s = 0 THEN "@r0" ELSE "@r1")
        dvs == SetToSeq({<<v, 0>> : v \in {x \in Vars(a) : D(x, 0) \in DOMAIN imods[<<d, i>>]}}
                        \cup {<<v, 1>> : v \in {x \in Vars(b) : D(x, 1) \in DOMAIN imods[<<d, i>>]}})
        dv == Deep([x \in DOMAIN dvs |-> IValue(d, i, D(dvs[x][1], dvs[x][2]), {})])
        A == IF q.type = "continuous" THEN Num(0) ELSE Value(a, sa, {})
        B == IF q.type = "continuous" THEN Num(0) ELSE Value(b, sa, {})
        r0(k) == num[<<d, f.r0, q.n0>>][f.n0[k]]
        r1(k) == num[<<d, f.r1, q.n1>>][f.n1[k]]
        col(x, k) == IF dvs[x][2] = 0 THEN num[<<d, f.r0, EqOf(a, dvs[x][1])>>][f.n0[k]]
                                       ELSE num[<<d, f.r1, EqOf(b, dvs[x][1])>>][f.n1[k]] IN
    IF "bad" \in {A.t, B.t} THEN Fail
    ELSE IF "any" \in {A.t, B.t, V.t} \cup {dv[x].t : x \in DOMAIN dv} THEN [st |-> "any"]
    ELSE
      LET Low(k, v) == IF q.type = "continuous" THEN v ELSE FNeg(FMul(B.v[f.n1[k]], v))
          Up(k, v) == FMul(A.v[f.n0[k]], v)
          both == q.type = "fluxterm"
          JS == SetToSeq({<<x, y>> : x \in DOMAIN dvs, y \in DOMAIN P}) IN
      OK([x \in DOMAIN P |-> <<r1(P[x]), Low(P[x], V.v[P[x]])>>]
         \o (IF both THEN [x \in DOMAIN P |-> <<r0(P[x]), Up(P[x], V.v[P[x]])>>] ELSE <<>>),
         [z \in DOMAIN JS |-> LET x == JS[z][1] k == P[JS[z][2]] IN <<r1(k), col(x, k), Low(k, dv[x].v[k])>>]
         \o (IF both THEN [z \in DOMAIN JS |-> LET x == JS[z][1] k == P[JS[z][2]] IN <<r0(k), col(x, k), Up(k, dv[x].v[k])>>] ELSE <<>>))
Interfaces(num, cnum) ==
  LET ks == SetToSeq(IKeys) IN
  Join([x \in DOMAIN ks |-> InterfacePart(ks[x][1], ks[x][2], ks[x][3], num, cnum)])

\* where the rows of the bulk equations go: <<row, also kept>>; -1: nowhere
Moves(num) ==
  [x \in UNION {{<<k, "c", y>> : y \in IF ceqs[<<k[1], k[2]>>][k[3]].node = "" THEN {} ELSE ContactNodes(k[1], k[2], k[3])} : k \in CKeys}
     |-> [at |-> num[<<x[1][1], dev[x[1][1]].cons[x[1][2]].reg, x[1][3]>>][x[3]], to |-> -1, copy |-> 0]]
  @@
  [x \in UNION {{<<k, "i", y>> : y \in IF ieqs[<<k[1], k[2]>>][k[3]].type = "fluxterm" THEN {} ELSE InterfacePairs(k[1], k[2], ieqs[<<k[1], k[2]>>][k[3]])} : k \in IKeys}
     |-> LET f == dev[x[1][1]].ifs[x[1][2]] q == ieqs[<<x[1][1], x[1][2]>>][x[1][3]] IN
         [at |-> num[<<x[1][1], f.r1, q.n1>>][f.n1[x[3]]], to |-> num[<<x[1][1], f.r0, q.n0>>][f.n0[x[3]]],
          copy |-> IF q.type = "hybrid" THEN 1 ELSE 0]]
\* two equations may claim the same row: then either has it
Permutation(num, n, row, copy) ==
  LET M == Range0(Deep(Moves(num))) IN
  /\ DOMAIN row = 1..n /\ DOMAIN copy = 1..n
  /\ \A i \in 0..(n - 1) : LET S == {m \in M : m.at = i} IN
       IF S = {} THEN row[i + 1] = i /\ copy[i + 1] = 0
       ELSE \E m \in S : row[i + 1] = m.to /\ copy[i + 1] = m.copy
Move(row, copy, f) ==     \* tuples whose first entry is the row
  LET kept == SelectSeq(f, LAMBDA t : row[t[1] + 1] # -1)
      also == SelectSeq(f, LAMBDA t : row[t[1] + 1] # -1 /\ copy[t[1] + 1] = 1) IN
  [x \in DOMAIN kept |-> [kept[x] EXCEPT ![1] = row[kept[x][1] + 1]]] \o also

Netlist(time, cnum) ==
  LET es == SetToSeq(DOMAIN el)
      E(x) == IF time THEN Dynamic(es[x]) ELSE Static(es[x])
      f == FlattenSeq([x \in DOMAIN es |-> E(x).f])
      j == FlattenSeq([x \in DOMAIN es |-> E(x).j]) IN
  OK([x \in DOMAIN f |-> <<cnum[f[x][1]], f[x][2]>>], [x \in DOMAIN j |-> <<cnum[j[x][1]], cnum[j[x][2]], j[x][3]>>])

InRange(q, n) == /\ \A x \in DOMAIN q.f : q.f[x][1] \in 0..(n - 1)
                 /\ \A x \in DOMAIN q.m : q.m[x][1] \in 0..(n - 1) /\ q.m[x][2] \in 0..(n - 1)
Tables(time, bulk) == LET ks == SetToSeq({k \in DOMAIN cust : (IF time THEN cust[k].time ELSE cust[k].dc).bulk = bulk}) IN
                      [x \in DOMAIN ks |-> IF time THEN cust[ks[x]].time ELSE cust[ks[x]].dc]
CustomPart(time, bulk, n) ==
  LET ts == Tables(time, bulk) IN
  IF \E x \in DOMAIN ts : ~InRange(ts[x], n) THEN Fail
  ELSE OK(FlattenSeq([x \in DOMAIN ts |-> ts[x].f]), FlattenSeq([x \in DOMAIN ts |-> ts[x].m]))

\* everything, moved where it belongs
Loaded(time, num, cnum, n, row, copy) ==
  Deep(LET bulk == Join(<<Bulk(time, num, cnum), CustomPart(time, TRUE, n)>>)
      rest == Join(<<Contacts(time, num, cnum), IF time THEN None ELSE Interfaces(num, cnum),
                     IF CNodes = {} THEN None ELSE Netlist(time, cnum), CustomPart(time, FALSE, n)>>)
      st == Join(<<bulk, rest>>).st IN
  IF st # "ok" THEN [st |-> st]
  ELSE OK(Move(row, copy, bulk.f) \o rest.f, Move(row, copy, bulk.j) \o rest.j))

RhsOf(f, n) == FoldLeft(LAMBDA a, t : [a EXCEPT ![t[1] + 1] = FSub(@, t[2])], [i \in 1..n |-> 0], f)
MatrixOf(j, n) == FoldLeft(LAMBDA a, t : [a EXCEPT ![t[1] * n + t[2] + 1] = FAdd(@, t[3])], [i \in 1..(n * n) |-> 0], j)
\* a compressed matrix (by columns or by rows) against the dense one
Compressed(ap, ai, av, M, n, byrow) ==
  /\ Len(ap) = n + 1 /\ ap[1] = 0 /\ ap[n + 1] = Len(ai) /\ Len(av) = Len(ai)
  /\ \A k \in 1..n : ap[k] <= ap[k + 1]
  /\ \A k \in 1..n : LET here == (ap[k] + 1)..ap[k + 1]
                         pos(o) == IF byrow THEN (k - 1) * n + o + 1 ELSE o * n + k IN
       /\ \A x \in here : ai[x] \in 0..(n - 1)
       /\ Cardinality({ai[x] : x \in here}) = Cardinality(here)
       /\ \A x \in here : av[x] = M[pos(ai[x])]
       /\ \A o \in (0..(n - 1)) \ {ai[x] : x \in here} : M[pos(o)] = 0

\* get_matrix_and_rhs in both formats, and the numbers asked for after it
\* (mentioning the circuit brings in its ground)
PrepareOp == IF cn = CFree THEN cn' \in {cn, Grounds} /\ UNCHANGED <<al, el, sol, lock>>
                 ELSE Prepare({"dcop"})
Fits(p, m, n) ==
  /\ p.rhs = RhsOf(m.f, n) /\ p.rhs2 = p.rhs
  /\ LET M == MatrixOf(m.j, n) IN
     /\ Compressed(p.csc.ap, p.csc.ai, p.csc.av, M, n, FALSE)
     /\ Compressed(p.csr.ap, p.csr.ai, p.csr.av, M, n, TRUE)
\* a numbering that will do
CanonNum == LET ks == SetToSeq(EqKeys)
                B[x \in 0..Len(ks)] == IF x = 0 THEN 0 ELSE B[x - 1] + top[<<ks[x][1], ks[x][2]>>].nn IN
            [k \in EqKeys |-> LET x == CHOOSE x \in DOMAIN ks : ks[x] = k IN
                              [i \in 1..top[<<k[1], k[2]>>].nn |-> B[x - 1] + i - 1]]
CanonCircuit == LET ns == SetToSeq(CNodes) IN
            [n \in DOMAIN cn \cup DOMAIN al |->
               IF Real(n) \notin CNodes THEN -1
               ELSE Order - Len(ns) + (CHOOSE x \in DOMAIN ns : ns[x] = Real(n)) - 1]
CanonMove(num, n) == LET M == Range0(Deep(Moves(num))) IN Deep(
  [i \in 1..n |-> LET S == {m \in M : m.at = i - 1} IN
                  IF S = {} THEN [at |-> i - 1, to |-> i - 1, copy |-> 0] ELSE CHOOSE m \in S : TRUE])
\* whether there is a system to be had
Status == LET num == CanonNum cnum == CanonCircuit n == Order IN
  Join(<<Bulk(FALSE, num, cnum), Bulk(TRUE, num, cnum), Contacts(FALSE, num, cnum), Contacts(TRUE, num, cnum),
         Interfaces(num, cnum), CustomPart(FALSE, TRUE, n), CustomPart(TRUE, TRUE, n),
         CustomPart(FALSE, FALSE, n), CustomPart(TRUE, FALSE, n)>>).st

Assemble(e) ==
  /\ PrepareOp /\ UNCHANGED <<top, mods, par, evars>>
  /\ Reply(e.ok, <<>>, {})
  /\ IF ~e.ok THEN Status # "ok"
     ELSE LET n == Order num == [k \in EqKeys |-> e.num[k[1]][k[2]][k[3]]] IN
          /\ e.n = n
          /\ Numbering(num, e.cnum)
          /\ LET s == Loaded(FALSE, num, e.cnum, n, e.row, e.copy)
                 t == Loaded(TRUE, num, e.cnum, n, e.row, e.copy) IN
             /\ "err" \notin {s.st, t.st}
             /\ "any" \notin {s.st, t.st} =>
                  Permutation(num, n, e.row, e.copy) /\ Fits(e.static, s, n) /\ Fits(e.dynamic, t, n)
=============================================================================
