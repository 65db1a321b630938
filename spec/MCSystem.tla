------------------------------ MODULE MCSystem ------------------------------
(* A small universe for System: two regions of a line, joined at an interface, *)
(* with contacts at both ends of the first, and a circuit of one node.         *)
EXTENDS System
CONSTANT Rich
T1 == [nn |-> 3, edges |-> <<<<1, 2>>, <<2, 3>>>>, elems |-> <<>>, ilen |-> <<1, 1>>]
T2 == [nn |-> 2, edges |-> <<<<1, 2>>>>, elems |-> <<>>, ilen |-> <<1>>]
S(cls, v) == [cls |-> cls, kind |-> "sol", vals |-> v]
Lib(T) == LET n == T.nn e == Len(T.edges)
              nv(k) == [i \in 1..n |-> k * i] ev(k) == [i \in 1..e |-> k + i] IN
  [x \in {} |-> 0] @@ [NodeVolume |-> S("node", nv(1)), EdgeCouple |-> S("edge", ev(2)), EdgeNodeVolume |-> S("edge", ev(1)),
   SurfaceArea |-> S("node", [i \in 1..n |-> 1]), f |-> S("node", nv(3)), g |-> S("edge", ev(4)), t |-> S("node", nv(5))]
   @@ ("f:u" :> S("node", nv(7))) @@ ("g:u@n0" :> S("edge", ev(5))) @@ ("g:u@n1" :> S("edge", ev(6)))
   @@ ("g:v@n0" :> S("edge", ev(9)))
Regs == [r |-> T1, s |-> T2]
TheCons == [c1 |-> [reg |-> "r", nodes |-> <<1>>], c2 |-> [reg |-> "r", nodes |-> <<1, 2>>]]
Ifs == [i |-> [r0 |-> "r", r1 |-> "s", n0 |-> <<3>>, n1 |-> <<1>>]]
Q(n, v, node, edge) == [name |-> n, var |-> v, upd |-> "default", node |-> node, edge |-> edge, edgevol |-> "", elem |-> "",
                        v0 |-> "", v1 |-> "", time |-> IF node = "" THEN "" ELSE "t"]
C(circ, node, cur) == [circuit |-> circ, node |-> node, edge |-> "", edgevol |-> "", elem |-> "", v0 |-> "", v1 |-> "",
                       ncur |-> "", ecur |-> cur, lcur |-> "", nchg |-> "", echg |-> "", lchg |-> ""]
I(n0, n1, ty) == [n0 |-> n0, n1 |-> n1, model |-> "h", type |-> ty]
En == {"E1", "E2"}
MCInit == /\ Init /\ CInit /\ dev = Free0 /\ eqs = Free0 /\ ceqs = Free0 /\ ieqs = Free0 /\ imods = Free0 /\ cust = Free0 /\ wt = Free0
Made == DOMAIN dev # {}
DoCreate == ~Made /\ CreateSystem("d", Regs, [r \in DOMAIN Regs |-> Lib(Regs[r])], TheCons, Ifs)
DoEquation == \E r \in (IF Rich THEN {"r", "s"} ELSE {"r"}), n \in En, v \in {"u", "v"}, x \in {<<"", "g">>, <<"f", "g">>} :
                  Equation("d", r, Q(n, v, x[1], x[2]))
DoEquationS == ~Rich /\ Equation("d", "s", Q("E1", "u", "", "g"))
DoDelete == \E n \in En : DeleteEquation("d", "r", n)
DoContact == \E c \in {"c1", "c2"}, n \in {"E1"}, x \in {<<"", "f">>, <<"n1", "f">>, <<"n1", "">>} : Made /\ ContactEquation("d", c, n, C(x[1], x[2], IF x[1] = "" THEN "" ELSE "g"))
DoDeleteContact == \E c \in {"c1", "c2"} : DeleteContactEquation("d", c, "E1")
DoInterface == \E ty \in {"continuous", "fluxterm", "hybrid"} : Made /\ InterfaceEquation("d", "i", "E1", I("", "", ty))
DoDeleteInterface == DeleteInterfaceEquation("d", "i", "E1")
DoInterfaceModel == Made /\ InterfaceModel("d", "i", "h", [k |-> "id", n |-> "f@r0", b |-> "f", s |-> 0])
DoNode == Made /\ cn = CFree /\ AddNode("n1") /\ CircuitStep /\ Done
DoPrepare == cn # CFree /\ ~lock /\ Prepare({"dcop"}) /\ CircuitStep /\ Done
\* say once that an action was taken
ASSUME \A i \in 1..11 : TLCSet(i, 0)
Hit(i, a) == IF TLCGet(i) = 0 THEN TLCSet(i, 1) /\ PrintT(<<"HIT", a>>) ELSE TRUE
Next ==
  \/ DoCreate /\ Hit(1, "DoCreate")
  \/ DoEquation /\ Hit(2, "DoEquation")
  \/ DoEquationS /\ Hit(3, "DoEquationS")
  \/ DoDelete /\ Hit(4, "DoDelete")
  \/ DoContact /\ Hit(5, "DoContact")
  \/ DoDeleteContact /\ Hit(6, "DoDeleteContact")
  \/ DoInterface /\ Hit(7, "DoInterface")
  \/ DoDeleteInterface /\ Hit(8, "DoDeleteInterface")
  \/ DoInterfaceModel /\ Hit(9, "DoInterfaceModel")
  \/ DoNode /\ Hit(10, "DoNode")
  \/ DoPrepare /\ Hit(11, "DoPrepare")
Spec == MCInit /\ [][Next]_<<svars, res>>
View == svars

\* ------------------------------------------------------------ properties ----
OneVariable == \A dr \in DOMAIN eqs : \A i, j \in DOMAIN eqs[dr] : i # j => eqs[dr][i].var # eqs[dr][j].var /\ eqs[dr][i].name # eqs[dr][j].name
Numbered == Numbering(CanonNum, CanonCircuit)
\* a row is moved by one contact or interface at most
OneOwner == Status = "ok" => \A a, b \in DOMAIN Moves(CanonNum) : Moves(CanonNum)[a].at = Moves(CanonNum)[b].at => a = b
Perm == LET n == Order m == CanonMove(CanonNum, n) IN
        [row |-> [i \in 1..n |-> m[i].to], copy |-> [i \in 1..n |-> m[i].copy]]
Sys(time) == LET p == Perm IN Loaded(time, CanonNum, CanonCircuit, Order, p.row, p.copy)
\* whatever assembles, assembles inside of the system
Inside == Status = "ok" => \A time \in BOOLEAN : LET s == Sys(time) n == Order IN
     s.st = "ok" /\ (\A i \in DOMAIN s.f : s.f[i][1] \in 0..(n - 1))
                 /\ (\A i \in DOMAIN s.j : s.j[i][1] \in 0..(n - 1) /\ s.j[i][2] \in 0..(n - 1))
Sum(f, k) == LET F[x \in 0..Len(f)] == IF x = 0 THEN 0 ELSE FAdd(F[x - 1], f[x][k]) IN F[Len(f)]
\* fluxes only: what leaves by the contacts comes out in the circuit, and an
\* interface takes from one side what it gives to the other
FluxOnly == /\ \A k \in EqKeys : k[3] = "E1" /\ eqs[<<k[1], k[2]>>][At(<<k[1], k[2]>>, "E1")].node = ""
            /\ \A k \in CKeys : LET q == ceqs[<<k[1], k[2]>>][k[3]] IN q.node = "" /\ q.circuit = "n1" /\ q.ecur = "g"
Out(cs) == \* what the nodes of the contacts' equations would have had
   LET only == UNION {ContactNodes(k[1], k[2], k[3]) : k \in CKeys} IN
   Piece(<<"d", "r">>, Term("edge", "g", W(<<"d", "r">>, "couple"), 1, -1), only, "", FALSE)
Conservation == (Made /\ Status = "ok" /\ FluxOnly /\ "E1" \in Names2(<<"d", "r">>) /\ "n1" \in CNodes) =>
   /\ Sum(Bulk(FALSE, CanonNum, CanonCircuit).f, 2) = 0
   /\ CKeys # {} => Sum(Out(0).f, 2) = Sum(SelectSeq(Contacts(FALSE, CanonNum, CanonCircuit).f, LAMBDA t : t[1] = CanonCircuit["n1"]), 2)
   /\ (\A k \in IKeys : ieqs[<<k[1], k[2]>>][k[3]].type = "fluxterm") => Sum(Interfaces(CanonNum, CanonCircuit).f, 2) = 0
\* for the check that the premises of Conservation are met somewhere
NeverConserving == ~(Made /\ Status = "ok" /\ FluxOnly /\ "E1" \in Names2(<<"d", "r">>) /\ "n1" \in CNodes /\ CKeys # {}
                     /\ \E k \in IKeys : ieqs[<<k[1], k[2]>>][k[3]].type = "fluxterm")
\* for the check that these can fail: contacts that do not mind each other
ContactNodesAll(d, c, n) == Range0(dev[d].cons[c].nodes)
=============================================================================
