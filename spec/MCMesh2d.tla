------------------------------ MODULE MCMesh2d ------------------------------
(* Every set of boxes for two regions, a contact and an interface over a     *)
(* small grid; the commands are issued in stages.                            *)
EXTENDS Mesh2d
CONSTANTS Lim, MaxBox, Half
L(p) == [pos |-> p * Q, ps |-> Q, ns |-> 0]
Box(a, b, c, d) == [xl |-> a * Q, xh |-> b * Q, yl |-> c * Q, yh |-> d * Q, bl |-> 0]
HBox(a, b, c, d) == [Box(a, b, c, d) EXCEPT !.bl = -(Q \div 2)]
Boxes == {Box(a, b, c, d) : a, c \in 0..1, b, d \in {Lim - 1, Lim}} \cup (IF Half THEN {HBox(0, 1, 0, Lim), HBox(-1, Lim, 0, 1)} ELSE {})
m == "m"
N(k) == IF m \in DOMAIN meshes THEN (CASE k = "x" -> Len(meshes[m].xs) [] k = "y" -> Len(meshes[m].ys) [] k = "r" -> Len(meshes[m].regs)
                                     [] k = "c" -> Len(meshes[m].cons) [] OTHER -> Len(meshes[m].ifs)) ELSE 0
RECURSIVE NumBoxes(_)
NumBoxes(s) == IF s = <<>> THEN 0 ELSE Len(Head(s).boxes) + NumBoxes(Tail(s))
NB == IF m \in DOMAIN meshes THEN NumBoxes(meshes[m].regs) ELSE 0
DoLine == \E ok \in BOOLEAN :
  \/ N("x") < 2 /\ AddLine(m, "x", L(Lim * N("x")), ok)
  \/ N("x") = 2 /\ N("y") < 2 /\ AddLine(m, "y", L(Lim * (1 - N("y"))), ok)
DoRegion == \E n \in {"a", "b"}, b \in Boxes, ok \in BOOLEAN :
  N("y") = 2 /\ NB < MaxBox /\ N("c") = 0 /\ N("i") = 0 /\ (NB = 0 => n = "a") /\ AddRegion(m, n, "Si", b, ok)
DoContact == \E b \in {Box(0, 0, 0, Lim), Box(-1, Lim, 1, 1)}, r \in {"a", "b"}, ok \in BOOLEAN :
  NB >= 1 /\ N("c") < 1 /\ N("i") = 0 /\ AddContact(m, "c", "metal", r, b, ok)
DoInterface == \E b \in {Box(-1, Lim, -1, Lim), Box(1, 1, 0, 1)}, r \in {"b"}, ok \in BOOLEAN :
  NB >= 1 /\ N("i") < 1 /\ AddInterface(m, "i", "a", r, b, ok)
Next ==
  \/ \E ok \in BOOLEAN : DOMAIN devs = {} /\ Create(m, ok)
  \/ DoLine \/ DoRegion \/ DoContact \/ DoInterface
  \/ \E ok \in BOOLEAN : Finalize(m, ok)
  \/ \E ok \in BOOLEAN : CreateDevice(m, "d", ok)
  \/ \E ok \in BOOLEAN : DeleteMesh(m, ok)
  \/ \E ok \in BOOLEAN : DeleteDevice("d", ok)
Spec == MInit /\ [][Next]_mvars
\* reachability: contact and interface both with points on one device
NoBoth == \A d \in DOMAIN devs : ~(\E c \in DOMAIN devs[d].contacts : devs[d].contacts[c].pts # {})
                              \/ ~(\E f \in DOMAIN devs[d].interfaces : devs[d].interfaces[f].e0 # {})
\* a spec with the first region winning would be wrong: cells of a are seen to go to b
FirstWins == \A d \in DOMAIN devs : ("a" \in DOMAIN devs[d].regions /\ Len(meshes[m].regs) > 1) =>
  \A t \in UNION {devs[d].regions[n].tris : n \in DOMAIN devs[d].regions} :
     InAny(SumX(t, devs[d].xg), SumY(t, devs[d].yg), meshes[m].regs[1].boxes, 3) => t \in devs[d].regions["a"].tris
=============================================================================
