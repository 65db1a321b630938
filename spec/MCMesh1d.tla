------------------------------ MODULE MCMesh1d ------------------------------
EXTENDS Mesh1d
CONSTANTS Pos, Sp, Ms, Ds, MaxLines, MaxRegs, MaxIfs, MaxDevs
Size(m, k) == CASE k = "l" -> Len(meshes[m].lines) [] k = "r" -> Len(meshes[m].regs)
                [] k = "c" -> Len(meshes[m].cons) [] OTHER -> Len(meshes[m].ifs)
\* the description grows in stages, lines from left to right; what the order of the commands is does not matter
Tg(k) == {"", "t0", CASE k = 0 -> "t0" [] k = 1 -> "t1" [] OTHER -> "t2"}
AddSomeLine == \E m \in Ms, p \in Pos, s \in Sp, n \in Sp, ok \in BOOLEAN :
  LET k == IF m \in DOMAIN meshes THEN Size(m, "l") ELSE 0 IN
  \E t \in Tg(k) :
    /\ k < MaxLines /\ DOMAIN devs = {}
    /\ k > 0 => meshes[m].lines[k].pos <= p /\ Size(m, "r") = 0
    /\ AddLine(m, [pos |-> p, ps |-> s, ns |-> n, tag |-> t], ok)
AddSomeRegion == \E m \in Ms, u \in {"t0", "t1"}, v \in {"t1", "t2"}, ok \in BOOLEAN :
  \E n \in (IF m \in DOMAIN meshes /\ Size(m, "r") = 0 THEN {"a"} ELSE {"a", "b"}) :
    /\ m \in DOMAIN meshes => Size(m, "r") < MaxRegs /\ Size(m, "c") = 0 /\ Size(m, "l") >= 1
    /\ AddRegion(m, [name |-> n, mat |-> "Si", t1 |-> u, t2 |-> v], ok)
AddSomeContact == \E m \in Ms, t \in {"t0", "t1", "t2"}, ok \in BOOLEAN :
  \E n \in (IF m \in DOMAIN meshes /\ Size(m, "c") = 0 THEN {"c"} ELSE {"c", "e"}) :
    /\ m \in DOMAIN meshes => Size(m, "c") < 2 /\ Size(m, "i") = 0
    /\ AddContact(m, [name |-> n, mat |-> "metal", tag |-> t], ok)
AddSomeInterface == \E m \in Ms, n \in {"i"}, t \in {"t1", "t2"}, ok \in BOOLEAN :
  /\ m \in DOMAIN meshes => Size(m, "i") < MaxIfs /\ Size(m, "c") >= 2
  /\ AddInterface(m, [name |-> n, tag |-> t], ok)
DoFinalize == \E m \in Ms, ok \in BOOLEAN : Finalize(m, ok)
Next ==
  \/ \E m \in Ms, ok \in BOOLEAN : DOMAIN devs = {} /\ Create(m, ok)
  \/ AddSomeLine \/ AddSomeRegion \/ AddSomeContact \/ AddSomeInterface
  \/ DoFinalize
  \/ \E m \in Ms, d \in Ds, ok \in BOOLEAN : CreateDevice(m, d, ok)
  \/ \E m \in Ms, ok \in BOOLEAN : DeleteMesh(m, ok)
  \/ \E d \in Ds, ok \in BOOLEAN : DeleteDevice(d, ok)
Spec == MInit /\ [][Next]_mvars

\* reachability: a two-region device is built
NoTwoRegions == \A d \in DOMAIN devs : Cardinality(DOMAIN devs[d].regions) < 2
\* a finalized mesh and its devices never change
Frozen == [][/\ \A m \in DOMAIN meshes \cap DOMAIN meshes' : meshes[m].fin => meshes'[m] = meshes[m]
             /\ \A d \in DOMAIN devs \cap DOMAIN devs' : devs'[d] = devs[d]]_mvars
=============================================================================
