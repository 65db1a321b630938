------------------------------- MODULE MCGMesh -------------------------------
(* All the ways of giving the groups of two small meshes their meaning.      *)
EXTENDS GMesh, TLC
CONSTANTS Which, MaxMap

\* four triangles in a row, cut in the middle; the edges around them
Flat == [pts |-> 1..6,
  groups |-> ("L" :> {{1, 2, 3}, {2, 3, 4}}) @@ ("R" :> {{3, 4, 5}, {4, 5, 6}}) @@
             ("mid" :> {{3, 4}}) @@ ("side" :> {{1, 2}}) @@ ("corner" :> {{2}, {4}})]
Solid == [pts |-> 1..5,
  groups |-> ("L" :> {{1, 2, 3, 4}}) @@ ("R" :> {{2, 3, 4, 5}}) @@
             ("mid" :> {{2, 3, 4}}) @@ ("side" :> {{1, 2, 3}}) @@ ("corner" :> {{2, 3}})]
Mesh == IF Which = 2 THEN Flat ELSE Solid
Gs == DOMAIN Mesh.groups
m == "m"
Maps == LET n == IF m \in DOMAIN meshes THEN
               LET S == DOMAIN meshes[m].regs C == DOMAIN meshes[m].cons F == DOMAIN meshes[m].ifs IN Cardinality(S) + Cardinality(C) + Cardinality(F) ELSE 0 IN n
DoRegion == \E g \in Gs, r \in {"a", "b"}, ok \in BOOLEAN : Maps < MaxMap /\ AddRegion(m, g, r, "Si", ok)
DoContact == \E g \in Gs, r \in {"a", "b"}, ok \in BOOLEAN : Maps < MaxMap /\ AddContact(m, g, "c", r, "metal", ok)
DoInterface == \E g \in Gs, ok \in BOOLEAN : Maps < MaxMap /\ AddInterface(m, g, "i", "a", "b", ok)
DoNodes == \E n0, n1 \in {<<2>>, <<3, 4>>, <<4, 3>>, <<2, 3, 4>>, <<7>>}, ok \in BOOLEAN : FromNodes("d", "j", "a", "b", n0, n1, ok)
DoTake == \E r \in {"a", "b"}, f \in {"i", "j"}, ok \in BOOLEAN : FromInterface("d", "k", r, f, "metal", ok)
Next ==
  \/ \E ok \in BOOLEAN : DOMAIN devs = {} /\ Create(m, Mesh.pts, Mesh.groups, TRUE, ok)
  \/ DoRegion \/ DoContact \/ DoInterface
  \/ \E ok \in BOOLEAN : Finalize(m, ok)
  \/ \E ok \in BOOLEAN : CreateDevice(m, "d", ok)
  \/ "d" \in DOMAIN devs /\ (DoNodes \/ DoTake)
  \/ \E ok \in BOOLEAN : DeleteMesh(m, ok)
  \/ \E ok \in BOOLEAN : DeleteDevice("d", ok)
Spec == GInit /\ [][Next]_gvars
\* reachability
NoFull == \A d \in DOMAIN devs : ~("k" \in DOMAIN devs[d].contacts /\ devs[d].contacts["k"].elems # {} /\
                                    "c" \in DOMAIN devs[d].contacts /\ devs[d].contacts["c"].elems # {})
\* wrong: the two sides of every interface have the same elements
SameSides == \A d \in DOMAIN devs : \A f \in DOMAIN devs[d].interfaces : devs[d].interfaces[f].e0 = devs[d].interfaces[f].e1
=============================================================================
