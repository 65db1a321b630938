---------------------------- MODULE MCMesh1dGrid ----------------------------
(* Every section that two mesh lines with small positions and spacings ask   *)
(* for, and two sections in a row.                                           *)
EXTENDS Mesh1d, TLC
CONSTANTS Lens, Sps
Line(p, n, s) == [pos |-> p * Q, ns |-> n * Q, ps |-> s * Q, tag |-> ""]
GInit == /\ devs = [x \in {} |-> 0]
         /\ \E a \in Lens, s1, s2, s3 \in Sps :
              LET ls == <<Line(0, 1, s1), Line(a, s2, s3)>> IN
              \E g \in Grids(ls) : meshes = ("m" :> [EmptyMesh EXCEPT !.lines = ls, !.fin = TRUE, !.grid = g])
GNext == UNCHANGED mvars
GSpec == GInit /\ [][GNext]_mvars
\* the spacing may exceed the smaller of the two asked for
NeverCoarse == \A m \in DOMAIN meshes : \A i \in 1..(Len(meshes[m].grid) - 1) :
  meshes[m].grid[i + 1] - meshes[m].grid[i] <= meshes[m].lines[1].ps
=============================================================================
