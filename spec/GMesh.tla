-------------------------------- MODULE GMesh --------------------------------
(* Imported meshes: points, groups of simplices, what the groups are to be   *)
(* (regions, contacts, interfaces), and the devices made from them; contacts *)
(* and interfaces made afterwards from what is there.                        *)
(* A simplex is the set of the names of its points.                          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES meshes, devs

gvars == <<meshes, devs>>

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Elems(s) == {s[i] : i \in DOMAIN s}

Subsets(S, n) == {t \in SUBSET S : Cardinality(t) = n}
Faces(simps, n) == UNION {Subsets(t, n) : t \in simps}    \* the faces of n points of a set of simplices

\* pts: the names of the points there are; groups: name -> set of simplices
EmptyMesh(pts, groups) == [pts |-> pts, groups |-> groups, regs |-> <<>>, cons |-> <<>>, ifs |-> <<>>, fin |-> FALSE]

Mixed(groups) == \E n \in DOMAIN groups : \E a, b \in groups[n] : Cardinality(a) # Cardinality(b)
Dim(groups) ==
  LET S == {Cardinality(t) : t \in UNION {groups[n] : n \in DOMAIN groups}} IN
  (IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : j <= k) - 1

-----------------------------------------------------------------------------
(* The device a description stands for.                                      *)

Simps(M, gs) == UNION {Get(M.groups, g, {}) : g \in gs}
Pts(simps) == UNION simps

\* the faces of a region on its boundary: on one of its elements only
Rim(R, dim) == {f \in Faces(R.elems, dim) : Cardinality({t \in R.elems : f \subseteq t}) = 1}
\* the elements of a contact or a side of an interface: those told, else all on the boundary between its points
Side(R, told, pts, dim) == IF dim = 1 THEN {{p} : p \in pts}
                           ELSE IF told # {} THEN told
                           ELSE {f \in Rim(R, dim) : f \subseteq pts}

Region(M, r) ==
  LET s == Simps(M, M.regs[r].groups) d == Dim(M.groups) IN
  [mat |-> M.regs[r].mat, pts |-> Pts(s), elems |-> {t \in s : Cardinality(t) = d + 1},
   edges |-> Faces(s, 2), faces |-> Faces(s, d)]

ContactOk(M, c) ==
  LET C == M.cons[c] s == Simps(M, C.groups) d == Dim(M.groups) IN
  /\ C.region \in DOMAIN M.regs
  /\ s # {} /\ Pts(s) \subseteq Pts(Simps(M, M.regs[C.region].groups))
  /\ d = 3 \/ \A t \in s : Cardinality(t) <= d

Contact(M, c) ==
  LET C == M.cons[c] s == Simps(M, C.groups) d == Dim(M.groups) R == Region(M, C.region) IN
  [region |-> C.region, mat |-> C.mat, pts |-> Pts(s), elems |-> Side(R, Faces(s, d) \cap R.faces, Pts(s), d)]

InterfaceOk(M, f) ==
  LET F == M.ifs[f] s == Simps(M, F.groups) d == Dim(M.groups) IN
  /\ F.r0 \in DOMAIN M.regs /\ F.r1 \in DOMAIN M.regs
  /\ s # {}
  /\ Pts(s) \subseteq Pts(Simps(M, M.regs[F.r0].groups)) /\ Pts(s) \subseteq Pts(Simps(M, M.regs[F.r1].groups))
  /\ d = 3 \/ \A t \in s : Cardinality(t) <= d

\* the pairs of points of an interface; the order is not told
Interface(M, f) ==
  LET F == M.ifs[f] s == Simps(M, F.groups) d == Dim(M.groups)
      A == Region(M, F.r0) B == Region(M, F.r1)
      told == Faces(s, d) \cap A.faces \cap B.faces
  IN [r0 |-> F.r0, r1 |-> F.r1, seq |-> <<>>, pairs |-> {<<p, p>> : p \in Pts(s)},
      e0 |-> Side(A, told, Pts(s), d), e1 |-> Side(B, told, Pts(s), d)]

CanBuild(M) ==
  /\ Dim(M.groups) >= 1
  \* every region has its points
  /\ \A r \in DOMAIN M.regs : Pts(Simps(M, M.regs[r].groups)) \subseteq M.pts
  /\ \A c \in DOMAIN M.cons : ContactOk(M, c)
  /\ \A f \in DOMAIN M.ifs : InterfaceOk(M, f)

Build(M) ==
  [dim |-> Dim(M.groups),
   regions |-> [r \in DOMAIN M.regs |-> Region(M, r)],
   contacts |-> [c \in DOMAIN M.cons |-> Contact(M, c)],
   interfaces |-> [f \in DOMAIN M.ifs |-> Interface(M, f)]]

-----------------------------------------------------------------------------
(* The commands.                                                             *)

Open(m) == m \in DOMAIN meshes /\ ~meshes[m].fin

\* good: the description or the file can be read
Create(m, pts, groups, good, ok) ==
  /\ ok = (m \notin DOMAIN meshes /\ good)
  /\ meshes' = IF ok THEN Put(meshes, m, EmptyMesh(pts, groups)) ELSE meshes
  /\ UNCHANGED devs

AddRegion(m, g, r, mat, ok) ==
  /\ ok = (Open(m) /\ g # "" /\ r # "" /\ mat # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].regs =
                             Put(@, r, [mat |-> mat, groups |-> (IF r \in DOMAIN @ THEN @[r].groups ELSE {}) \cup {g}])] ELSE meshes
  /\ UNCHANGED devs

AddContact(m, g, c, r, mat, ok) ==
  /\ ok = (Open(m) /\ g # "" /\ c # "" /\ r # "" /\ mat # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].cons =
                             Put(@, c, [region |-> r, mat |-> mat, groups |-> (IF c \in DOMAIN @ THEN @[c].groups ELSE {}) \cup {g}])] ELSE meshes
  /\ UNCHANGED devs

AddInterface(m, g, f, r0, r1, ok) ==
  /\ ok = (Open(m) /\ g # "" /\ f # "" /\ r0 # "" /\ r1 # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].ifs =
                             Put(@, f, [r0 |-> r0, r1 |-> r1, groups |-> (IF f \in DOMAIN @ THEN @[f].groups ELSE {}) \cup {g}])] ELSE meshes
  /\ UNCHANGED devs

Misfit(ok) == ~ok /\ UNCHANGED gvars

Finalize(m, ok) ==
  /\ ok = (Open(m) /\ ~Mixed(meshes[m].groups))
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].fin = TRUE] ELSE meshes
  /\ UNCHANGED devs

CreateDevice(m, d, ok) ==
  /\ ok = (m \in DOMAIN meshes /\ meshes[m].fin /\ d \notin DOMAIN devs /\ CanBuild(meshes[m]))
  /\ devs' = IF ok THEN Put(devs, d, Build(meshes[m])) ELSE devs
  /\ UNCHANGED meshes

DeleteMesh(m, ok) ==
  /\ ok = (m \in DOMAIN meshes)
  /\ meshes' = IF ok THEN Drop(meshes, m) ELSE meshes
  /\ UNCHANGED devs

DeleteDevice(d, ok) ==
  /\ ok = (d \in DOMAIN devs)
  /\ devs' = IF ok THEN Drop(devs, d) ELSE devs
  /\ UNCHANGED meshes

\* n0 and n1: the points of the two sides, one after the other (0 for one there is not)
FromNodes(d, f, r0, r1, n0, n1, ok) ==
  LET D == devs[d] IN
  /\ ok = (/\ d \in DOMAIN devs /\ f # "" /\ f \notin DOMAIN D.interfaces
           /\ r0 \in DOMAIN D.regions /\ r1 \in DOMAIN D.regions
           /\ Len(n0) = Len(n1) /\ n0 # <<>>
           /\ Elems(n0) \subseteq D.regions[r0].pts /\ Elems(n1) \subseteq D.regions[r1].pts)
  /\ devs' = IF ~ok THEN devs ELSE
       [devs EXCEPT ![d].interfaces = Put(@, f,
          [r0 |-> r0, r1 |-> r1, seq |-> [k \in DOMAIN n0 |-> <<n0[k], n1[k]>>],
           pairs |-> {<<n0[k], n1[k]>> : k \in DOMAIN n0},
           e0 |-> Side(D.regions[r0], {}, Elems(n0), D.dim), e1 |-> Side(D.regions[r1], {}, Elems(n1), D.dim)])]
  /\ UNCHANGED meshes

FromInterface(d, c, r, f, mat, ok) ==
  LET D == devs[d] F == D.interfaces[f] IN
  /\ ok = (/\ d \in DOMAIN devs /\ c # "" /\ mat # "" /\ c \notin DOMAIN D.contacts
           /\ r \in DOMAIN D.regions /\ f \in DOMAIN D.interfaces /\ r \in {F.r0, F.r1})
  /\ devs' = IF ~ok THEN devs ELSE
       [devs EXCEPT ![d].contacts = Put(@, c,
          [region |-> r, mat |-> mat,
           pts |-> {IF r = F.r0 THEN p[1] ELSE p[2] : p \in F.pairs},
           elems |-> IF r = F.r0 THEN F.e0 ELSE F.e1])]
  /\ UNCHANGED meshes

-----------------------------------------------------------------------------
(* What must hold of every device.                                           *)

DeviceSound ==
  \A d \in DOMAIN devs : LET D == devs[d] IN
    /\ \A r \in DOMAIN D.regions :
         /\ Pts(D.regions[r].elems) \subseteq D.regions[r].pts
         /\ Pts(D.regions[r].edges) \subseteq D.regions[r].pts
         /\ Faces(D.regions[r].elems, 2) \subseteq D.regions[r].edges
    /\ \A c \in DOMAIN D.contacts : LET C == D.contacts[c] R == D.regions[C.region] IN
         /\ C.pts # {} /\ C.pts \subseteq R.pts
         /\ D.dim > 1 => C.elems \subseteq R.faces
         /\ Pts(C.elems) \subseteq C.pts
    /\ \A f \in DOMAIN D.interfaces : LET F == D.interfaces[f] IN
         /\ F.pairs # {} /\ \A p \in F.pairs : p[1] \in D.regions[F.r0].pts /\ p[2] \in D.regions[F.r1].pts
         /\ D.dim > 1 => F.e0 \subseteq D.regions[F.r0].faces /\ F.e1 \subseteq D.regions[F.r1].faces
         /\ (F.seq = <<>> /\ D.dim = 1) => F.e0 = F.e1

GInit == meshes = [x \in {} |-> 0] /\ devs = [x \in {} |-> 0]
=============================================================================
