----------------------------- MODULE TraceMesh2d -----------------------------
(* Recorded histories of two-dimensional meshes against the specification.   *)
EXTENDS Mesh2d, TraceBase

VARIABLES i, seen    \* seen: what a mesh has shown in its devices, exactly

tvars == <<mvars, i, seen>>

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= Tol

Pick(s, n) == CHOOSE r \in Elems(s) : r.name = n
Names(s) == {r.name : r \in Elems(s)}
Once(s) == Cardinality(Elems(s)) = Len(s)

\* the place on a line of the grid, or 0
At(g, x) == LET S == {k \in DOMAIN g : Near(g[k], x)} IN IF Cardinality(S) = 1 THEN CHOOSE k \in S : TRUE ELSE 0

\* the grid point of each node of a region as it shows itself
Points(D, r) == [k \in DOMAIN r.pts |-> <<At(D.xg, r.pts[k][1]), At(D.yg, r.pts[k][2])>>]
Img(P, s) == {P[s[k] + 1] : k \in DOMAIN s}
Images(P, l) == {Img(P, l[k]) : k \in DOMAIN l}

\* the edges l (of numbers of nodes) are exactly the edges E, each once
SameSets(P, l, E) == Len(l) = Cardinality(E) /\ Images(P, l) = E

ShowsRegion(D, n, r) ==
  LET R == D.regions[n] P == Points(D, r) k == Len(r.pts) IN
  /\ r.mat = R.mat
  /\ \A j \in DOMAIN P : r.pts[j][3] = 0
  /\ k = Cardinality(R.pts) /\ {P[j] : j \in DOMAIN P} = R.pts
  /\ r.index = [j \in 1..k |-> j - 1]
  /\ Once(r.coord)
  /\ SameSets(P, r.elems, R.tris)
  /\ SameSets(P, r.edges, UNION {Pairs(t) : t \in R.tris})

Shows(D, o) ==
  /\ o.dim = 2
  /\ Names(o.regions) = DOMAIN D.regions /\ Len(o.regions) = Cardinality(DOMAIN D.regions)
  /\ Names(o.contacts) = DOMAIN D.contacts /\ Len(o.contacts) = Cardinality(DOMAIN D.contacts)
  /\ Names(o.interfaces) = DOMAIN D.interfaces /\ Len(o.interfaces) = Cardinality(DOMAIN D.interfaces)
  /\ \A n \in DOMAIN D.regions : ShowsRegion(D, n, Pick(o.regions, n))
  /\ \A n \in DOMAIN D.contacts :
       LET C == D.contacts[n] c == Pick(o.contacts, n) P == Points(D, Pick(o.regions, C.region)) IN
       /\ c.region = C.region /\ c.mat = C.mat
       /\ Once(c.nodes) /\ Img(P, c.nodes) = C.pts
       /\ SameSets(P, c.elems, C.edges)
  /\ \A n \in DOMAIN D.interfaces :
       LET F == D.interfaces[n] f == Pick(o.interfaces, n)
           a == Pick(o.regions, F.r0) b == Pick(o.regions, F.r1)
           P == Points(D, a) R == Points(D, b)
       IN
       /\ f.r0 = F.r0 /\ f.r1 = F.r1
       /\ Len(f.n0) = Len(f.n1) /\ Once(f.n0) /\ Img(P, f.n0) = F.pts
       \* a pair of nodes is one point, at one place
       /\ \A k \in DOMAIN f.n0 : /\ P[f.n0[k] + 1] = R[f.n1[k] + 1]
                                 /\ a.hex[f.n0[k] + 1] = b.hex[f.n1[k] + 1] /\ a.coord[f.n0[k] + 1] = b.coord[f.n1[k] + 1]
       /\ SameSets(P, f.e0, F.e0) /\ SameSets(R, f.e1, F.e1)

\* coordinates are told exactly, so that two devices of a mesh are seen to be the same
Exact(o) == <<[k \in DOMAIN o.regions |-> <<o.regions[k].name, o.regions[k].hex, o.regions[k].edges, o.regions[k].elems>>],
              o.contacts, o.interfaces>>

Step(e) ==
  CASE e.op = "reset" -> meshes' = [x \in {} |-> EmptyMesh] /\ devs' = [x \in {} |-> 0] /\ seen' = [x \in {} |-> 0]
    [] e.op = "create" -> Create(e.m, e.ok) /\ seen' = IF e.ok THEN Drop(seen, e.m) ELSE seen
    [] e.op = "line" -> AddLine(e.m, e.dir, e.line, e.ok) /\ UNCHANGED seen
    [] e.op = "region" -> AddRegion(e.m, e.name, e.mat, e.box, e.ok) /\ UNCHANGED seen
    [] e.op = "contact" -> AddContact(e.m, e.name, e.mat, e.r, e.box, e.ok) /\ UNCHANGED seen
    [] e.op = "interface" -> AddInterface(e.m, e.name, e.r0, e.r1, e.box, e.ok) /\ UNCHANGED seen
    [] e.op = "misfit" -> Misfit(e.ok) /\ UNCHANGED seen
    [] e.op = "finalize" -> Finalize(e.m, e.ok) /\ UNCHANGED seen
    [] e.op = "device" ->
         /\ CreateDevice(e.m, e.d, e.ok)
         /\ IF e.ok THEN Shows(devs'[e.d], e.look) /\ (e.m \in DOMAIN seen => seen[e.m] = Exact(e.look))
                         /\ seen' = Put(seen, e.m, Exact(e.look))
                    ELSE UNCHANGED seen
    [] e.op = "look" -> e.d \in DOMAIN devs /\ Shows(devs[e.d], e.look) /\ UNCHANGED <<mvars, seen>>
    [] e.op = "delete_mesh" -> DeleteMesh(e.m, e.ok) /\ UNCHANGED seen
    [] e.op = "delete_device" -> DeleteDevice(e.d, e.ok) /\ UNCHANGED seen
    [] e.op = "lists" -> Elems(e.meshes) = DOMAIN meshes /\ Elems(e.devs) = DOMAIN devs /\ UNCHANGED <<mvars, seen>>
    [] OTHER -> FALSE

TraceInit == MInit /\ i = 1 /\ seen = [x \in {} |-> 0]
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
