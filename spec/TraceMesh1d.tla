----------------------------- MODULE TraceMesh1d -----------------------------
(* Recorded histories of one-dimensional meshes against the specification.   *)
EXTENDS Mesh1d, TraceBase

VARIABLES i, seen    \* seen: the coordinates (exact text) a mesh has shown in its devices

tvars == <<mvars, i, seen>>

Near(x, y) == Abs(x - y) <= Tol

Pick(s, n) == CHOOSE r \in Elems(s) : r.name = n
Names(s) == {r.name : r \in Elems(s)}

\* the device as it shows itself is the device D
Shows(D, o) ==
  /\ o.dim = 1
  /\ Names(o.regions) = DOMAIN D.regions /\ Len(o.regions) = Cardinality(DOMAIN D.regions)
  /\ Names(o.contacts) = DOMAIN D.contacts /\ Len(o.contacts) = Cardinality(DOMAIN D.contacts)
  /\ Names(o.interfaces) = DOMAIN D.interfaces /\ Len(o.interfaces) = Cardinality(DOMAIN D.interfaces)
  /\ \A n \in DOMAIN D.regions :
       LET R == D.regions[n] r == Pick(o.regions, n) k == Len(R.pts) IN
       /\ r.mat = R.mat
       /\ Len(r.pts) = k
       /\ \A j \in 1..k : Near(r.pts[j][1], R.pts[j]) /\ r.pts[j][2] = 0 /\ r.pts[j][3] = 0
       /\ \A j \in 1..(k - 1) : r.pts[j][1] < r.pts[j + 1][1]
       /\ r.index = [j \in 1..k |-> j - 1]
       /\ Len(r.edges) = k - 1 /\ {Elems(e) : e \in Elems(r.edges)} = {{j - 1, j} : j \in 1..(k - 1)}
       /\ Len(r.elems) = k - 1 /\ {Elems(e) : e \in Elems(r.elems)} = {{j - 1, j} : j \in 1..(k - 1)}
  /\ \A n \in DOMAIN D.contacts :
       LET C == D.contacts[n] c == Pick(o.contacts, n) IN
       c.region = C.region /\ c.mat = C.mat /\ c.nodes = <<C.node>> /\ c.elems = <<<<C.node>>>>
  /\ \A n \in DOMAIN D.interfaces :
       LET F == D.interfaces[n] f == Pick(o.interfaces, n) IN
       /\ f.r0 = F.r0 /\ f.r1 = F.r1 /\ f.n0 = <<F.n0>> /\ f.n1 = <<F.n1>>
       /\ f.e0 = <<<<F.n0>>>> /\ f.e1 = <<<<F.n1>>>>
  \* the two regions of an interface share the coordinate and its position
  /\ \A n \in DOMAIN D.interfaces :
       LET F == D.interfaces[n] a == Pick(o.regions, F.r0) b == Pick(o.regions, F.r1) IN
       a.hex[F.n0 + 1] = b.hex[F.n1 + 1] /\ a.coord[F.n0 + 1] = b.coord[F.n1 + 1]

Hexes(o) == {[r |-> o.regions[k].name, h |-> o.regions[k].hex] : k \in DOMAIN o.regions}

Step(e) ==
  CASE e.op = "reset" -> meshes' = [x \in {} |-> EmptyMesh] /\ devs' = [x \in {} |-> 0] /\ seen' = [x \in {} |-> 0]
    [] e.op = "create" -> Create(e.m, e.ok) /\ seen' = IF e.ok THEN Drop(seen, e.m) ELSE seen
    [] e.op = "line" -> AddLine(e.m, e.line, e.ok) /\ UNCHANGED seen
    [] e.op = "region" -> AddRegion(e.m, e.region, e.ok) /\ UNCHANGED seen
    [] e.op = "contact" -> AddContact(e.m, e.contact, e.ok) /\ UNCHANGED seen
    [] e.op = "interface" -> AddInterface(e.m, e.interface, e.ok) /\ UNCHANGED seen
    [] e.op = "misfit" -> Misfit(e.ok) /\ UNCHANGED seen
    [] e.op = "finalize" -> Finalize(e.m, e.ok) /\ UNCHANGED seen
    [] e.op = "device" ->
         /\ CreateDevice(e.m, e.d, e.ok)
         /\ IF e.ok THEN Shows(devs'[e.d], e.look) /\ (e.m \in DOMAIN seen => seen[e.m] = Hexes(e.look))
                         /\ seen' = Put(seen, e.m, Hexes(e.look))
                    ELSE UNCHANGED seen
    [] e.op = "look" -> e.d \in DOMAIN devs /\ Shows(devs[e.d], e.look) /\ UNCHANGED <<mvars, seen>>
    [] e.op = "delete_mesh" -> DeleteMesh(e.m, e.ok) /\ UNCHANGED seen
    [] e.op = "delete_device" -> DeleteDevice(e.d, e.ok) /\ UNCHANGED seen
    [] e.op = "lists" -> e.meshes = DOMAIN meshes /\ e.devs = DOMAIN devs /\ UNCHANGED <<mvars, seen>>
    [] OTHER -> FALSE

Lists(e) == [e EXCEPT !.meshes = Elems(@), !.devs = Elems(@)]

TraceInit == MInit /\ i = 1 /\ seen = [x \in {} |-> 0]
TraceNext == /\ i <= Len(Trace)
             /\ Step(IF Trace[i].op = "lists" THEN Lists(Trace[i]) ELSE Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
