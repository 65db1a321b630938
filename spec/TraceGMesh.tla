----------------------------- MODULE TraceGMesh -----------------------------
(* Recorded histories of imported meshes against the specification.          *)
EXTENDS GMesh, TraceBase

VARIABLES i,
          where,   \* mesh -> its points in order: name and place
          tab,     \* device -> the same
          nodes    \* device -> region -> the names of the points of its nodes, as shown

tvars == <<gvars, i, where, tab, nodes>>

Pick(s, n) == CHOOSE r \in Elems(s) : r.name = n
Names(s) == {r.name : r \in Elems(s)}
Once(s) == Cardinality(Elems(s)) = Len(s)
Img(P, s) == {P[s[k] + 1] : k \in DOMAIN s}
Images(P, l) == {Img(P, l[k]) : k \in DOMAIN l}
SameSets(P, l, E) == Len(l) = Cardinality(E) /\ Images(P, l) = E
\* in one dimension the elements of a contact are one list of points
SameSide(P, l, E, d) == IF d = 1 THEN Len(l) = 1 /\ {{P[n + 1]} : n \in Elems(l[1])} = E ELSE SameSets(P, l, E)

Ids(t, r) == [k \in DOMAIN r.coord |-> t[r.coord[k] + 1].id]

ShowsRegion(D, t, n, r) ==
  LET R == D.regions[n] IN
  /\ r.mat = R.mat
  /\ \A k \in DOMAIN r.coord : r.coord[k] + 1 \in DOMAIN t
  /\ LET P == Ids(t, r) IN
     /\ Once(P) /\ Elems(P) = R.pts
     /\ r.index = [j \in 1..Len(P) |-> j - 1]
     /\ Len(r.pts) = Len(P) /\ \A k \in DOMAIN P : r.pts[k] = t[r.coord[k] + 1].at
     /\ SameSets(P, r.elems, R.elems)
     /\ SameSets(P, r.edges, R.edges)

\* the device as it shows itself is the device D, with the points t
Shows(D, t, o) ==
  /\ o.dim = D.dim
  /\ Names(o.regions) = DOMAIN D.regions /\ Len(o.regions) = Cardinality(DOMAIN D.regions)
  /\ Names(o.contacts) = DOMAIN D.contacts /\ Len(o.contacts) = Cardinality(DOMAIN D.contacts)
  /\ Names(o.interfaces) = DOMAIN D.interfaces /\ Len(o.interfaces) = Cardinality(DOMAIN D.interfaces)
  /\ \A n \in DOMAIN D.regions : ShowsRegion(D, t, n, Pick(o.regions, n))
  /\ \A n \in DOMAIN D.contacts :
       LET C == D.contacts[n] c == Pick(o.contacts, n) P == Ids(t, Pick(o.regions, C.region)) IN
       /\ c.region = C.region /\ c.mat = C.mat
       /\ Once(c.nodes) /\ Img(P, c.nodes) = C.pts
       /\ SameSide(P, c.elems, C.elems, D.dim)
  /\ \A n \in DOMAIN D.interfaces :
       LET F == D.interfaces[n] f == Pick(o.interfaces, n)
           a == Pick(o.regions, F.r0) b == Pick(o.regions, F.r1) P == Ids(t, a) R == Ids(t, b)
           S == [k \in DOMAIN f.n0 |-> <<P[f.n0[k] + 1], R[f.n1[k] + 1]>>]
       IN
       /\ f.r0 = F.r0 /\ f.r1 = F.r1 /\ Len(f.n0) = Len(f.n1)
       /\ IF F.seq # <<>> THEN S = F.seq ELSE Once(S) /\ Elems(S) = F.pairs
       /\ SameSide(P, f.e0, F.e0, D.dim) /\ SameSide(R, f.e1, F.e1, D.dim)

NodesOf(t, o) == [n \in Names(o.regions) |-> Ids(t, Pick(o.regions, n))]

-----------------------------------------------------------------------------
\* the description as given: elements with their dimension, the number of their group, and the names of their points
Groups(e) ==
  LET ns == {e.names[k] : k \in DOMAIN e.names} IN
  [n \in ns |-> {Elems(x.nodes) : x \in {x \in Elems(e.elements) : e.names[x.group + 1] = n}}]
GoodArgs(e) ==
  /\ ~e.broken /\ e.coords # <<>> /\ e.names # <<>> /\ e.elements # <<>>
  /\ \A x \in Elems(e.elements) : x.group + 1 \in DOMAIN e.names
  /\ \A k \in DOMAIN e.names : \E x \in Elems(e.elements) : x.group = k - 1
  /\ \A x, y \in Elems(e.elements) : x.group = y.group => Len(x.nodes) = Len(y.nodes)
\* in a file a number stands for one group in each dimension
GoodFile(e) == ~e.broken
Good(e) == IF e.file THEN GoodFile(e) ELSE GoodArgs(e)

Ids0(e, r, l) == [k \in DOMAIN l |-> IF e.d \in DOMAIN nodes /\ r \in DOMAIN nodes[e.d] /\ l[k] + 1 \in DOMAIN nodes[e.d][r]
                                     THEN nodes[e.d][r][l[k] + 1] ELSE -1]
Keep == UNCHANGED <<where, tab, nodes>>

Step(e) ==
  CASE e.op = "reset" -> /\ meshes' = [x \in {} |-> 0] /\ devs' = [x \in {} |-> 0] /\ where' = [x \in {} |-> 0]
                         /\ tab' = [x \in {} |-> 0] /\ nodes' = [x \in {} |-> 0]
    [] e.op = "create" ->
         /\ Create(e.m, {c.id : c \in Elems(e.coords)}, IF Good(e) THEN Groups(e) ELSE <<>>, Good(e), e.ok)
         /\ where' = IF e.ok THEN Put(where, e.m, e.coords) ELSE where
         /\ UNCHANGED <<tab, nodes>>
    [] e.op = "region" -> AddRegion(e.m, e.g, e.name, e.mat, e.ok) /\ Keep
    [] e.op = "contact" -> AddContact(e.m, e.g, e.name, e.r, e.mat, e.ok) /\ Keep
    [] e.op = "interface" -> AddInterface(e.m, e.g, e.name, e.r0, e.r1, e.ok) /\ Keep
    [] e.op = "misfit" -> Misfit(e.ok) /\ Keep
    [] e.op = "finalize" -> Finalize(e.m, e.ok) /\ Keep
    [] e.op = "device" ->
         /\ CreateDevice(e.m, e.d, e.ok)
         /\ IF e.ok THEN /\ Shows(devs'[e.d], where[e.m], e.look)
                         /\ tab' = Put(tab, e.d, where[e.m])
                         /\ nodes' = Put(nodes, e.d, NodesOf(where[e.m], e.look))
                         /\ UNCHANGED where
                    ELSE Keep
    [] e.op = "look" -> /\ e.d \in DOMAIN devs /\ Shows(devs[e.d], tab[e.d], e.look)
                        /\ nodes[e.d] = NodesOf(tab[e.d], e.look) /\ UNCHANGED gvars /\ Keep
    [] e.op = "from_nodes" -> FromNodes(e.d, e.name, e.r0, e.r1, Ids0(e, e.r0, e.n0), Ids0(e, e.r1, e.n1), e.ok) /\ Keep
    [] e.op = "from_interface" -> FromInterface(e.d, e.name, e.r, e.f, e.mat, e.ok) /\ Keep
    [] e.op = "delete_mesh" -> DeleteMesh(e.m, e.ok) /\ Keep
    [] e.op = "delete_device" -> DeleteDevice(e.d, e.ok) /\ Keep
    [] e.op = "lists" -> Elems(e.meshes) = DOMAIN meshes /\ Elems(e.devs) = DOMAIN devs /\ UNCHANGED gvars /\ Keep
    [] OTHER -> FALSE

TraceInit == GInit /\ i = 1 /\ where = [x \in {} |-> 0] /\ tab = [x \in {} |-> 0] /\ nodes = [x \in {} |-> 0]
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
