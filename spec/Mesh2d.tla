------------------------------- MODULE Mesh2d -------------------------------
(* Two-dimensional structured meshes: lines, regions, contacts and           *)
(* interfaces with their bounding boxes, and the devices they describe.      *)
(* A point is a pair of indexes into the grid of the x and the y lines.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Q, Tol

VARIABLES meshes, devs

mvars == <<meshes, devs>>

G == INSTANCE Mesh1d

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Elems(s) == {s[i] : i \in DOMAIN s}

EmptyMesh == [xs |-> <<>>, ys |-> <<>>, regs |-> <<>>, cons |-> <<>>, ifs |-> <<>>, fin |-> FALSE, body |-> <<>>]

-----------------------------------------------------------------------------
(* Boxes.  A box given with its sides exchanged is the same box; b is the     *)
(* margin, 0 for the default one, which only takes in the sides (rounding).  n is the    *)
(* number of points whose coordinates have been added up.                    *)

Between(x, a, b, bl, n) ==
  LET lo == IF a <= b THEN a ELSE b
      hi == IF a <= b THEN b ELSE a
  IN IF bl = 0 THEN n * (lo - 4) <= x /\ x <= n * (hi + 4)
     ELSE n * (lo - bl) < x /\ x < n * (hi + bl)

InBox(x, y, B, n) == Between(x, B.xl, B.xh, B.bl, n) /\ Between(y, B.yl, B.yh, B.bl, n)
InAny(x, y, boxes, n) == \E k \in DOMAIN boxes : InBox(x, y, boxes[k], n)

\* the lines that count: one for each position
Firsts(s) == {k \in DOMAIN s : ~\E j \in 1..(k - 1) : s[j].pos = s[k].pos}
SortedLines(s) ==
  LET F == Firsts(s) IN
  [n \in 1..Cardinality(F) |-> s[CHOOSE k \in F : Cardinality({j \in F : s[j].pos < s[k].pos}) = n - 1]]

-----------------------------------------------------------------------------
(* The body of a mesh: which region every triangle of the grid belongs to.   *)

Cells(xg, yg) == (1..(Len(xg) - 1)) \X (1..(Len(yg) - 1))
Halves(c) == LET i == c[1] j == c[2] IN
  { {<<i, j>>, <<i + 1, j>>, <<i, j + 1>>}, {<<i + 1, j>>, <<i + 1, j + 1>>, <<i, j + 1>>} }

SumX(t, xg) == LET a == CHOOSE p \in t : TRUE b == CHOOSE p \in t \ {a} : TRUE c == CHOOSE p \in t \ {a, b} : TRUE IN xg[a[1]] + xg[b[1]] + xg[c[1]]
SumY(t, yg) == LET a == CHOOSE p \in t : TRUE b == CHOOSE p \in t \ {a} : TRUE c == CHOOSE p \in t \ {a, b} : TRUE IN yg[a[2]] + yg[b[2]] + yg[c[2]]

\* the index of the last region defined over the middle of the triangle, or 0
Owner(M, t, xg, yg) ==
  LET x == SumX(t, xg) y == SumY(t, yg)
      S == {k \in DOMAIN M.regs : InAny(x, y, M.regs[k].boxes, 3)}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k

Pairs(t) == {e \in SUBSET t : Cardinality(e) = 2}

\* the elements of a set of edges on the boundary: those of a single triangle
Rim(tris) == {e \in UNION {Pairs(t) : t \in tris} : Cardinality({t \in tris : e \subseteq t}) = 1}

\* The shared points go one after the other to the first contact, else to the first interface, that wants them.
Body(M, xg, yg) ==
  LET all == UNION {Halves(c) : c \in Cells(xg, yg)}
      own == [t \in all |-> Owner(M, t, xg, yg)]
      tris == [k \in DOMAIN M.regs |-> {t \in all : own[t] = k}]
      pts == [k \in DOMAIN M.regs |-> UNION tris[k]]
      live == {k \in DOMAIN M.regs : tris[k] # {}}
      shared == {p \in UNION {pts[k] : k \in live} : Cardinality({k \in live : p \in pts[k]}) > 1}
      has(n, p) == \E k \in live : M.regs[k].name = n /\ p \in pts[k]
      wants(s, p) == InAny(xg[p[1]], yg[p[2]], s.boxes, 1)
      ctakes(c, p) == wants(c, p) /\ has(c.region, p)
      cowner == [p \in shared |-> LET S == {k \in DOMAIN M.cons : ctakes(M.cons[k], p)} IN
                                  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j]
      itakes(f, p) == wants(f, p) /\ has(f.r0, p) /\ has(f.r1, p)
      iowner == [p \in shared |-> IF cowner[p] # 0 THEN 0 ELSE
                                  LET S == {k \in DOMAIN M.ifs : itakes(M.ifs[k], p)} IN
                                  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j]
      \* a contact or interface is made when its box is asked about a shared point nobody before it has taken
      cmade == {k \in DOMAIN M.cons : \E p \in shared : wants(M.cons[k], p) /\ (cowner[p] = 0 \/ cowner[p] >= k)}
      imade == {k \in DOMAIN M.ifs : \E p \in shared : cowner[p] = 0 /\ wants(M.ifs[k], p) /\ (iowner[p] = 0 \/ iowner[p] >= k)}
      reg(n) == CHOOSE k \in live : M.regs[k].name = n
      known(n) == \E k \in live : M.regs[k].name = n
      inside(E, S) == {e \in E : e \subseteq S}
  IN [xg |-> xg, yg |-> yg,
      regions |-> [n \in {M.regs[k].name : k \in live} |->
          [mat |-> M.regs[reg(n)].mat, pts |-> pts[reg(n)], tris |-> tris[reg(n)]]],
      \* a name that stands for no region spoils the device
      bad |-> (\E k \in cmade : ~known(M.cons[k].region)) \/ (\E k \in imade : ~known(M.ifs[k].r0) \/ ~known(M.ifs[k].r1)),
      contacts |-> [n \in {M.cons[k].name : k \in {k \in cmade : known(M.cons[k].region)}} |->
          LET k == CHOOSE k \in cmade : M.cons[k].name = n
              S == {p \in shared : cowner[p] = k}
          IN [region |-> M.cons[k].region, mat |-> M.cons[k].mat, pts |-> S,
              edges |-> inside(Rim(tris[reg(M.cons[k].region)]), S)]],
      interfaces |-> [n \in {M.ifs[k].name : k \in {k \in imade : known(M.ifs[k].r0) /\ known(M.ifs[k].r1)}} |->
          LET k == CHOOSE k \in imade : M.ifs[k].name = n
              S == {p \in shared : iowner[p] = k}
          IN [r0 |-> M.ifs[k].r0, r1 |-> M.ifs[k].r1, pts |-> S,
              e0 |-> inside(Rim(tris[reg(M.ifs[k].r0)]), S), e1 |-> inside(Rim(tris[reg(M.ifs[k].r1)]), S)]]]

-----------------------------------------------------------------------------
(* The commands.                                                             *)

Open(m) == m \in DOMAIN meshes /\ ~meshes[m].fin

Create(m, ok) ==
  /\ ok = (m \notin DOMAIN meshes)
  /\ meshes' = IF ok THEN Put(meshes, m, EmptyMesh) ELSE meshes
  /\ UNCHANGED devs

AddLine(m, dir, l, ok) ==
  LET k == [l EXCEPT !.ns = IF l.ns <= 0 THEN l.ps ELSE l.ns] IN
  /\ ok = (Open(m) /\ l.ps > 0 /\ dir \in {"x", "y"})
  /\ meshes' = IF ~ok THEN meshes
               ELSE IF dir = "x" THEN [meshes EXCEPT ![m].xs = Append(@, k)] ELSE [meshes EXCEPT ![m].ys = Append(@, k)]
  /\ UNCHANGED devs

\* a name used again adds a box to what the name stands for, and changes nothing else
More(s, r, box) ==
  IF \E k \in DOMAIN s : s[k].name = r.name
    THEN [k \in DOMAIN s |-> IF s[k].name = r.name THEN [s[k] EXCEPT !.boxes = Append(@, box)] ELSE s[k]]
    ELSE Append(s, r)

AddRegion(m, n, mat, box, ok) ==
  /\ ok = (Open(m) /\ n # "" /\ mat # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].regs = More(@, [name |-> n, mat |-> mat, boxes |-> <<box>>], box)] ELSE meshes
  /\ UNCHANGED devs

AddContact(m, n, mat, r, box, ok) ==
  /\ ok = (Open(m) /\ n # "" /\ mat # "" /\ r # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].cons = More(@, [name |-> n, mat |-> mat, region |-> r, boxes |-> <<box>>], box)] ELSE meshes
  /\ UNCHANGED devs

AddInterface(m, n, r0, r1, box, ok) ==
  /\ ok = (Open(m) /\ n # "" /\ r0 # "" /\ r1 # "" /\ r0 # r1)
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].ifs = More(@, [name |-> n, r0 |-> r0, r1 |-> r1, boxes |-> <<box>>], box)] ELSE meshes
  /\ UNCHANGED devs

Misfit(ok) == ~ok /\ UNCHANGED mvars

CanFinalize(M) ==
  /\ Cardinality(Firsts(M.xs)) >= 2
  /\ Cardinality(Firsts(M.ys)) >= 2
  /\ \A gx \in G!Grids(SortedLines(M.xs)), gy \in G!Grids(SortedLines(M.ys)) : DOMAIN Body(M, gx, gy).regions # {}

Finalize(m, ok) ==
  /\ ok = (Open(m) /\ CanFinalize(meshes[m]))
  /\ IF ok THEN \E gx \in G!Grids(SortedLines(meshes[m].xs)), gy \in G!Grids(SortedLines(meshes[m].ys)) :
                   meshes' = [meshes EXCEPT ![m].fin = TRUE, ![m].body = Body(meshes[m], gx, gy)]
           ELSE meshes' = meshes
  /\ UNCHANGED devs

CreateDevice(m, d, ok) ==
  /\ ok = (m \in DOMAIN meshes /\ meshes[m].fin /\ d \notin DOMAIN devs /\ ~meshes[m].body.bad)
  /\ devs' = IF ok THEN Put(devs, d, meshes[m].body) ELSE devs
  /\ UNCHANGED meshes

DeleteMesh(m, ok) ==
  /\ ok = (m \in DOMAIN meshes)
  /\ meshes' = IF ok THEN Drop(meshes, m) ELSE meshes
  /\ UNCHANGED devs

DeleteDevice(d, ok) ==
  /\ ok = (d \in DOMAIN devs)
  /\ devs' = IF ok THEN Drop(devs, d) ELSE devs
  /\ UNCHANGED meshes

-----------------------------------------------------------------------------
(* What must hold of every device.                                           *)

Around(D, p) == {n \in DOMAIN D.regions : p \in D.regions[n].pts}

Tiles(D) ==
  \* no triangle twice, and a cell all of whose triangles have a region is covered exactly
  /\ \A a, b \in DOMAIN D.regions : a # b => D.regions[a].tris \cap D.regions[b].tris = {}
  /\ \A a \in DOMAIN D.regions : \A t \in D.regions[a].tris : \E c \in Cells(D.xg, D.yg) : t \in Halves(c)
  /\ \A a \in DOMAIN D.regions : D.regions[a].tris # {} /\ D.regions[a].pts = UNION D.regions[a].tris
  \* an edge has at most two triangles around it in all
  /\ LET all == UNION {D.regions[a].tris : a \in DOMAIN D.regions} IN
     \A e \in UNION {Pairs(t) : t \in all} : Cardinality({t \in all : e \subseteq t}) \in {1, 2}

Boundary(D) ==
  /\ \A c \in DOMAIN D.contacts : \A p \in D.contacts[c].pts :
       D.contacts[c].region \in Around(D, p) /\ Cardinality(Around(D, p)) > 1
  /\ \A f \in DOMAIN D.interfaces : \A p \in D.interfaces[f].pts : {D.interfaces[f].r0, D.interfaces[f].r1} \subseteq Around(D, p)
  \* every shared point belongs to at most one contact or interface
  /\ \A a, b \in DOMAIN D.contacts : a # b => D.contacts[a].pts \cap D.contacts[b].pts = {}
  /\ \A a, b \in DOMAIN D.interfaces : a # b => D.interfaces[a].pts \cap D.interfaces[b].pts = {}
  /\ \A a \in DOMAIN D.contacts, b \in DOMAIN D.interfaces : D.contacts[a].pts \cap D.interfaces[b].pts = {}

DeviceSound == \A d \in DOMAIN devs : Tiles(devs[d]) /\ Boundary(devs[d])

MInit == meshes = [x \in {} |-> EmptyMesh] /\ devs = [x \in {} |-> 0]
=============================================================================
