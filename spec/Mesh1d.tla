------------------------------- MODULE Mesh1d -------------------------------
(* One-dimensional meshes: what is described, when the description is        *)
(* accepted, and the devices made from it.  Positions and spacings are in    *)
(* units of which a mesh line uses multiples of Q; a point inside a graded   *)
(* section is known to within Tol units.                                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Q, Tol

VARIABLES meshes, devs

mvars == <<meshes, devs>>

NoTag == ""

EmptyMesh == [lines |-> <<>>, regs |-> <<>>, cons |-> <<>>, ifs |-> <<>>, fin |-> FALSE, grid |-> <<>>]

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Elems(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x

-----------------------------------------------------------------------------
(* The points of one section, after its first: a set of sequences, with more *)
(* than one member only where rounding decides.                              *)

RECURSIVE Even(_, _, _)
Even(x, xh, s) == IF x + s >= xh THEN <<xh>> ELSE <<x + s>> \o Even(x + s, xh, s)

\* the last point of a graded section, keeping the last spacing within sh
Close(x, xh, sh) ==
  LET t == xh - sh IN
  IF x < t - Tol THEN {<<t, xh>>}
  ELSE IF x <= t + Tol THEN {<<xh>>} \cup (IF x < t THEN {<<t, xh>>} ELSE {})
  ELSE {<<xh>>}

\* spacings and positions of a graded section are followed in sixteenths of a unit
RECURSIVE Graded(_, _, _, _, _, _)
\* the next spacing is s, and the spacings grow by p / q
Graded(x, xh, s, sh, p, q) ==
  LET nx == x + s IN
  (IF nx \div 16 >= xh - Tol THEN Close(x \div 16, xh, sh) ELSE {})
  \cup
  (IF nx \div 16 < xh THEN {<<nx \div 16>> \o y : y \in Graded(nx, xh, (s * p) \div q, sh, p, q)} ELSE {})

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Section(xl, xh, sl, sh) ==
  LET L == xh - xl IN
  IF sl = sh THEN {Even(xl, xh, sl)}
  ELSE IF sl + sh > L THEN {<<xh>>}
  ELSE LET a == (L - sl) \div Q
           b == (L - sh) \div Q
           g == Gcd(a, b)
       IN Graded(16 * xl, xh, 16 * sl, sh, a \div g, b \div g)

RECURSIVE GridsFrom(_, _)
GridsFrom(ls, i) ==
  IF i >= Len(ls) THEN {<<>>}
  ELSE {a \o b : a \in Section(ls[i].pos, ls[i + 1].pos, ls[i].ps, ls[i + 1].ns), b \in GridsFrom(ls, i + 1)}

Grids(ls) == {<<ls[1].pos>> \o y : y \in GridsFrom(ls, 1)}

Sorted(ls) == \* the lines by position, which are distinct
  [i \in 1..Len(ls) |-> CHOOSE l \in Elems(ls) : Cardinality({k \in Elems(ls) : k.pos < l.pos}) = i - 1]

-----------------------------------------------------------------------------
(* When a description can be finalized.                                      *)

Distinct(ls) == \A i, j \in DOMAIN ls : i # j => ls[i].pos # ls[j].pos
TagsOnce(ls) == \A i, j \in DOMAIN ls : (i # j /\ ls[i].tag # NoTag) => ls[i].tag # ls[j].tag
Tags(M) == {l.tag : l \in Elems(M.lines)} \ {NoTag}
At(M, t) == (CHOOSE l \in Elems(M.lines) : l.tag = t).pos
Least(M) == CHOOSE x \in {l.pos : l \in Elems(M.lines)} : \A l \in Elems(M.lines) : x <= l.pos
Most(M) == CHOOSE x \in {l.pos : l \in Elems(M.lines)} : \A l \in Elems(M.lines) : x >= l.pos
Lo(M, r) == IF At(M, r.t1) < At(M, r.t2) THEN At(M, r.t1) ELSE At(M, r.t2)
Hi(M, r) == IF At(M, r.t1) < At(M, r.t2) THEN At(M, r.t2) ELSE At(M, r.t1)

Tiled(M) == \* the regions follow one another from end to end
  /\ \A r \in Elems(M.regs) : At(M, r.t1) # At(M, r.t2)
  /\ \A i, j \in DOMAIN M.regs : i # j => Lo(M, M.regs[i]) # Lo(M, M.regs[j])
  /\ {Lo(M, r) : r \in Elems(M.regs)} \cup {Most(M)} = {Hi(M, r) : r \in Elems(M.regs)} \cup {Least(M)}
  /\ \A i, j \in DOMAIN M.regs : Lo(M, M.regs[i]) < Lo(M, M.regs[j]) => Hi(M, M.regs[i]) <= Lo(M, M.regs[j])

CanFinalize(M) ==
  /\ Len(M.lines) >= 2
  /\ Distinct(M.lines)
  /\ TagsOnce(M.lines)
  /\ Len(M.regs) >= 1
  /\ \A r \in Elems(M.regs) : r.t1 \in Tags(M) /\ r.t2 \in Tags(M)
  /\ Len(M.cons) = 2
  /\ \A c \in Elems(M.cons) : c.tag \in Tags(M)
  /\ {At(M, M.cons[1].tag), At(M, M.cons[2].tag)} = {Least(M), Most(M)}
  /\ \A f \in Elems(M.ifs) : f.tag \in Tags(M)
  /\ \A i, j \in DOMAIN M.ifs : i # j => M.ifs[i].name # M.ifs[j].name /\ M.ifs[i].tag # M.ifs[j].tag
  /\ Tiled(M)
  /\ {At(M, f.tag) : f \in Elems(M.ifs)} = {Hi(M, r) : r \in Elems(M.regs)} \ {Most(M)}

-----------------------------------------------------------------------------
(* The device a finalized mesh describes.                                    *)

NamesOnce(s) == \A i, j \in DOMAIN s : i # j => s[i].name # s[j].name
CanBuild(M) == NamesOnce(M.regs) /\ NamesOnce(M.cons)

Cut(g, lo, hi) == SelectSeq(g, LAMBDA x : lo <= x /\ x <= hi)

\* the region that ends (starts) at a position
Left(M, x) == CHOOSE r \in Elems(M.regs) : Hi(M, r) = x
Right(M, x) == CHOOSE r \in Elems(M.regs) : Lo(M, r) = x

Build(M) ==
  LET pts(r) == Cut(M.grid, Lo(M, r), Hi(M, r)) IN
  [regions |-> [n \in {r.name : r \in Elems(M.regs)} |->
       LET r == CHOOSE r \in Elems(M.regs) : r.name = n IN [mat |-> r.mat, pts |-> pts(r)]],
   contacts |-> [n \in {c.name : c \in Elems(M.cons)} |->
       LET c == CHOOSE c \in Elems(M.cons) : c.name = n
           x == At(M, c.tag)
           r == IF x = Least(M) THEN Right(M, x) ELSE Left(M, x)
       IN [region |-> r.name, mat |-> c.mat, node |-> IF x = Least(M) THEN 0 ELSE Len(pts(r)) - 1]],
   interfaces |-> [n \in {f.name : f \in Elems(M.ifs)} |->
       LET f == CHOOSE f \in Elems(M.ifs) : f.name = n
           x == At(M, f.tag)
       IN [r0 |-> Left(M, x).name, r1 |-> Right(M, x).name,
           n0 |-> Len(pts(Left(M, x))) - 1, n1 |-> 0]]]

-----------------------------------------------------------------------------
(* The commands.  ok tells whether the command was accepted.                 *)

Open(m) == m \in DOMAIN meshes /\ ~meshes[m].fin

Create(m, ok) ==
  /\ ok = (m \notin DOMAIN meshes)
  /\ meshes' = IF ok THEN Put(meshes, m, EmptyMesh) ELSE meshes
  /\ UNCHANGED devs

AddLine(m, l, ok) ==
  /\ ok = (Open(m) /\ l.ps > 0)
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].lines = Append(@, [l EXCEPT !.ns = IF l.ns <= 0 THEN l.ps ELSE l.ns])] ELSE meshes
  /\ UNCHANGED devs

AddRegion(m, r, ok) ==
  /\ ok = (Open(m) /\ r.name # "" /\ r.mat # "" /\ r.t1 # "" /\ r.t2 # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].regs = Append(@, r)] ELSE meshes
  /\ UNCHANGED devs

AddContact(m, c, ok) ==
  /\ ok = (Open(m) /\ c.name # "" /\ c.mat # "" /\ c.tag # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].cons = Append(@, c)] ELSE meshes
  /\ UNCHANGED devs

AddInterface(m, f, ok) ==
  /\ ok = (Open(m) /\ f.name # "" /\ f.tag # "")
  /\ meshes' = IF ok THEN [meshes EXCEPT ![m].ifs = Append(@, f)] ELSE meshes
  /\ UNCHANGED devs

\* a command for meshes of another kind changes nothing
Misfit(ok) == ~ok /\ UNCHANGED mvars

Finalize(m, ok) ==
  /\ ok = (Open(m) /\ CanFinalize(meshes[m]))
  /\ IF ok THEN \E g \in Grids(Sorted(meshes[m].lines)) : meshes' = [meshes EXCEPT ![m].fin = TRUE, ![m].grid = g]
           ELSE meshes' = meshes
  /\ UNCHANGED devs

CreateDevice(m, d, ok) ==
  /\ ok = (m \in DOMAIN meshes /\ meshes[m].fin /\ d \notin DOMAIN devs /\ CanBuild(meshes[m]))
  /\ devs' = IF ok THEN Put(devs, d, Build(meshes[m])) ELSE devs
  /\ UNCHANGED meshes

DeleteMesh(m, ok) ==
  /\ ok = (m \in DOMAIN meshes)
  /\ meshes' = IF ok THEN Drop(meshes, m) ELSE meshes
  /\ UNCHANGED devs

DeleteDevice(d, ok) ==
  /\ ok = (d \in DOMAIN devs)
  /\ devs' = IF ok THEN Drop(devs, d) ELSE devs
  /\ UNCHANGED meshes

-----------------------------------------------------------------------------
(* What must hold of every accepted mesh and of every device.                *)

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

\* the spacings asked for, both ways, where they fit
FitsSpacing(ls, g) ==
  \A i \in 1..(Len(ls) - 1) :
    LET a == ls[i] b == ls[i + 1]
        s == Cut(g, a.pos, b.pos)
        n == Len(s)
        L == b.pos - a.pos
        big == IF a.ps > b.ns THEN a.ps ELSE b.ns
    IN  a.ps + b.ns <= L =>
          /\ s[2] - s[1] <= a.ps + Tol
          /\ s[n] - s[n - 1] <= b.ns + Tol
          /\ \A k \in 1..(n - 1) : s[k + 1] - s[k] <= big + Tol
          /\ \A k \in 1..(n - 3) : \* and the spacings change by the ratio (L - ps) / (L - ns)
               (s[k + 2] - s[k + 1]) * ((L - b.ns) \div Q) <= ((s[k + 1] - s[k]) + Tol) * ((L - a.ps) \div Q)

GridSound ==
  \A m \in DOMAIN meshes : meshes[m].fin =>
    LET M == meshes[m] IN
    /\ Increasing(M.grid)
    /\ {l.pos : l \in Elems(M.lines)} \subseteq Elems(M.grid)
    /\ M.grid[1] = Least(M) /\ M.grid[Len(M.grid)] = Most(M)
    /\ FitsSpacing(Sorted(M.lines), M.grid)

DeviceSound ==
  \A d \in DOMAIN devs :
    LET D == devs[d] IN
    /\ \A n \in DOMAIN D.regions : Len(D.regions[n].pts) >= 2 /\ Increasing(D.regions[n].pts)
    \* the regions overlap only in the points where an interface joins them
    /\ \A a, b \in DOMAIN D.regions : a # b =>
         \A x \in Elems(D.regions[a].pts) \cap Elems(D.regions[b].pts) :
            \E i \in DOMAIN D.interfaces :
              LET f == D.interfaces[i] IN
              /\ {f.r0, f.r1} = {a, b}
              /\ D.regions[f.r0].pts[f.n0 + 1] = x /\ D.regions[f.r1].pts[f.n1 + 1] = x
    /\ Cardinality(DOMAIN D.interfaces) = Cardinality(DOMAIN D.regions) - 1
    /\ Cardinality(DOMAIN D.contacts) = 2
    /\ \A c \in DOMAIN D.contacts : \A e \in DOMAIN D.contacts : c # e =>
         D.regions[D.contacts[c].region].pts[D.contacts[c].node + 1] # D.regions[D.contacts[e].region].pts[D.contacts[e].node + 1]

MInit == meshes = [x \in {} |-> EmptyMesh] /\ devs = [x \in {} |-> 0]
=============================================================================
