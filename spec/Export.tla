-------------------------------- MODULE Export --------------------------------
(* What a file written for visualization holds of a device: every region with its points and    *)
(* elements, every node model, the mean of every edge model over the edges of a point - or, for *)
(* edge models shown as vectors, what they are in each direction - and the mean of every        *)
(* element model over the edges of an element.  A filter says which models are wanted, and the  *)
(* display type of a model how it is shown, if it is shown at all.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES shown,      \* device -> <<region, kind, name>> -> "scalar", "vector" or "nodisplay" where told
          seen        \* device -> what the commands tell of it

exvars == <<shown, seen>>

None == [x \in {} |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

ExInit == shown = None /\ seen = None

\* a model which exists without having been asked to be shown in another way is a scalar
Show(d, r, kind, n) == IF d \in DOMAIN shown /\ <<r, kind, n>> \in DOMAIN shown[d] THEN shown[d][<<r, kind, n>>] ELSE "scalar"

\* a node or an element has no direction
CanShow(kind, show) == show # "vector" \/ kind = "edge"

Device(d, ok) == /\ ok
                 /\ shown' = Put(shown, d, None)
                 /\ UNCHANGED seen

\* a model whose display type is unknown is refused
Model(d, r, kind, n, show, ok) ==
  /\ ok = CanShow(kind, show)
  /\ shown' = IF ok THEN [shown EXCEPT ![d] = Put(@, <<r, kind, n>>, IF show = "" THEN "scalar" ELSE show)] ELSE shown
  /\ UNCHANGED seen

See(d, what) == seen' = Put(seen, d, what) /\ UNCHANGED shown

-------------------------------------------------------------------------------
\* numbers
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumUp(_, _)
SumUp(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumUp(s, k - 1)
Total(s) == SumUp(s, Len(s))

\* the edges of each point
AtNode(reg, p) == SelectSeq([e \in 1..Len(reg.edges) |-> e], LAMBDA e : reg.edges[e][1] = p - 1 \/ reg.edges[e][2] = p - 1)

\* how near a value of a file has to be; tecplot files hold six digits
Slack(type, x) == IF type = "tecplot" THEN 1 + Abs(x) \div 100000 ELSE 0

NodeRight(type, v, got) == Len(got) = Len(v) /\ \A p \in 1..Len(v) : Abs(got[p] - v[p]) <= Slack(type, v[p])

\* the mean over the edges of the point
EdgeRight(type, reg, v, got) ==
  /\ Len(got) = Len(reg.pts)
  /\ \A p \in 1..Len(got) : LET es == AtNode(reg, p)  n == Len(es)  s == Total([k \in 1..n |-> v[es[k]]]) IN
       n > 0 => Abs(got[p] * n - s) <= n * (1 + Slack(type, got[p]))

\* for each direction, the mean of the edge's part in this direction, weighted with how much the edge points there
Direct == 1024
VecRight(type, reg, v, got) ==
  /\ Len(got) = Len(reg.pts)
  /\ \A p \in 1..Len(got) : \A a \in 1..3 :
       IF a > Len(reg.unit) THEN Abs(got[p][a]) <= Slack(type, 0)
       ELSE LET es == AtNode(reg, p)
                w == [k \in 1..Len(es) |-> reg.unit[a][es[k]]]
                ws == Total([k \in 1..Len(es) |-> Abs(w[k])])
                vs == [k \in 1..Len(es) |-> v[es[k]] \div 16]                        \* in 256ths
                top == Total([k \in 1..Len(es) |-> ((vs[k] * w[k]) \div Direct) * Abs(w[k])])      \* in 256ths, 1024ths
                lost == Total([k \in 1..Len(es) |-> Abs(vs[k]) + Direct])
            IN (ws > Len(es) /\ \A k \in 1..Len(es) : Abs(v[es[k]]) <= 40 * 4096) => Abs((got[p][a] \div 16) * ws - top) <= 2 * lost + 2 * ws * (1 + Slack(type, got[p][a]))

\* the mean over the edges of the element
ElementRight(type, reg, v, got) ==
  LET m == IF Len(got) = 0 THEN 1 ELSE Len(v) \div Len(got) IN
  /\ Len(got) = Len(reg.elems)
  /\ Len(v) = m * Len(got)
  /\ \A t \in 1..Len(got) : Abs(got[t] * m - Total([k \in 1..m |-> v[m * (t - 1) + k]])) <= m * (1 + Slack(type, got[t]))

-------------------------------------------------------------------------------
Names(s) == {s[k].name : k \in 1..Len(s)}
Of(s, n) == s[CHOOSE k \in 1..Len(s) : s[k].name = n].v
Once(s) == Cardinality(Names(s)) = Len(s)

\* how a model is shown in a file of one region, or of all regions together: as the first which has it wants it,
\* or, for element models, if any wants it
RegionsWith(dev, kind, n) == {k \in 1..Len(dev.regions) : n \in Names(dev.regions[k][kind])}
ModelsOf(dev, kind) == UNION {Names(dev.regions[k][kind]) : k \in 1..Len(dev.regions)}
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
ShowIn(type, d, k, kind, n) ==
  IF type = "vtk" THEN Show(d, seen[d].regions[k].name, kind, n)
  ELSE LET ks == RegionsWith(seen[d], kind, n) IN
       IF kind = "element" THEN (IF \E j \in ks : Show(d, seen[d].regions[j].name, kind, n) = "scalar" THEN "scalar" ELSE "nodisplay")
       ELSE Show(d, seen[d].regions[Least(ks)].name, kind, n)

\* the models which a file holds for the k-th region
Held(type, d, k, kind, show, keep) ==
  LET dev == seen[d]
      names == IF type = "vtk" THEN Names(dev.regions[k][kind]) ELSE ModelsOf(dev, kind)
      plain == IF type = "tecplot" /\ kind = "node" THEN names \ {"x", "y", "z"} ELSE names
  IN {n \in plain \cap keep : ShowIn(type, d, k, kind, n) = show}

\* a model which another region has is zero in this one
Zero(s) == \A k \in 1..Len(s) : s[k] = 0
ZeroV(s) == \A k \in 1..Len(s) : \A a \in 1..3 : s[k][a] = 0

CellType(dim) == CASE dim = 1 -> 3 [] dim = 2 -> 5 [] dim = 3 -> 10

\* the k-th part of the file is the k-th region
Part(type, d, k, keep, m) ==
  LET dev == seen[d]
      reg == dev.regions[k]
      nodes == Held(type, d, k, "node", "scalar", keep)
      edges == Held(type, d, k, "edge", "scalar", keep)
      vecs == Held(type, d, k, "edge", "vector", keep)
      elems == Held(type, d, k, "element", "scalar", keep)
      w == IF type = "vtk" THEN 3 ELSE dev.dim
  IN /\ m.name = IF type = "vtk" THEN "" ELSE reg.name
     /\ m.count = <<Len(reg.pts), Len(reg.elems)>>
     /\ Len(m.pts) = Len(reg.pts)
     /\ \A p \in 1..Len(m.pts) : Len(m.pts[p]) = w /\ \A a \in 1..w : Abs(m.pts[p][a] - reg.pts[p][a]) <= Slack(type, reg.pts[p][a])
     /\ Len(m.elems) = Len(reg.elems)
     /\ \A t \in 1..Len(m.elems) : {m.elems[t][j] : j \in 1..Len(m.elems[t])} = {reg.elems[t][j] : j \in 1..Len(reg.elems[t])}
                                   /\ Len(m.elems[t]) = dev.dim + 1
                                   /\ m.types[t] = CellType(dev.dim)
     /\ Once(m.scalars) /\ Names(m.scalars) = nodes \cup edges
     /\ Once(m.vectors) /\ Names(m.vectors) = vecs
     /\ Once(m.cells) /\ Names(m.cells) = elems
     /\ \A n \in nodes : IF n \in Names(reg.node) THEN NodeRight(type, Of(reg.node, n), Of(m.scalars, n)) ELSE Zero(Of(m.scalars, n))
     /\ \A n \in edges : IF n \in Names(reg.edge) THEN EdgeRight(type, reg, Of(reg.edge, n), Of(m.scalars, n)) ELSE Zero(Of(m.scalars, n))
     /\ \A n \in vecs : IF n \in Names(reg.edge) THEN VecRight(type, reg, Of(reg.edge, n), Of(m.vectors, n)) ELSE ZeroV(Of(m.vectors, n))
     /\ \A n \in elems : IF n \in Names(reg.element) THEN ElementRight(type, reg, Of(reg.element, n), Of(m.cells, n)) ELSE Zero(Of(m.cells, n))

\* a file can be written of one device, with a filter which is a function to boolean
CanWrite(d, good, can) == good /\ can /\ IF d = "" THEN Cardinality(DOMAIN shown) = 1 ELSE d \in DOMAIN shown

Write(e) ==
  LET d == IF e.d = "" /\ Cardinality(DOMAIN shown) = 1 THEN CHOOSE x \in DOMAIN shown : TRUE ELSE e.d IN
  /\ e.ok = CanWrite(e.d, e.good, e.can)
  /\ e.others
  /\ ~e.ok => e.kept
  /\ e.ok => /\ e.fine
             /\ Len(e.made) = Len(seen[d].regions)
             /\ \A k \in 1..Len(e.made) : Part(e.type, d, k, {e.keep[j] : j \in 1..Len(e.keep)}, e.made[k])
  /\ UNCHANGED exvars
===============================================================================
