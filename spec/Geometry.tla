------------------------------ MODULE Geometry ------------------------------
(* The measures of a mesh of segments, triangles or tetrahedra with whole    *)
(* coordinates: lengths, couples, volumes, areas, averages and fields.        *)
(*                                                                            *)
(* Measures that are fractions are told modulo the prime P; a couple is told  *)
(* times the length of its edge, which makes it a fraction:                   *)
(* an edge of length L in a triangle sees the third corner under an angle     *)
(* whose cotangent is dot/cross, and half of L times that is its distance     *)
(* from the centre of the circle through the corners.                         *)
(* Lengths, which are roots, are told in fixed point.                         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES g,      \* the region: dim, pts, elems, edges, cfac, ifac (facets on contacts, interfaces), cnodes (points of each contact),
                \* cnear, inear (points at the place of a contact or interface of any region)
          ends    \* element -> its edges in order, each with both ends and the other corners
geovars == <<g, ends>>

P == 46337
R(x) == x % P
Mul(a, b) == (R(a) * R(b)) % P
RECURSIVE PowR(_, _)
PowR(a, n) == IF n = 0 THEN 1 ELSE LET h == PowR(Mul(a, a), n \div 2) IN IF n % 2 = 1 THEN Mul(a, h) ELSE h
Inv(a) == PowR(R(a), P - 2)
Abs(x) == IF x < 0 THEN -x ELSE x

Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Plus(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Times(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Norm(u) == Dot(u, u)

RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeq(s, n - 1)
Sum(s) == SumSeq(s, Len(s))
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumSet(f, S \ {x})

\* the whole part of the root of n < 2^31
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Sqrt(n) == Root(n, 0, 46340)
Whole(n) == Sqrt(n) * Sqrt(n) = n

All(s) == {s[k] : k \in DOMAIN s}

-----------------------------------------------------------------------------
\* measures of one element, its corners given as places
\* twice the area of a triangle in the plane, six times the volume of a tetrahedron
Det2(a, b, c) == Cross(Minus(b, a), Minus(c, a))[3]
Det3(a, b, c, d) == Dot(Minus(b, a), Cross(Minus(c, a), Minus(d, a)))

\* the edge a b of the triangle a b c: L times its couple is  num / den
Couple2(a, b, c) == [num |-> Norm(Minus(a, b)) * Abs(Dot(Minus(a, c), Minus(b, c))), den |-> 2 * Abs(Det2(a, b, c))]
\* the centre lies on the side of the edge where the triangle is
Inside2(a, b, c) == Dot(Minus(a, c), Minus(b, c)) >= 0

\* the part of the couple of the edge a b of the tetrahedron a b c d that lies towards the face a b c
Height(a, b, c, d) ==
  LET u == Minus(b, a) v == Minus(c, a) w == Minus(d, a) IN
  Dot(Plus(Plus(Times(Norm(u), Cross(v, w)), Times(Norm(v), Cross(w, u))), Times(Norm(w), Cross(u, v))), Cross(u, v))
Part3(a, b, c, d) ==
  [num |-> Mul(Mul(Norm(Minus(a, b)), Abs(Dot(Minus(a, c), Minus(b, c)))), Abs(Height(a, b, c, d))),
   den |-> Mul(8 * Norm(Cross(Minus(b, a), Minus(c, a))), Abs(Det3(a, b, c, d)))]
Inside3(a, b, c, d) == Inside2(a, b, c) /\ Height(a, b, c, d) >= 0

IsCouple2(v, a, b, c) == LET q == Couple2(a, b, c) IN Mul(v, q.den) = R(q.num)
IsCouple3(v, a, b, c, d) ==
  LET p == Part3(a, b, c, d) q == Part3(a, b, d, c) IN
  Mul(v, Mul(p.den, q.den)) = R(Mul(p.num, q.den) + Mul(q.num, p.den))

\* a vector whose product with each of the differences is as given
Solve2(d, k) == LET n == Inv(d[1][1] * d[2][2] - d[1][2] * d[2][1]) IN
  <<Mul(n, k[1] * d[2][2] - k[2] * d[1][2]), Mul(n, k[2] * d[1][1] - k[1] * d[2][1]), 0>>
Solve3(d, k) == LET n == Inv(Dot(d[1], Cross(d[2], d[3])))
                    s == Plus(Plus(Times(k[1], Cross(d[2], d[3])), Times(k[2], Cross(d[3], d[1]))), Times(k[3], Cross(d[1], d[2]))) IN
  <<Mul(n, s[1]), Mul(n, s[2]), Mul(n, s[3])>>

-----------------------------------------------------------------------------
\* the mesh
X(n) == g.pts[n + 1]
Nodes == 0..Len(g.pts) - 1
Pairs(S) == {p \in SUBSET S : Cardinality(p) = 2}
MeshSound(m) ==
  LET E == {{m.edges[k][1], m.edges[k][2]} : k \in DOMAIN m.edges} IN
  /\ Len(m.edges) = Cardinality(E)
  /\ E = UNION {Pairs(All(m.elems[t])) : t \in DOMAIN m.elems}

EndsSound(m, x) ==
  /\ DOMAIN x = DOMAIN m.elems
  /\ \A t \in DOMAIN x :
       LET T == All(m.elems[t]) IN
       /\ Len(x[t]) = Cardinality(Pairs(T)) /\ {{y[1], y[2]} : y \in All(x[t])} = Pairs(T)
       /\ \A y \in All(x[t]) : /\ \E e \in All(m.edges) : e = <<y[1], y[2]>>
                               /\ All(y) = T /\ Len(y) = Cardinality(T)

EdgeAt(a, b) == CHOOSE k \in DOMAIN g.edges : {g.edges[k][1], g.edges[k][2]} = {a, b}
EndsL == g.edges
D(k) == Minus(X(g.edges[k][2]), X(g.edges[k][1]))
L2(k) == Norm(D(k))

\* element edges lying on the edge k
On(k) == {<<t, j>> : t \in {t \in DOMAIN ends : {g.edges[k][1], g.edges[k][2]} \subseteq All(g.elems[t])}, j \in 1..6}
         \cap UNION {{<<t, j>> : j \in {j \in DOMAIN ends[t] : {ends[t][j][1], ends[t][j][2]} = {g.edges[k][1], g.edges[k][2]}}} : t \in DOMAIN ends}
Near(a, b, n) == Abs(a - b) <= n

\* lengths and directions
LengthsHold(e) ==
  /\ Len(e.len2) = Len(g.edges) /\ Len(e.unit) = Len(g.edges) /\ Len(e.inv) = Len(g.edges)
  /\ \A k \in DOMAIN g.edges : /\ e.len2[k] = L2(k) /\ e.inv[k] = 1 /\ e.unit[k] = D(k)
                               /\ e.index[k] = k - 1

\* couples and volumes; c the couples times length, v the volumes times twice the dimension, of element edges; the f-s in fixed point
Fix == 100000
VolumesHold(e) ==
  /\ Len(e.cf) = Len(g.edges) /\ Len(e.vf) = Len(g.edges) /\ Len(e.nv) = Len(g.pts)
  /\ IF g.dim = 1
     THEN \A k \in DOMAIN g.edges : e.cf[k] = Fix /\ Near(2 * e.vf[k], Sqrt(L2(k)) * Fix, 1)
     ELSE /\ \A t \in DOMAIN ends : \A j \in DOMAIN ends[t] :
               LET y == ends[t][j] IN
               /\ IF g.dim = 2 THEN IsCouple2(e.c[t][j], X(y[1]), X(y[2]), X(y[3]))
                  ELSE IsCouple3(e.c[t][j], X(y[1]), X(y[2]), X(y[3]), X(y[4]))
               /\ e.v[t][j] = e.c[t][j]
          /\ \A k \in DOMAIN g.edges :
               LET S == On(k) F(x) == e.ecf[x[1]][x[2]] G(x) == e.evf[x[1]][x[2]] IN
               /\ Near(e.cf[k], SumSet(F, S), Cardinality(S) + 1)
               /\ Near(e.vf[k], SumSet(G, S), Cardinality(S) + 1)
  /\ \A n \in Nodes : LET S == {k \in DOMAIN g.edges : n \in {g.edges[k][1], g.edges[k][2]}} F(k) == e.vf[k] IN
       Near(e.nv[n + 1], SumSet(F, S), Cardinality(S) + 1)

\* every element holds its centre: then the volumes of the points fill the region
Good == \A t \in DOMAIN g.elems :
  LET T == [k \in DOMAIN g.elems[t] |-> X(g.elems[t][k])] IN
  IF g.dim = 1 THEN TRUE
  ELSE IF g.dim = 2 THEN \A a, b, c \in 1..3 : Cardinality({a, b, c}) = 3 => Inside2(T[a], T[b], T[c])
  ELSE \A a, b, c, d \in 1..4 : Cardinality({a, b, c, d}) = 4 => Inside3(T[a], T[b], T[c], T[d])
Measure ==
  LET F(t) == LET T == [k \in DOMAIN g.elems[t] |-> X(g.elems[t][k])] IN
        IF g.dim = 1 THEN 6 * Sqrt(Norm(Minus(T[1], T[2])))
        ELSE IF g.dim = 2 THEN 3 * Abs(Det2(T[1], T[2], T[3])) ELSE Abs(Det3(T[1], T[2], T[3], T[4]))
  IN SumSet(F, DOMAIN g.elems)      \* six times the measure
Fills(e) == Good /\ Measure <= 20000 => Near(Sum(e.nv), (Measure \div 6) * Fix + ((Measure % 6) * Fix) \div 6, Len(e.nv) + 1)

\* the part of a facet that belongs to its corner n, in thousandths
AreaOf(f, n) ==
  IF g.dim = 1 THEN 1000
  ELSE IF g.dim = 2 THEN LET a == CHOOSE a \in f : a # n IN Sqrt(Norm(Minus(X(a), X(n))) * 1000000) \div 2
  ELSE LET F(a) == LET b == CHOOSE b \in f : b \notin {a, n} IN
             (Norm(Minus(X(n), X(a))) * Abs(Dot(Minus(X(n), X(b)), Minus(X(a), X(b)))) * 125 * 1000)
             \div Sqrt(1000000 * Norm(Cross(Minus(X(a), X(n)), Minus(X(b), X(n)))))
       IN SumSet(F, f \ {n})
AreaHolds(s, fac, near) ==
  /\ Len(s) = Len(g.pts)
  /\ \A n \in Nodes : LET S == {f \in fac : n \in f} F(f) == AreaOf(f, n) IN
       IF g.dim = 1 THEN s[n + 1] \in IF S # {} THEN {1000} ELSE IF n \in near THEN {0, 1000} ELSE {0}
       ELSE LET a == SumSet(F, S) IN Near(s[n + 1], a, IF S = {} THEN 0 ELSE 3 * Cardinality(S) + a \div 1000)

AtHolds(s) == \A n \in Nodes : s[n + 1] = Cardinality({c \in DOMAIN g.cnodes : n \in All(g.cnodes[c])})

-----------------------------------------------------------------------------
\* values on edges from values at points
AverageHolds(e) ==
  LET S(n) == IF e.sq THEN e.t[n + 1] * e.t[n + 1] ELSE e.t[n + 1]
      dS(n) == IF e.deriv = "chain" THEN 2 * e.t[n + 1] ELSE 1
  IN
  \A k \in DOMAIN g.edges :
    LET a == g.edges[k][1] b == g.edges[k][2] t0 == e.t[a + 1] t1 == e.t[b + 1] s == IF e.type = "gradient" THEN 1 ELSE -1 IN
    IF e.deriv = "no"
    THEN CASE e.type = "ends" -> e.got[k] = R(S(a)) /\ e.got1[k] = R(S(b))
           [] e.type = "arithmetic" -> Mul(2, e.got[k]) = R(S(a) + S(b))
           [] e.type = "geometric" -> e.got[k] = R(t0 * t1)
           [] OTHER -> e.got[k] = R(s * (S(b) - S(a)))
    ELSE CASE e.type = "ends" -> e.got[k] = R(dS(a)) /\ e.got1[k] = R(dS(b))
           [] e.type = "arithmetic" -> Mul(2, e.got[k]) = R(dS(a)) /\ Mul(2, e.got1[k]) = R(dS(b))
           [] e.type = "geometric" -> IF e.deriv = "chain" THEN e.got[k] = R(t1) /\ e.got1[k] = R(t0)
                                      ELSE Mul(2 * t0, e.got[k]) = R(t1) /\ Mul(2 * t1, e.got1[k]) = R(t0)
           [] OTHER -> e.got[k] = R(-s * dS(a)) /\ e.got1[k] = R(s * dS(b))

\* the vector at the corner p of the element t for data K of its edges
Corner(t, p, K(_, _)) ==
  LET q == CHOOSE q \in [1..g.dim -> All(g.elems[t]) \ {p}] : Cardinality(All(q)) = g.dim
      e == [j \in 1..g.dim |-> EdgeAt(p, q[j])]
      d == [j \in 1..g.dim |-> D(e[j])]
      k == [j \in 1..g.dim |-> K(t, e[j])]
  IN IF g.dim = 2 THEN Solve2(d, k) ELSE Solve3(d, k)
Same(u, v) == \A c \in 1..g.dim : u[c] = R(v[c])
\* on the edge y of the element the corners' vectors are averaged; in the plane with the couples of the neighbouring edges
Averages(u, y, V0, V1) ==
  IF g.dim = 3 THEN \A c \in 1..3 : Mul(2, u[c]) = R(V0[c] + V1[c])
  ELSE LET ca == <<Norm(Minus(X(y[1]), X(y[3]))), Abs(Dot(Minus(X(y[1]), X(y[2])), Minus(X(y[3]), X(y[2]))))>>
           cb == <<Norm(Minus(X(y[2]), X(y[3]))), Abs(Dot(Minus(X(y[2]), X(y[1])), Minus(X(y[3]), X(y[1]))))>>
       IN IF Same(V0, V1) THEN Same(u, V0)
          ELSE IF Whole(ca[1]) /\ Whole(cb[1])
               THEN LET w0 == Sqrt(ca[1]) * ca[2] w1 == Sqrt(cb[1]) * cb[2] IN
                    \A c \in 1..2 : Mul(u[c], w0 + w1) = R(Mul(V0[c], w0) + Mul(V1[c], w1))
               ELSE TRUE
FieldHolds(e, K(_, _), pairs) ==
  \A t \in DOMAIN ends : \A j \in DOMAIN ends[t] :
    LET y == ends[t][j] V0 == Corner(t, y[1], K) V1 == Corner(t, y[2], K) IN
    /\ pairs => Same(e.v0[t][j], V0) /\ Same(e.v1[t][j], V1)
    /\ Averages(e.v[t][j], y, V0, V1)

\* derivatives with respect to the value at each corner, in the order of the corners of the element edge
DFieldHolds(e) ==
  \A t \in DOMAIN ends : \A j \in DOMAIN ends[t] : \A q \in DOMAIN ends[t][j] :
    LET y == ends[t][j]
        K(a, k) == IF g.edges[k][1] = y[q] THEN e.k0[k] ELSE IF g.edges[k][2] = y[q] THEN e.k1[k] ELSE 0
        V0 == Corner(t, y[1], K) V1 == Corner(t, y[2], K) IN
    /\ Same(e.v0[q][t][j], V0) /\ Same(e.v1[q][t][j], V1)
    /\ Averages(e.v[q][t][j], y, V0, V1)

\* the gradient at a point: the mean over its elements
SlopeOf(t, s) ==
  LET T == g.elems[t] d == [j \in 1..g.dim |-> Minus(X(T[j + 1]), X(T[1]))] k == [j \in 1..g.dim |-> s[T[j + 1] + 1] - s[T[1] + 1]] IN
  IF g.dim = 1 THEN [num |-> <<k[1], 0, 0>>, den |-> d[1][1]]
  ELSE IF g.dim = 2 THEN [num |-> <<k[1] * d[2][2] - k[2] * d[1][2], k[2] * d[1][1] - k[1] * d[2][1], 0>>, den |-> d[1][1] * d[2][2] - d[1][2] * d[2][1]]
  ELSE [num |-> Plus(Plus(Times(k[1], Cross(d[2], d[3])), Times(k[2], Cross(d[3], d[1]))), Times(k[3], Cross(d[1], d[2]))), den |-> Dot(d[1], Cross(d[2], d[3]))]
\* in ten thousandths
Slope(t, s) == LET q == SlopeOf(t, s) IN [c \in 1..3 |-> IF q.den > 0 THEN (10000 * q.num[c]) \div q.den ELSE (-10000 * q.num[c]) \div (-q.den)]
GradientHolds(e) ==
  LET V == [t \in DOMAIN g.elems |-> Slope(t, e.s)] IN
  \A n \in Nodes :
    LET S == {t \in DOMAIN g.elems : n \in All(g.elems[t]) /\ (e.avoid => \A m \in All(g.elems[t]) : e.s[m + 1] # 0)} IN
    \A c \in 1..g.dim : LET F(t) == V[t][c] IN
      IF S = {} THEN e.got[n + 1][c] = 0 ELSE Near(Cardinality(S) * e.got[n + 1][c], SumSet(F, S), 2 * Cardinality(S))

-----------------------------------------------------------------------------
None == [dim |-> 0, pts |-> <<>>, elems |-> <<>>, edges |-> <<>>, cfac |-> {}, ifac |-> {}, cnodes |-> <<>>, cnear |-> {}, inear |-> {}]
GeoInit == g = None /\ ends = <<>>
Mesh(m) == MeshSound(m) /\ g' = m /\ ends' = <<>>
Ends(x) == EndsSound(g, x) /\ ends' = x /\ UNCHANGED g
=============================================================================
