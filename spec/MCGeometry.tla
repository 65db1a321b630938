----------------------------- MODULE MCGeometry -----------------------------
(* Every small triangle or tetrahedron: the parts of its edges fill it when  *)
(* it holds its centre, a field of one vector is given back at every corner,  *)
(* and the facets of the boundary are shared out whole.                       *)
EXTENDS Geometry

CONSTANTS Dim, Max

VARIABLES pts, phase, sum, good
vars == <<geovars, pts, phase, sum, good>>

Place == IF Dim = 2 THEN {<<x, y, 0>> : x, y \in 0..Max} ELSE {<<x, y, z>> : x, y, z \in 0..Max}

Corners == Dim + 1
Six(t) == IF Dim = 2 THEN 3 * Abs(Det2(t[1], t[2], t[3])) ELSE Abs(Det3(t[1], t[2], t[3], t[4]))
Volume(t) == IF Dim = 2 THEN Det2(t[1], t[2], t[3]) ELSE Det3(t[1], t[2], t[3], t[4])
Holds(t) == \A q \in [1..Corners -> 1..Corners] : Cardinality(All(q)) = Corners =>
  IF Dim = 2 THEN Inside2(t[q[1]], t[q[2]], t[q[3]]) ELSE Inside3(t[q[1]], t[q[2]], t[q[3]], t[q[4]])

\* the couple times the length of the edge between the corners a and b
CoupleL(t, a, b) ==
  IF Dim = 2 THEN LET c == CHOOSE c \in 1..3 : c \notin {a, b} q == Couple2(t[a], t[b], t[c]) IN Mul(q.num, Inv(q.den))
  ELSE LET c == CHOOSE c \in 1..4 : c \notin {a, b} d == CHOOSE d \in 1..4 : d \notin {a, b, c}
           p == Part3(t[a], t[b], t[c], t[d]) q == Part3(t[a], t[b], t[d], t[c]) IN
       R(Mul(p.num, Inv(p.den)) + Mul(q.num, Inv(q.den)))

Pick == /\ phase = "pick" /\ Len(pts) < Corners
        /\ \E x \in Place : /\ pts = <<>> => x = <<0, 0, 0>>
                            /\ pts' = Append(pts, x)
        /\ UNCHANGED <<geovars, phase, sum, good>>
Shape == /\ phase = "pick" /\ Len(pts) = Corners /\ Volume(pts) # 0
         /\ g' = [None EXCEPT !.dim = Dim, !.pts = pts, !.elems = << [k \in 1..Corners |-> k - 1] >>,
                              !.edges = IF Dim = 2 THEN <<<<0, 1>>, <<2, 0>>, <<1, 2>>>>
                                        ELSE <<<<0, 1>>, <<2, 0>>, <<1, 2>>, <<0, 3>>, <<3, 1>>, <<2, 3>>>>]
         /\ good' = Holds(pts) /\ phase' = "measure" /\ UNCHANGED <<ends, pts, sum>>
\* each edge gives a part to both of its ends
Count == /\ phase = "measure"
         /\ sum' = R(SumSet(LAMBDA p : LET a == CHOOSE a \in p : TRUE b == CHOOSE b \in p \ {a} : TRUE IN
                                       CoupleL(pts, a, b), Pairs(1..Corners)))
         /\ phase' = "done" /\ UNCHANGED <<geovars, pts, good>>
Init == GeoInit /\ pts = <<>> /\ phase = "pick" /\ sum = 0 /\ good = FALSE
Next == Pick \/ Shape \/ Count
Spec == Init /\ [][Next]_vars

\* twice the sum of c / (2 dim) over the edges is the measure
Filled == phase = "done" /\ good => Mul(sum, 6) = Mul(Six(pts), Dim)
Edges == phase = "done" => MeshSound(g)
F == <<3, -2, 5>>
Constant == phase = "done" =>
  LET K(t, k) == LET d == D(k) IN F[1] * d[1] + F[2] * d[2] + (IF Dim = 3 THEN F[3] * d[3] ELSE 0) IN
  \A n \in 0..Dim : LET v == Corner(1, n, K) IN \A c \in 1..Dim : v[c] = R(F[c])
Slopes == phase = "done" =>
  LET s == [n \in 1..Corners |-> F[1] * pts[n][1] + F[2] * pts[n][2] + F[3] * pts[n][3] + 7]
      v == Slope(1, s) IN \A c \in 1..Dim : v[c] = 10000 * F[c]
\* refuted: a triangle that does not hold its centre is not filled
AlwaysFilled == phase = "done" => Mul(sum, 6) = Mul(Six(pts), Dim)
\* refuted: there is something to count
NeverGood == ~(phase = "done" /\ good)
=============================================================================
