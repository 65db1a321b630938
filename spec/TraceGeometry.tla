--------------------------- MODULE TraceGeometry ---------------------------
(* What the geometric models of the real code are, against their measures.    *)
EXTENDS Geometry, TraceBase

VARIABLE i
tvars == <<geovars, i>>

Facets(l, d) == IF d = 1 THEN UNION {{{n} : n \in All(f)} : f \in All(l)} ELSE {All(f) : f \in All(l)}
MeshOf(e) == [dim |-> e.dim, pts |-> e.pts, elems |-> e.elems, edges |-> e.edges, cfac |-> Facets(e.contact, e.dim), ifac |-> Facets(e.interface, e.dim),
              cnodes |-> e.cnodes, cnear |-> All(e.cnear), inear |-> All(e.inear)]
See(ok) == ok /\ UNCHANGED geovars

\* a list of elements to be shown by other programs: the same elements, all turned the same way in two and three dimensions
Turned(e) ==
  /\ Len(e.list) = Len(g.elems)
  /\ \A t \in DOMAIN g.elems : All(e.list[t]) = All(g.elems[t]) /\ Len(e.list[t]) = Len(g.elems[t])
  /\ g.dim = 2 => \A t \in DOMAIN e.list : Det2(X(e.list[t][1]), X(e.list[t][2]), X(e.list[t][3])) > 0
  /\ g.dim = 3 => Cardinality({Det3(X(e.list[t][1]), X(e.list[t][2]), X(e.list[t][3]), X(e.list[t][4])) > 0 : t \in DOMAIN e.list}) = 1

Step(e) ==
  CASE e.op = "reset" -> g' = None /\ ends' = <<>>
    [] e.op = "mesh" -> Mesh(MeshOf(e))
    [] e.op = "ends" -> Ends(e.ends)
    [] e.op = "lengths" -> See(LengthsHold(e))
    [] e.op = "volumes" -> See(VolumesHold(e) /\ Fills(e))
    [] e.op = "areas" -> See(AreaHolds(e.sa, g.ifac, g.inear) /\ AreaHolds(e.ca, g.cfac, g.cnear) /\ AtHolds(e.at))
    [] e.op = "average" -> See(AverageHolds(e))
    [] e.op = "field" -> LET K(t, k) == e.k[k] IN See(FieldHolds(e, K, TRUE))
    [] e.op = "efield" -> LET K(t, k) == e.k[t][CHOOSE j \in DOMAIN ends[t] : {ends[t][j][1], ends[t][j][2]} = {g.edges[k][1], g.edges[k][2]}] IN
                          See(FieldHolds(e, K, FALSE))
    [] e.op = "dfield" -> See(DFieldHolds(e))
    [] e.op = "slope" -> See(GradientHolds(e))
    [] e.op = "turned" -> See(Turned(e))
    [] OTHER -> FALSE

TraceInit == GeoInit /\ i = 1
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
