------------------------------- MODULE MCExport -------------------------------
(* Bounded instance of Export: the writer which follows it tells everything wanted once, and    *)
(* nothing else.  Devices have two regions with a point each; models come and change how they    *)
(* are shown.                                                                                    *)
EXTENDS Export

CONSTANTS Types, MaxSteps, Nodes, Edges

VARIABLES step, file         \* file: what the last file held, per region
vars == <<shown, seen, step, file>>

Regions == <<"a", "b">>
Empty == [k \in 1..2 |-> [name |-> Regions[k], node |-> <<>>, edge |-> <<>>, element |-> <<>>]]
Add(s, n) == IF n \in Names(s) THEN s ELSE Append(s, [name |-> n, v |-> <<>>])

Init == ExInit /\ step = 0 /\ file = <<>>
Tick == step < MaxSteps /\ step' = step + 1

DoDevice == /\ "d" \notin DOMAIN shown /\ Tick /\ file' = <<>>
            /\ shown' = Put(shown, "d", None)
            /\ seen' = Put(seen, "d", [dim |-> 2, regions |-> Empty])
DoModel == \E k \in 1..2, kind \in {"node", "edge", "element"}, show \in {"scalar", "vector", "nodisplay"} :
             \E n \in (CASE kind = "node" -> Nodes [] kind = "edge" -> Edges [] kind = "element" -> {"t"}) :
             /\ "d" \in DOMAIN shown /\ CanShow(kind, show) /\ Tick
             /\ shown' = [shown EXCEPT !["d"] = Put(@, <<Regions[k], kind, n>>, show)]
             /\ seen' = [seen EXCEPT !["d"].regions[k][kind] = Add(@, n)]
             /\ UNCHANGED file
DoRefuse == \E k \in 1..2 : "d" \in DOMAIN shown /\ Model("d", Regions[k], "node", "n", "vector", FALSE) /\ Tick /\ UNCHANGED file
DoWrite == \E type \in Types, keep \in SUBSET (Nodes \cup Edges \cup {"t"}) :
             /\ "d" \in DOMAIN shown /\ Tick
             /\ file' = [k \in 1..2 |-> [type |-> type, keep |-> keep,
                          scalars |-> Held(type, "d", k, "node", "scalar", keep) \cup Held(type, "d", k, "edge", "scalar", keep),
                          vectors |-> Held(type, "d", k, "edge", "vector", keep),
                          cells |-> Held(type, "d", k, "element", "scalar", keep)]]
             /\ UNCHANGED exvars

Next == DoDevice \/ DoModel \/ DoRefuse \/ DoWrite
Spec == Init /\ [][Next]_vars

TypeOK == DOMAIN shown \subseteq {"d"} /\ DOMAIN seen = DOMAIN shown
\* nothing which is not wanted
Wanted == \A k \in 1..Len(file) : file[k].scalars \cup file[k].vectors \cup file[k].cells \subseteq file[k].keep
\* a model is told once
Single == \A k \in 1..Len(file) : file[k].scalars \cap file[k].vectors = {}
\* every wanted model which some region wants to be shown, and which the first region having it does not hide, is told
Told == [][file' # file /\ file' # <<>> =>
            \A k \in 1..2, kind \in {"node", "edge"} : \A n \in Names(seen["d"].regions[k][kind]) :
               (n \in file'[k].keep /\ \A j \in 1..2 : Show("d", Regions[j], kind, n) # "nodisplay")
                 => n \in file'[k].scalars \cup file'[k].vectors]_vars
\* a file of all regions together has the same variables for all of them
Alike == \A k \in 1..Len(file) : file[k].type = "tecplot" => file[k].scalars = file[1].scalars /\ file[k].vectors = file[1].vectors /\ file[k].cells = file[1].cells
\* a region's own wish is followed where the regions have files of their own
Own == [][file' # file /\ file' # <<>> /\ file'[1].type = "vtk" =>
            \A k \in 1..2 : \A n \in Edges : (n \in file'[k].vectors) <=> (n \in file'[k].keep /\ n \in Names(seen["d"].regions[k].edge) /\ Show("d", Regions[k], "edge", n) = "vector")]_vars
\* two false statements: the last region decides, and no model is ever told of a region without it
LastDecides == [][file' # file /\ file' # <<>> /\ file'[1].type = "tecplot" =>
                   \A n \in Edges : (n \in Names(seen["d"].regions[2].edge) /\ Show("d", "b", "edge", n) = "vector" /\ n \in file'[2].keep) => n \in file'[2].vectors]_vars
OnlyOwn == \A k \in 1..Len(file) : file[k].scalars \subseteq Names(seen["d"].regions[k].node) \cup Names(seen["d"].regions[k].edge)
===============================================================================
