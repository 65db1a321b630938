----------------------------- MODULE TraceModels -----------------------------
EXTENDS Models, TraceBase
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1

Same(e) == /\ res'.ok = e.ok
           /\ e.ok => /\ Has(e, "vals") => res'.vals = Anything \/ res'.vals = e.vals
                      /\ Has(e, "lst") => /\ res'.lst = Range(e.lst)
                                          /\ Cardinality(res'.lst) = Len(e.lst)
Builtin(b) == [r \in DOMAIN b |-> [n \in DOMAIN b[r] |-> [cls |-> b[r][n].cls, kind |-> "sol", vals |-> b[r][n].vals]]]

Step(e) ==
  CASE e.op = "reset"         -> Reset
    [] e.op = "create_device" -> CreateDevice(e.device, e.regs, Builtin(e.builtin))
    [] e.op = "delete_device" -> DeleteDevice(e.device) /\ Same(e)
    [] e.op = "set_parameter" -> SetPar(e.device, e.region, e.name, e.val) /\ Same(e)
    [] e.op = "solution"      -> Solution(e.device, e.region, e.cls, e.name) /\ Same(e)
    [] e.op = "define"        -> Define(e.device, e.region, e.cls, e.name, e.ast) /\ Same(e)
    [] e.op = "edge_from_node" -> EdgeFromNode(e.device, e.region, e.name, e.n0, e.n1) /\ Same(e)
    [] e.op = "element_from_node" -> ElemFromNode(e.device, e.region, e.name, e.es) /\ Same(e)
    [] e.op = "average"       -> Average(e.device, e.region, e.name, e.edge, e.how) /\ Same(e)
    [] e.op = "average_der"   -> AverageDer(e.device, e.region, e.name, e.var, e.dn, e.e0, e.e1, e.how) /\ Same(e)
    [] e.op = "delete"        -> Delete(e.device, e.region, e.cls, e.name) /\ Same(e)
    [] e.op = "set_values"    -> SetValues(e.device, e.region, e.cls, e.name, e.new) /\ Same(e)
    [] e.op = "copy_values"   -> CopyValues(e.device, e.region, e.cls, e.name, e.from) /\ Same(e)
    [] e.op = "set_one"       -> SetOne(e.device, e.region, e.name, e.index, e.val) /\ Same(e)
    [] e.op = "read"          -> Read(e.device, e.region, e.cls, e.name) /\ Same(e)
    [] e.op = "list"          -> List(e.device, e.region, e.cls) /\ Same(e)
    [] e.op = "misuse"        -> Refuse /\ ~e.ok
    [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
