----------------------------- MODULE TraceExprs -----------------------------
EXTENDS Exprs, TraceBase
VARIABLE l
tvars == <<vars, l>>
Step(e) ==
  CASE e.op = "reset"     -> Reset
    [] e.op = "device"    -> Device(e.top)
    [] e.op = "par"       -> SetPar(e.name, e.val)
    [] e.op = "function"  -> Function(e.name, e.n, e.ast)
    [] e.op = "vals"      -> SetVals(e.name, e.cls, e.vals)
    [] e.op = "define"    -> Define(e.name, e.cls, e.ast)
    [] e.op = "setting"   -> Setting
    [] e.op = "read"      -> ReadExpr(e.name) /\ res'.ok = e.ok /\ (e.ok => res'.vals = e.vals)
    [] e.op = "fn"        -> ReadFn(e.name, e.prec, e.vals) /\ res'.vals = e.vals
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == Init /\ l = 1 /\ [][TraceNext]_tvars
=============================================================================
