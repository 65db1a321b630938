----------------------------- MODULE TraceParams -----------------------------
EXTENDS Params, TraceBase
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1

\* the reply of the implementation is the reply of the specification
Same(e) == /\ res'.ok = e.ok
           /\ e.ok => /\ Has(e, "val") => res'.val = e.val
                      /\ Has(e, "lst") => /\ res'.lst = Range(e.lst)
                                          /\ Cardinality(res'.lst) = Len(e.lst)

\* the complete state, read back through the public commands
Dump(e) ==
  /\ UNCHANGED <<dev, par>>
  /\ DOMAIN dev = DOMAIN e.dev
  /\ \A d \in DOMAIN dev : dev[d].regs = e.dev[d].regs /\ dev[d].cons = e.dev[d].cons
  /\ {<<k[1], k[2], k[3], par[k]>> : k \in DOMAIN par} = Range(e.par)
  /\ \A s \in Range(e.seen) : /\ VisibleIn(par, s[1], s[2], s[3])
                              /\ LookupIn(par, s[1], s[2], s[3]) = s[4]
  /\ \A s \in Range(e.unseen) : ~VisibleIn(par, s[1], s[2], s[3])
  /\ Reply("dump", <<>>, TRUE, "", {})

Step(e) ==
  CASE e.op = "reset"              -> Reset
    [] e.op = "create_device"      -> CreateDevice(e.device, e.regs, e.cons) /\ Same(e)
    [] e.op = "delete_device"      -> DeleteDevice(e.device) /\ Same(e)
    [] e.op = "set_parameter"      -> SetParam(e.device, e.region, e.name, e.value) /\ Same(e)
    [] e.op = "get_parameter"      -> GetParam(e.device, e.region, e.name) /\ Same(e)
    [] e.op = "get_parameter_list" -> ListParam(e.device, e.region) /\ Same(e)
    [] e.op = "set_material"       -> SetMaterial(e.device, e.region, e.contact, e.material) /\ Same(e)
    [] e.op = "get_material"       -> GetMaterial(e.device, e.region, e.contact) /\ Same(e)
    [] e.op = "get_device_list"    -> ListDevices /\ Same(e)
    [] e.op = "dump"               -> Dump(e)
    [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
