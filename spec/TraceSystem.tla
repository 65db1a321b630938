----------------------------- MODULE TraceSystem -----------------------------
EXTENDS System, TraceBase
VARIABLE l
tvars == <<svars, res, l>>
SystemInit == /\ Init /\ CInit /\ dev = Free0 /\ eqs = Free0 /\ ceqs = Free0 /\ ieqs = Free0
              /\ imods = Free0 /\ cust = Free0 /\ wt = Free0
TraceInit == SystemInit /\ l = 1

Same(e) == /\ res'.ok = e.ok
           /\ e.ok => /\ Has(e, "vals") => res'.vals = Anything \/ res'.vals = e.vals
                      /\ Has(e, "lst") => /\ res'.lst = Range(e.lst)
                                          /\ Cardinality(res'.lst) = Len(e.lst)
Builtin(b) == [r \in DOMAIN b |-> [n \in DOMAIN b[r] |-> [cls |-> b[r][n].cls, kind |-> "sol", vals |-> b[r][n].vals]]]
Got(e) == IF e.ok THEN e.got ELSE e.name
Listed(e) == IF e.ok THEN e.lst ELSE <<>>

ModelOp(e) ==
  CASE e.op = "set_parameter" -> SetPar(e.device, e.region, e.name, e.val) /\ Same(e)
    [] e.op = "solution"      -> Solution(e.device, e.region, e.cls, e.name) /\ Same(e)
    [] e.op = "define"        -> Define(e.device, e.region, e.cls, e.name, e.ast) /\ Same(e)
    [] e.op = "edge_from_node" -> EdgeFromNode(e.device, e.region, e.name, e.n0, e.n1) /\ Same(e)
    [] e.op = "element_from_node" -> ElemFromNode(e.device, e.region, e.name, e.es) /\ Same(e)
    [] e.op = "average"       -> Average(e.device, e.region, e.name, e.edge, e.how) /\ Same(e)
    [] e.op = "average_der"   -> AverageDer(e.device, e.region, e.name, e.var, e.dn, e.e0, e.e1, e.how) /\ Same(e)
    [] e.op = "delete"        -> Delete(e.device, e.region, e.cls, e.name) /\ Same(e)
    [] e.op = "set_values"    -> SetValues(e.device, e.region, e.cls, e.name, e.new) /\ Same(e)
    [] e.op = "copy_values"   -> CopyValues(e.device, e.region, e.cls, e.name, e.from) /\ Same(e)
    [] e.op = "set_one"       -> SetOne(e.device, e.region, e.name, e.index, e.val) /\ Same(e)
    [] e.op = "read"          -> Read(e.device, e.region, e.cls, e.name) /\ Same(e)
    [] e.op = "list"          -> List(e.device, e.region, e.cls) /\ Same(e)
    [] e.op = "misuse"        -> Refuse /\ ~e.ok
ModelOps == {"set_parameter", "solution", "define", "edge_from_node", "element_from_node", "average", "average_der", "delete",
             "set_values", "copy_values", "set_one", "read", "list", "misuse"}

\* a circuit command: done when its guard holds, otherwise refused without effect
\* (the ground may have been brought in)
Circ(e, guard, A) == IF guard THEN A /\ CircuitStep /\ Done /\ e.ok
                     ELSE /\ ~e.ok /\ cn' \in {cn, WithGround(cn)} /\ UNCHANGED <<al, el, sol, lock>>
                          /\ CircuitStep /\ Reply(FALSE, <<>>, {})
CircGet(e, guard, v) == /\ cn' = WithGround(cn) /\ UNCHANGED <<al, el, sol, lock>> /\ CircuitStep
                        /\ IF guard THEN e.ok /\ Reply(TRUE, v, {}) ELSE ~e.ok /\ Reply(FALSE, <<>>, {})
CircuitOp(e) ==
  CASE e.op = "circuit_node"  -> Circ(e, AddNodeOK(e.name), AddNode(e.name))
    [] e.op = "circuit_element" -> Circ(e, ElementOK(e.t, e.name, e.n1, e.n2, e.ac), Element(e.t, e.name, e.n1, e.n2, e.p))
    [] e.op = "circuit_alter" -> Circ(e, AlterOK(e.name, e.param), Alter(e.name, e.param, e.val))
    [] e.op = "circuit_alias" -> Circ(e, AliasOK(e.node, e.alias), Alias(e.node, e.alias))
    [] e.op = "circuit_set"   -> Circ(e, ValueOK(e.sol, e.node), SetValue(e.sol, e.node, e.val) )
    [] e.op = "circuit_get"   -> CircGet(e, ValueOK(e.sol, e.node), <<ValueOf(e.sol, e.node)>>) /\ (e.ok => e.vals = res'.vals)
    [] e.op = "circuit_nodes" -> CircGet(e, TRUE, <<>>) /\ Range(e.lst) = CNodes /\ Cardinality(CNodes) = Len(e.lst)
    [] e.op = "circuit_solutions" -> CircGet(e, TRUE, <<>>) /\ Range(e.lst) = DOMAIN sol /\ Cardinality(DOMAIN sol) = Len(e.lst)
    [] e.op = "circuit_delete" -> DeleteCircuit /\ CircuitStep /\ Done /\ e.ok
CircuitOps == {"circuit_node", "circuit_element", "circuit_alter", "circuit_alias", "circuit_set", "circuit_get",
               "circuit_nodes", "circuit_solutions", "circuit_delete"}

EquationOp(e) ==
  CASE e.op = "equation"      -> Equation(e.device, e.region, e.eq) /\ Same(e)
    [] e.op = "delete_equation" -> DeleteEquation(e.device, e.region, e.name) /\ Same(e)
    [] e.op = "equation_list" -> EquationList(e.device, e.region, Listed(e)) /\ Same(e)
    [] e.op = "equation_command" -> EquationCommand(e.device, e.region, e.name, Got(e)) /\ Same(e)
    [] e.op = "contact_equation" -> ContactEquation(e.device, e.contact, e.name, e.eq) /\ Same(e)
    [] e.op = "delete_contact_equation" -> DeleteContactEquation(e.device, e.contact, e.name) /\ Same(e)
    [] e.op = "contact_equation_list" -> ContactEquationList(e.device, e.contact) /\ Same(e)
    [] e.op = "contact_equation_command" -> ContactEquationCommand(e.device, e.contact, e.name, Got(e)) /\ Same(e)
    [] e.op = "interface_equation" -> InterfaceEquation(e.device, e.iface, e.name, e.eq) /\ Same(e)
    [] e.op = "delete_interface_equation" -> DeleteInterfaceEquation(e.device, e.iface, e.name) /\ Same(e)
    [] e.op = "interface_equation_list" -> InterfaceEquationList(e.device, e.iface) /\ Same(e)
    [] e.op = "interface_equation_command" -> InterfaceEquationCommand(e.device, e.iface, e.name, Got(e)) /\ Same(e)
    [] e.op = "custom"        -> Custom(e.name, e.eq) /\ Same(e)
    [] e.op = "weight"        -> Weight(e.device, e.region, e.kind, e.name) /\ Same(e)
    [] e.op = "contact_model" -> ContactModel(e.device, e.contact, e.cls, e.name, e.ast) /\ Same(e)
    [] e.op = "interface_model" -> InterfaceModel(e.device, e.iface, e.name, e.ast) /\ Same(e)
    [] e.op = "delete_interface_model" -> DeleteInterfaceModel(e.device, e.iface, e.name) /\ Same(e)
    [] e.op = "read_interface" -> ReadInterface(e.device, e.iface, e.name) /\ Same(e)
    [] e.op = "interface_model_list" -> InterfaceModelList(e.device, e.iface) /\ Same(e)
    [] e.op = "assemble"      -> Assemble(e)
    [] OTHER -> FALSE

Step(e) ==
  CASE e.op = "reset"         -> ResetSystem
    [] e.op = "create_system" -> CreateSystem(e.device, e.regs, Builtin(e.builtin), e.cons, e.ifs)
    [] e.op = "delete_device" -> DeleteSystem(e.device) /\ Same(e)
    [] e.op \in ModelOps      -> ModelStep(ModelOp(e))
    [] e.op \in CircuitOps    -> CircuitOp(e)
    [] OTHER -> EquationOp(e)

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == GroundsHold /\ AliasesPoint /\ Wired /\ Locked
=============================================================================
