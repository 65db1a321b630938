---------------------------- MODULE TraceSession ----------------------------
(* Checks recorded sessions against Session, with the signatures the commands declare. *)
EXTENDS Signatures, Json, IOUtils, Naturals, Sequences, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

Asks == {"get_circuit_equation_number", "get_circuit_node_list", "get_circuit_node_value", "get_circuit_solution_list",
  "get_contact_charge", "get_contact_current", "get_contact_equation_command", "get_contact_equation_list", "get_contact_list",
  "get_device_list", "get_dimension", "get_edge_model_list", "get_edge_model_values", "get_element_model_list",
  "get_element_model_values", "get_element_node_list", "get_equation_command", "get_equation_list", "get_equation_numbers",
  "get_interface_equation_command", "get_interface_equation_list", "get_interface_list", "get_interface_model_list",
  "get_interface_model_values", "get_material", "get_mesh_list", "get_node_model_list", "get_node_model_values", "get_parameter",
  "get_parameter_list", "get_region_list", "print_edge_values", "print_element_values", "print_node_values", "symdiff"}

VARIABLES at, tree, seen, i
INSTANCE Session WITH Sig <- Signature, Asking <- Asks, Trying <- {"solve", "get_matrix_and_rhs"}
tvars == <<at, tree, seen, i>>

TraceAccepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Trace)>>)

Args(e) == {e.args[k] : k \in 1..Len(e.args)}

Step(e) ==
  CASE e.op = "reset" -> at' = 0 /\ tree' = Empty /\ seen' = Empty
    [] e.op = "call" ->
         /\ e.err \in {"none", "error"}
         /\ e.valid => e.err = "none"
         /\ Call(e.cmd, e.pos, Args(e), e.err = "none", e.ret)
    [] e.op = "see" -> Look(e.v)
    [] OTHER -> FALSE

TraceInit == SessionInit /\ i = 1
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
