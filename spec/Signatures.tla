----------------------------- MODULE Signatures -----------------------------
(* What every command of the module devsim takes, as its documentation declares it: for each option
   its type, whether it must be given, and the value it has when it is left out.
     S any text   F a number   I an integer of 32 bits   B true or false   L a sequence   A any object *)
EXTENDS TLC

Opt(t, d) == [type |-> t, needed |-> FALSE, default |-> d]
Need(t) == [type |-> t, needed |-> TRUE, default |-> ""]

Signature == [
  add_1d_contact |-> [material |-> Need("S"), mesh |-> Need("S"), name |-> Need("S"), tag |-> Need("S")],
  add_1d_interface |-> [mesh |-> Need("S"), name |-> Need("S"), tag |-> Need("S")],
  add_1d_mesh_line |-> [mesh |-> Need("S"), ns |-> Opt("F", "0.0"), pos |-> Need("F"), ps |-> Need("F"), tag |-> Opt("S", "")],
  add_1d_region |-> [material |-> Need("S"), mesh |-> Need("S"), region |-> Need("S"), tag1 |-> Need("S"), tag2 |-> Need("S")],
  add_2d_contact |-> [bloat |-> Opt("F", "1e-10"), material |-> Need("S"), mesh |-> Need("S"), name |-> Need("S"), region |-> Need("S"),
      xh |-> Opt("F", "1.7976931348623157e+308"), xl |-> Opt("F", "-1.7976931348623157e+308"), yh |-> Opt("F", "1.7976931348623157e+308"),
      yl |-> Opt("F", "-1.7976931348623157e+308")],
  add_2d_interface |-> [bloat |-> Opt("F", "1e-10"), mesh |-> Need("S"), name |-> Need("S"), region0 |-> Need("S"), region1 |-> Need("S"),
      xh |-> Opt("F", "1.7976931348623157e+308"), xl |-> Opt("F", "-1.7976931348623157e+308"), yh |-> Opt("F", "1.7976931348623157e+308"),
      yl |-> Opt("F", "-1.7976931348623157e+308")],
  add_2d_mesh_line |-> [dir |-> Need("S"), mesh |-> Need("S"), ns |-> Opt("F", "0.0"), pos |-> Need("F"), ps |-> Need("F")],
  add_2d_region |-> [bloat |-> Opt("F", "1e-10"), material |-> Need("S"), mesh |-> Need("S"), region |-> Need("S"), xh |-> Opt("F",
      "1.7976931348623157e+308"), xl |-> Opt("F", "-1.7976931348623157e+308"), yh |-> Opt("F", "1.7976931348623157e+308"), yl |-> Opt("F",
      "-1.7976931348623157e+308")],
  add_circuit_node |-> [name |-> Need("S"), value |-> Opt("F", "0.0"), variable_update |-> Opt("S", "default")],
  add_gmsh_contact |-> [gmsh_name |-> Need("S"), material |-> Need("S"), mesh |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  add_gmsh_interface |-> [gmsh_name |-> Need("S"), mesh |-> Need("S"), name |-> Need("S"), region0 |-> Need("S"), region1 |-> Need("S")],
  add_gmsh_region |-> [gmsh_name |-> Need("S"), material |-> Need("S"), mesh |-> Need("S"), region |-> Need("S")],
  circuit_alter |-> [name |-> Need("S"), param |-> Opt("S", "value"), value |-> Need("F")],
  circuit_element |-> [acimag |-> Opt("F", "0.0"), acreal |-> Opt("F", "0.0"), n1 |-> Need("S"), n2 |-> Need("S"), name |-> Need("S"),
      value |-> Opt("F", "0.0")],
  circuit_node_alias |-> [alias |-> Need("S"), node |-> Need("S")],
  contact_edge_model |-> [contact |-> Need("S"), device |-> Need("S"), display_type |-> Opt("S", ""), equation |-> Need("S"), name |-> Need("S")],
  contact_equation |-> [circuit_node |-> Opt("S", ""), contact |-> Need("S"), device |-> Need("S"), edge_charge_model |-> Opt("S", ""),
      edge_current_model |-> Opt("S", ""), edge_model |-> Opt("S", ""), edge_volume_model |-> Opt("S", ""), element_charge_model |-> Opt("S", ""),
      element_current_model |-> Opt("S", ""), element_model |-> Opt("S", ""), name |-> Need("S"), node_charge_model |-> Opt("S", ""),
      node_current_model |-> Opt("S", ""), node_model |-> Opt("S", ""), volume_node0_model |-> Opt("S", ""), volume_node1_model |-> Opt("S", "")],
  contact_node_model |-> [contact |-> Need("S"), device |-> Need("S"), display_type |-> Opt("S", ""), equation |-> Need("S"), name |-> Need("S")],
  create_1d_mesh |-> [mesh |-> Need("S")],
  create_2d_mesh |-> [mesh |-> Need("S")],
  create_contact_from_interface |-> [device |-> Need("S"), interface |-> Need("S"), material |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  create_device |-> [device |-> Need("S"), mesh |-> Need("S")],
  create_gmsh_mesh |-> [coordinates |-> Opt("L", "left out"), elements |-> Opt("L", "left out"), file |-> Opt("S", ""), mesh |-> Need("S"),
      physical_names |-> Opt("L", "left out")],
  create_interface_from_nodes |-> [device |-> Need("S"), name |-> Need("S"), nodes0 |-> Need("L"), nodes1 |-> Need("L"), region0 |-> Need("S"),
      region1 |-> Need("S")],
  custom_equation |-> [name |-> Need("S"), procedure |-> Need("A")],
  cylindrical_edge_couple |-> [device |-> Need("S"), region |-> Need("S")],
  cylindrical_node_volume |-> [device |-> Need("S"), region |-> Need("S")],
  cylindrical_surface_area |-> [device |-> Need("S"), region |-> Need("S")],
  debug_triangle_models |-> [device |-> Need("S"), region |-> Need("S")],
  delete_circuit |-> <<>>,
  delete_contact_equation |-> [contact |-> Need("S"), device |-> Need("S"), name |-> Need("S")],
  delete_device |-> [device |-> Need("S")],
  delete_edge_model |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  delete_element_model |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  delete_equation |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  delete_interface_equation |-> [device |-> Need("S"), interface |-> Need("S"), name |-> Need("S")],
  delete_interface_model |-> [device |-> Need("S"), interface |-> Need("S"), name |-> Need("S")],
  delete_mesh |-> [mesh |-> Need("S")],
  delete_node_model |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  edge_average_model |-> [average_type |-> Opt("S", "arithmetic"), derivative |-> Opt("S", ""), device |-> Need("S"), edge_model |-> Need("S"),
      node_model |-> Need("S"), region |-> Need("S")],
  edge_from_node_model |-> [calc_type |-> Opt("S", "default"), device |-> Need("S"), node_model |-> Need("S"), region |-> Need("S")],
  edge_model |-> [device |-> Need("S"), display_type |-> Opt("S", ""), equation |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  edge_solution |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  element_from_edge_model |-> [derivative |-> Opt("S", ""), device |-> Need("S"), edge_model |-> Need("S"), region |-> Need("S")],
  element_from_node_model |-> [calc_type |-> Opt("S", "default"), device |-> Need("S"), node_model |-> Need("S"), region |-> Need("S")],
  element_model |-> [device |-> Need("S"), display_type |-> Opt("S", ""), equation |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  element_pair_from_edge_model |-> [derivative |-> Opt("S", ""), device |-> Need("S"), edge_model |-> Need("S"), region |-> Need("S")],
  element_solution |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  equation |-> [device |-> Need("S"), edge_model |-> Opt("S", ""), edge_volume_model |-> Opt("S", ""), element_model |-> Opt("S", ""),
      name |-> Need("S"), node_model |-> Opt("S", ""), region |-> Need("S"), time_node_model |-> Opt("S", ""), variable_name |-> Need("S"),
      variable_update |-> Opt("S", "default"), volume_node0_model |-> Opt("S", ""), volume_node1_model |-> Opt("S", "")],
  finalize_mesh |-> [mesh |-> Need("S")],
  get_circuit_equation_number |-> [node |-> Need("S")],
  get_circuit_node_list |-> <<>>,
  get_circuit_node_value |-> [node |-> Need("S"), solution |-> Opt("S", "dcop"), value |-> Opt("F", "0.0")],
  get_circuit_solution_list |-> <<>>,
  get_contact_charge |-> [contact |-> Need("S"), device |-> Need("S"), equation |-> Need("S")],
  get_contact_current |-> [contact |-> Need("S"), device |-> Need("S"), equation |-> Need("S")],
  get_contact_equation_command |-> [contact |-> Need("S"), device |-> Need("S"), name |-> Need("S")],
  get_contact_equation_list |-> [contact |-> Need("S"), device |-> Need("S")],
  get_contact_list |-> [device |-> Need("S")],
  get_device_list |-> <<>>,
  get_dimension |-> [device |-> Opt("S", "")],
  get_edge_model_list |-> [device |-> Need("S"), region |-> Need("S")],
  get_edge_model_values |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  get_element_model_list |-> [device |-> Need("S"), region |-> Need("S")],
  get_element_model_values |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  get_element_node_list |-> [contact |-> Opt("S", ""), device |-> Need("S"), interface |-> Opt("S", ""), region |-> Need("S"), reorder |-> Opt("B",
      "False")],
  get_equation_command |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  get_equation_list |-> [device |-> Need("S"), region |-> Need("S")],
  get_equation_numbers |-> [device |-> Need("S"), equation |-> Opt("S", ""), region |-> Need("S"), variable |-> Opt("S", "")],
  get_interface_equation_command |-> [device |-> Need("S"), interface |-> Need("S"), name |-> Need("S")],
  get_interface_equation_list |-> [device |-> Need("S"), interface |-> Need("S")],
  get_interface_list |-> [device |-> Need("S")],
  get_interface_model_list |-> [device |-> Need("S"), interface |-> Need("S")],
  get_interface_model_values |-> [device |-> Need("S"), interface |-> Need("S"), name |-> Need("S")],
  get_material |-> [contact |-> Opt("S", ""), device |-> Need("S"), region |-> Opt("S", "")],
  get_matrix_and_rhs |-> [format |-> Opt("S", "csc")],
  get_mesh_list |-> <<>>,
  get_node_model_list |-> [device |-> Need("S"), region |-> Need("S")],
  get_node_model_values |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  get_parameter |-> [device |-> Opt("S", ""), name |-> Need("S"), region |-> Opt("S", "")],
  get_parameter_list |-> [device |-> Opt("S", ""), region |-> Opt("S", "")],
  get_region_list |-> [contact |-> Opt("S", ""), device |-> Need("S"), interface |-> Opt("S", "")],
  interface_equation |-> [device |-> Need("S"), interface |-> Need("S"), interface_model |-> Opt("S", ""), name |-> Need("S"), name0 |-> Opt("S",
      ""), name1 |-> Opt("S", ""), type |-> Need("S")],
  interface_model |-> [device |-> Need("S"), equation |-> Need("S"), interface |-> Need("S"), name |-> Need("S")],
  interface_normal_model |-> [device |-> Need("S"), interface |-> Need("S"), region |-> Need("S")],
  load_devices |-> [file |-> Need("S")],
  node_model |-> [device |-> Need("S"), display_type |-> Opt("S", ""), equation |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  node_solution |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  print_edge_values |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  print_element_values |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  print_node_values |-> [device |-> Need("S"), name |-> Need("S"), region |-> Need("S")],
  register_function |-> [name |-> Need("S"), nargs |-> Need("I"), procedure |-> Need("A")],
  reset_devsim |-> <<>>,
  set_circuit_node_value |-> [node |-> Need("S"), solution |-> Opt("S", "dcop"), value |-> Opt("F", "0.0")],
  set_edge_values |-> [device |-> Need("S"), init_from |-> Opt("S", ""), name |-> Need("S"), region |-> Need("S"), values |-> Opt("L", "left out")],
  set_element_values |-> [device |-> Need("S"), init_from |-> Opt("S", ""), name |-> Need("S"), region |-> Need("S"), values |-> Opt("L",
      "left out")],
  set_initial_condition |-> [dynamic_rhs |-> Need("L"), static_rhs |-> Need("L")],
  set_material |-> [contact |-> Opt("S", ""), device |-> Need("S"), material |-> Need("S"), region |-> Opt("S", "")],
  set_node_value |-> [device |-> Need("S"), index |-> Opt("I", "-1"), name |-> Need("S"), region |-> Need("S"), value |-> Need("F")],
  set_node_values |-> [device |-> Need("S"), init_from |-> Opt("S", ""), name |-> Need("S"), region |-> Need("S"), values |-> Opt("L", "left out")],
  set_parameter |-> [device |-> Opt("S", ""), name |-> Need("S"), region |-> Opt("S", ""), value |-> Need("A")],
  solve |-> [absolute_error |-> Opt("F", "0.0"), charge_error |-> Opt("F", "0.0"), frequency |-> Opt("F", "0.0"), gamma |-> Opt("F", "1.0"),
      info |-> Opt("B", "False"), maximum_divergence |-> Opt("I", "20"), maximum_error |-> Opt("F", "1.7976931348623157e+308"),
      maximum_iterations |-> Opt("I", "20"), output_node |-> Opt("S", ""), relative_error |-> Opt("F", "0.0"), solver_type |-> Opt("S", "direct"),
      symbolic_iteration_limit |-> Opt("I", "1"), tdelta |-> Opt("F", "0.0"), type |-> Need("S")],
  symdiff |-> [expr |-> Need("S")],
  vector_element_model |-> [device |-> Need("S"), element_model |-> Need("S"), region |-> Need("S")],
  vector_gradient |-> [calc_type |-> Opt("S", "default"), device |-> Need("S"), node_model |-> Need("S"), region |-> Need("S")],
  write_devices |-> [device |-> Opt("S", ""), file |-> Need("S"), include_test |-> Opt("A", "left out"), type |-> Opt("S", "devsim")]]

=============================================================================
